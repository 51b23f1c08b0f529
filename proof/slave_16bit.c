/* C09 with the 16 bit machine model (int has 16 bits, as on AVR): whatever the request, only addresses inside the tables are used.
 * The accessors of the tables are replaced by their contracts (precondition asserted, any result). Loops are unwound completely. */
#include <stddef.h>
#include "modbus_slave_PDU.h"
#include "modbus_slave_data.h"
uint8_t rq[256], rs[256];
uint16_t nondet_u16(void);
modbus_reg_t *Slave_Input_Registers[INPUT_REG_QTY], *Slave_Holding_Registers[HOLDING_REG_QTY];
modbus_coil_disin_t *Slave_Coils[COILS_QTY], *Slave_Discrete_Inputs[DISCRET_INPUT_QTY];
#define REGS(t) ((t) == Slave_Holding_Registers ? HOLDING_REG_QTY : INPUT_REG_QTY)
#define BITS(t) ((t) == Slave_Coils ? COILS_QTY : DISCRET_INPUT_QTY)
#define IN(a, n) __CPROVER_assert((a) < (n), "C9: only addresses inside the table are used (16 bit int)")
modbus_ret_t get_coil_din_state(modbus_coil_disin_t **t, modbus_adr_t a)
{
    uint16_t r = nondet_u16();
    IN(a, BITS(t));
    return r > 1 ? RET_ERROR : r;
}
modbus_ret_t get_register_state(modbus_reg_t **t, modbus_adr_t a)
{
    uint16_t r = nondet_u16(), ok = nondet_u16();
    IN(a, REGS(t));
    return ok ? (modbus_ret_t)r : RET_ERROR;
}
modbus_ret_t set_coil_state(modbus_coil_disin_t **t, modbus_adr_t a, modbus_coil_disin_t v)
{
    IN(a, BITS(t));
    return nondet_u16() ? RET_OK : RET_ERROR;
}
modbus_ret_t set_register_value(modbus_reg_t **t, modbus_adr_t a, modbus_reg_t v)
{
    IN(a, REGS(t));
    return nondet_u16() ? RET_OK : RET_ERROR;
}
void harness(void)
{
    modbus_msg_t m;
    m.req.data = rq;
    m.resp.data = rs;
    m.req.len = nondet_u16();
    rq[0] = nondet_u16();
    rq[1] = FC;
    for (int i = 2; i < 8; i++) /* the values to write do not matter here */
        rq[i] = nondet_u16();
    __CPROVER_assert(sizeof(int) == 2, "the machine model is the 16 bit one");
    parse_master_request_and_prepare_resp(&m);
    __CPROVER_assert(0, "REACH: end");
}
