/* Contracts of leaf functions, enforced on the real code by dfcc (preconditions assumed, postconditions and frame asserted).
 * F selects the function. */
#include "modbus_slave_data.h"
#include "modbus_PDU_common.h"
#include "modbus_slave.h"
#include "buf_rw.h"
#include "ghost.h"
#include <stddef.h>
#define IN(n, adr) ((adr) < (n))
uint16_t g_k;
modbus_coil_disin_t *g_old_b;
modbus_reg_t *g_old_r;

/* accessors: the value behind the registered pointer, RET_ERROR if there is none; nothing else is touched */
modbus_ret_t get_coil_din_state(modbus_coil_disin_t **tab, modbus_adr_t adr)
    __CPROVER_requires(__CPROVER_is_fresh(tab, (COILS_QTY) * sizeof(*tab)))
    __CPROVER_requires(adr < COILS_QTY)
    __CPROVER_requires(tab[adr] == NULL || __CPROVER_is_fresh(tab[adr], sizeof(**tab)))
    __CPROVER_requires(tab[adr] == NULL || *(uint8_t *)tab[adr] <= 1)
    __CPROVER_assigns()
    __CPROVER_ensures(__CPROVER_return_value == (tab[adr] == NULL ? RET_ERROR : *tab[adr] ? 1 : 0));
modbus_ret_t get_register_state(modbus_reg_t **tab, modbus_adr_t adr)
    __CPROVER_requires(__CPROVER_is_fresh(tab, (HOLDING_REG_QTY) * sizeof(*tab)))
    __CPROVER_requires(adr < HOLDING_REG_QTY)
    __CPROVER_requires(tab[adr] == NULL || __CPROVER_is_fresh(tab[adr], sizeof(**tab)))
    __CPROVER_assigns()
    __CPROVER_ensures(__CPROVER_return_value == (tab[adr] == NULL ? RET_ERROR : *tab[adr]));
modbus_ret_t set_coil_state(modbus_coil_disin_t **tab, modbus_adr_t adr, modbus_coil_disin_t v)
    __CPROVER_requires(__CPROVER_is_fresh(tab, (COILS_QTY) * sizeof(*tab)))
    __CPROVER_requires(adr < COILS_QTY)
    __CPROVER_requires(tab[adr] == NULL || __CPROVER_is_fresh(tab[adr], sizeof(**tab)))
    __CPROVER_assigns(tab[adr] != NULL: *tab[adr])
    __CPROVER_ensures(tab[adr] == __CPROVER_old(tab[adr]))
    __CPROVER_ensures(__CPROVER_return_value == (tab[adr] == NULL ? RET_ERROR : RET_OK))
    __CPROVER_ensures(tab[adr] == NULL || *tab[adr] == v);
modbus_ret_t set_register_value(modbus_reg_t **tab, modbus_adr_t adr, modbus_reg_t v)
    __CPROVER_requires(__CPROVER_is_fresh(tab, (HOLDING_REG_QTY) * sizeof(*tab)))
    __CPROVER_requires(adr < HOLDING_REG_QTY)
    __CPROVER_requires(tab[adr] == NULL || __CPROVER_is_fresh(tab[adr], sizeof(**tab)))
    __CPROVER_assigns(tab[adr] != NULL: *tab[adr])
    __CPROVER_ensures(tab[adr] == __CPROVER_old(tab[adr]))
    __CPROVER_ensures(__CPROVER_return_value == (tab[adr] == NULL ? RET_ERROR : RET_OK))
    __CPROVER_ensures(tab[adr] == NULL || *tab[adr] == v);

/* registration: exactly the addressed entry of exactly the named table changes */
void register_app_data_to_modbus_slave_coils_table(modbus_adr_t adr, modbus_coil_disin_t *p)
    __CPROVER_requires(adr < COILS_QTY) __CPROVER_assigns(Slave_Coils[adr]) __CPROVER_ensures(Slave_Coils[adr] == p);
void register_app_data_to_modbus_slave_din_table(modbus_adr_t adr, modbus_coil_disin_t *p)
    __CPROVER_requires(adr < DISCRET_INPUT_QTY) __CPROVER_assigns(Slave_Discrete_Inputs[adr]) __CPROVER_ensures(Slave_Discrete_Inputs[adr] == p);
void register_app_data_to_modbus_slave_hreg_table(modbus_adr_t adr, modbus_reg_t *p)
    __CPROVER_requires(adr < HOLDING_REG_QTY) __CPROVER_assigns(Slave_Holding_Registers[adr]) __CPROVER_ensures(Slave_Holding_Registers[adr] == p);
void register_app_data_to_modbus_slave_inreg_table(modbus_adr_t adr, modbus_reg_t *p)
    __CPROVER_requires(adr < INPUT_REG_QTY) __CPROVER_assigns(Slave_Input_Registers[adr]) __CPROVER_ensures(Slave_Input_Registers[adr] == p);

/* 16 bit values are stored high byte first */
uint16_t read_u16_from_buf(const uint8_t *buf)
    __CPROVER_requires(__CPROVER_is_fresh(buf, 2)) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == buf[0] * 256 + buf[1]);
void write_u16_to_buf(uint8_t *buf, uint16_t data)
    __CPROVER_requires(__CPROVER_is_fresh(buf, 2)) __CPROVER_assigns(buf[0], buf[1]) __CPROVER_ensures(buf[0] == data / 256 && buf[1] == data % 256);
modbus_byte_count_t get_coil_din_byte_count(modbus_data_qty_t q)
    __CPROVER_requires(q <= 2040) __CPROVER_assigns() __CPROVER_ensures(__CPROVER_return_value == (q + 7) / 8);

void harness(void)
{
    modbus_coil_disin_t **bt, *bp;
    modbus_reg_t **rt, *rp;
    modbus_adr_t a;
    uint16_t v;
    uint8_t *buf;
#if F == 1
    get_coil_din_state(bt, a);
#elif F == 2
    get_register_state(rt, a);
#elif F == 3
    set_coil_state(bt, a, v & 1);
#elif F == 4
    set_register_value(rt, a, v);
#elif F == 5
    register_app_data_to_modbus_slave_coils_table(a, bp);
#elif F == 6
    register_app_data_to_modbus_slave_din_table(a, bp);
#elif F == 7
    register_app_data_to_modbus_slave_hreg_table(a, rp);
#elif F == 8
    register_app_data_to_modbus_slave_inreg_table(a, rp);
#elif F == 9
    read_u16_from_buf(buf);
#elif F == 10
    write_u16_to_buf(buf, v);
#elif F == 11
    get_coil_din_byte_count(v);
#endif
    REACH("returns");
}
