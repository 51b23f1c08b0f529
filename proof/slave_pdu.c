/* Contract of parse_master_request_and_prepare_resp (real code, slave_internall/modbus_slave_PDU.c) for one function code.
 * Callee contracts used: get_coil_din_state, get_register_state, set_coil_state, set_register_value (enforced on the real
 * functions in leaf.c). */
#include "modbus_slave_PDU.h"
#include "modbus_slave_data.h"
#include "ghost.h"
#include "contracts.h"

#ifndef FC
#error FC
#endif
uint8_t g_req[256], g_resp[256];
modbus_msg_t g_msg;
uint8_t g_fc;
uint16_t g_A, g_Q, g_k, g_n;
int g_VK, g_err, g_any_write, g_wr, g_wv, g_bad;

static const int NCOIL = MAIN_APP_COILS_QTY, NDIN = MAIN_APP_DISCRET_INPUTS_QTY, NHREG = MAIN_APP_HOLDING_REG_QTY, NIREG = MAIN_APP_INPUT_REG_QTY;

#define IS_READ (FC >= 1 && FC <= 4)
#define IS_BITS (FC == 1 || FC == 2 || FC == 5 || FC == 15)
#define SINGLE (FC == 5 || FC == 6)
#if FC == 5 || FC == 15
#define PW 6
#else
#define PW 7
#endif
#define MINE(tab) ((void *)(tab) == (FC == 2 ? (void *)Slave_Discrete_Inputs : FC == 4 ? (void *)Slave_Input_Registers : IS_BITS ? (void *)Slave_Coils : (void *)Slave_Holding_Registers))
static int N(void) { return FC == 2 ? NDIN : FC == 4 ? NIREG : IS_BITS ? NCOIL : NHREG; }

static int get_stub(void *tab, modbus_adr_t adr, int max)
{
    uint16_t o = adr - g_A;
    int r;
    if (MINE(tab) && o == g_k)
        r = g_VK;
    else
    {
        int x;
        __CPROVER_assume(x >= -1 && x <= max);
        r = x;
    }
    if (!MINE(tab) || o >= g_Q)
        g_bad = 1;
    else if (r == -1)
        g_err = 1;
    g_n++;
    return r;
}
static int set_stub(void *tab, modbus_adr_t adr, int val)
{
    uint16_t o = adr - g_A;
    _Bool reg;
    g_any_write = 1;
    if (!MINE(tab) || o >= g_Q)
        g_bad = 1;
    if (MINE(tab) && o == g_k)
    {
        reg = g_VK != -1;
        if (reg)
        {
            g_wr++;
            g_wv = val;
        }
    }
    g_n++;
    if (!reg)
    {
        g_err = 1;
        return RET_ERROR;
    }
    return RET_OK;
}
#define BITTAB(t, a) (((t) == Slave_Coils && (a) < NCOIL) || ((t) == Slave_Discrete_Inputs && (a) < NDIN))
#define REGTAB(t, a) (((t) == Slave_Holding_Registers && (a) < NHREG) || ((t) == Slave_Input_Registers && (a) < NIREG))
modbus_ret_t stub_get_coil_din_state(modbus_coil_disin_t **tab, modbus_adr_t adr)
{
#if FC == 1 || FC == 2
    USES("get_coil_din_state");
#endif
    A(9, BITTAB(tab, adr), "get_coil_din_state is only called for an address inside the coil or input table");
    return get_stub(tab, adr, 1);
}
modbus_ret_t stub_get_register_state(modbus_reg_t **tab, modbus_adr_t adr)
{
#if FC == 3 || FC == 4
    USES("get_register_state");
#endif
    A(9, REGTAB(tab, adr), "get_register_state is only called for an address inside the register table");
    return get_stub(tab, adr, 0xFFFF);
}
modbus_ret_t stub_set_coil_state(modbus_coil_disin_t **tab, modbus_adr_t adr, modbus_coil_disin_t v)
{
#if FC == 5 || FC == 15
    USES("set_coil_state");
#endif
    A(9, BITTAB(tab, adr), "set_coil_state is only called for an address inside the coil table");
    return set_stub(tab, adr, v ? 1 : 0);
}
modbus_ret_t stub_set_register_value(modbus_reg_t **tab, modbus_adr_t adr, modbus_reg_t v)
{
#if FC == 6 || FC == 16
    USES("set_register_value");
#endif
    A(9, REGTAB(tab, adr), "set_register_value is only called for an address inside the register table");
    return set_stub(tab, adr, v);
}

void harness(void)
{
    g_n = 0, g_err = 0, g_any_write = 0, g_wr = 0, g_wv = 0, g_bad = 0;
    __CPROVER_havoc_object(g_req);
    __CPROVER_havoc_object(g_resp);
    if (FC)
        g_req[1] = FC;
    else
        __CPROVER_assume(!spec_known_fc(g_req[1]));
    uint8_t req_len, resp_len;
    g_msg.req.data = g_req;
    g_msg.req.len = req_len;
    g_msg.resp.data = g_resp;
    g_msg.resp.len = resp_len;
    g_fc = g_req[1];
    g_A = spec_u16(g_req + 2);
    g_Q = SINGLE ? 1 : spec_u16(g_req + 4);
    uint16_t k;
    int v;
    uint8_t w0;
    __CPROVER_assume(v >= -1 && v <= (IS_BITS ? 1 : 0xFFFF));
    g_k = k;
    g_VK = v;
#ifdef QMAX
    __CPROVER_assume(g_Q <= QMAX || g_Q > 2000);
#endif
#ifdef QFIX
    g_req[4] = QFIX >> 8;
    g_req[5] = QFIX & 255;
    g_Q = QFIX;
#endif
    unsigned exc = spec_exc(g_req, N());

    parse_master_request_and_prepare_resp(&g_msg);

    int len = g_msg.resp.len;
#if FC
    struct c_effect e_ = {g_err, g_any_write, g_bad, g_VK, g_wr, g_wv};
    A(23, c_response(FC, g_req, g_resp, len, N(), g_k, &e_), "contract of the slave, as used in the composition");
#endif
    int k_in = g_k < g_Q;
    A(9, g_msg.req.data == g_req && g_msg.resp.data == g_resp, "message buffers stay in place");
    A(9, len >= 3 && len <= 253, "response is at least an exception and leaves room for the CRC");
    if (exc)
    {
        A(8, len == 3 && g_resp[1] == (g_fc | 0x80), "an invalid request is answered with an exception response");
        A(8, g_resp[2] < 32 && ((exc >> g_resp[2]) & 1), "the exception code names what is wrong with the request");
        A(8, !g_any_write, "a request answered with exception 01, 02 or 03 changes no object");
        REACH("exception 01/02/03");
    }
#if FC
    else if (g_err)
    {
        A(8, len == 3 && g_resp[1] == (FC | 0x80) && g_resp[2] == 4, "exception 04 when an addressed object is not registered");
        REACH("exception 04");
    }
    else
    {
        A(8, g_resp[1] == FC, "no exception for a valid request whose objects are registered");
#if IS_READ
        if (k_in)
            A(8, g_VK != -1, "a read that includes an object that is not registered is not answered with data");
#else
        if (k_in)
            A(8, g_VK != -1, "a write that includes an object that is not registered is not confirmed");
#endif
#if FC == 1 || FC == 2
        A(4, g_resp[1] == FC && g_resp[2] == spec_bytes(g_Q) && len == 3 + spec_bytes(g_Q), "function code, byte count and length of the response");
        if (k_in)
            A(4, spec_bit(g_resp + 3, g_k) == g_VK, "every bit is the state of its object");
        else if (g_k < 8 * spec_bytes(g_Q))
            A(4, spec_bit(g_resp + 3, g_k) == 0, "unused bits of the last byte are 0");
        A(4, !g_any_write, "a read writes nothing");
#elif FC == 3 || FC == 4
        A(5, g_resp[1] == FC && g_resp[2] == 2 * g_Q && len == 3 + 2 * g_Q, "function code, byte count and length of the response");
        if (k_in)
            A(5, spec_u16(g_resp + 3 + 2 * g_k) == g_VK, "every register value is sent, high byte first, at its place");
        A(5, !g_any_write, "a read writes nothing");
#elif FC == 5 || FC == 6
        A(PW, len == 6 && g_resp[1] == FC && g_resp[2] == g_req[2] && g_resp[3] == g_req[3] && g_resp[4] == g_req[4] && g_resp[5] == g_req[5],
          "the response echoes the request");
        if (g_k == 0)
            A(PW, g_wr >= 1 && g_wv == (FC == 5 ? g_req[4] == 0xFF : spec_u16(g_req + 4)), "the addressed object has the written value");
        A(PW, !g_bad, "no other object is accessed");
#else
        A(PW, len == 6 && g_resp[1] == FC && g_resp[2] == g_req[2] && g_resp[3] == g_req[3] && g_resp[4] == g_req[4] && g_resp[5] == g_req[5],
          "the response echoes address and quantity");
        if (k_in)
            A(PW, g_wr >= 1 && g_wv == (FC == 15 ? spec_bit(g_req + 7, g_k) : spec_u16(g_req + 7 + 2 * g_k)),
              "every addressed object has the value at its place in the request");
        A(PW, !g_bad, "no other object is accessed");
#endif
        REACH("normal response");
    }
    if (!exc && k_in && g_wr)
    {
#if FC == 5
        A(6, g_wv == (g_req[4] == 0xFF), "an object is only ever set to the requested value");
#elif FC == 6
        A(7, g_wv == spec_u16(g_req + 4), "an object is only ever set to the requested value");
#elif FC == 15
        A(6, g_wv == spec_bit(g_req + 7, g_k), "an object is only ever set to the requested value");
#elif FC == 16
        A(7, g_wv == spec_u16(g_req + 7 + 2 * g_k), "an object is only ever set to the requested value");
#endif
    }
#if !IS_READ
    if (exc == 0)
        A(PW, !g_bad, "objects outside the addressed ones are not written");
#endif
#endif
}
