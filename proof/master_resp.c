/* Contract of modbus_master_read_slave_resp (real code: modbus_master_PDU.c, modbus_PDU_common.c, buf_rw.c) for a request of
 * function code FC and an arbitrary response.  Precondition, discharged where it is called (master_mgr.c, master_req.c): the request is
 * one of the eight with a quantity within the protocol's limits, the response's first byte is the address of the asked slave */
#include "modbus_master_PDU.h"
#include "modbus_master_data_interface.h"
#include "ghost.h"
#include "contracts.h"
#define SINGLE (FC == 5 || FC == 6)
#define IS_READ (FC >= 1 && FC <= 4)
#define IS_BITS (FC == 1 || FC == 2)
#define IS_COIL (FC == 1 || FC == 5 || FC == 15)

uint8_t g_req[256], g_resp[256];
modbus_msg_t g_msg;
uint16_t g_A, g_Q, g_k, g_n, g_hit;
int g_hv, g_bad;
static int n_conf, n_exc, conf_bad, n_rep;
static modbus_read_data_t ex;
static int ex_kind;

static void read_cb(int fc, modbus_device_ID_t s, modbus_adr_t a, int v)
{
    uint16_t o = a - g_A;
    if (fc != FC || s != g_req[0] || o >= g_Q)
        g_bad = 1;
    if (o == g_k)
    {
        g_hit++;
        g_hv = v;
    }
    g_n++;
}
static void write_cb(int coil, modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q)
{
    n_conf++;
    if (coil != IS_COIL || IS_READ || s != g_req[0] || a != g_A || q != g_Q)
        conf_bad = 1;
}
static void exc_cb(int kind, const modbus_read_data_t *e)
{
    n_exc++;
    ex = *e;
    ex_kind = kind;
}
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { read_cb(1, s, a, v ? 1 : 0); }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { read_cb(2, s, a, v ? 1 : 0); }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { read_cb(3, s, a, v); }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { read_cb(4, s, a, v); }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { write_cb(1, s, a, q); }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { write_cb(0, s, a, q); }
void modbus_master_coil_exception(const modbus_read_data_t *e) { exc_cb(1, e); }
void modbus_master_disin_exception(const modbus_read_data_t *e) { exc_cb(2, e); }
void modbus_master_hreg_exception(const modbus_read_data_t *e) { exc_cb(3, e); }
void modbus_master_inreg_exception(const modbus_read_data_t *e) { exc_cb(4, e); }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { n_rep++; }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { n_rep++; }

void harness(void)
{
    HAVOC_STATICS();
    g_n = 0, g_hit = 0, g_hv = -1, g_bad = 0, n_conf = 0, n_exc = 0, conf_bad = 0, n_rep = 0;
    __CPROVER_havoc_object(g_req);
    __CPROVER_havoc_object(g_resp);
    uint8_t req_len, resp_len;
    uint16_t k, w;
    g_req[1] = FC;
    g_resp[0] = g_req[0];
    g_msg.req.data = g_req;
    g_msg.req.len = req_len;
    g_msg.resp.data = g_resp;
    g_msg.resp.len = resp_len;
    g_A = spec_u16(g_req + 2);
    g_Q = SINGLE ? 1 : spec_u16(g_req + 4);
    g_k = k;
    __CPROVER_assume(w < 256);
    __CPROVER_assume(g_Q >= 1 && g_Q <= spec_max_qty(FC));
#ifdef QMAX
    __CPROVER_assume(g_Q <= QMAX);
#endif
#ifdef QFIX
    __CPROVER_assume(g_Q == QFIX);
#endif
    uint8_t old_q = g_req[w], old_r = g_resp[w];
    int bytes = IS_BITS ? spec_bytes(g_Q) : 2 * g_Q;
    int echo = g_resp[2] == g_req[2] && g_resp[3] == g_req[3] && g_resp[4] == g_req[4] && g_resp[5] == g_req[5];
    int is_exc = g_resp[1] == (FC | 0x80) && resp_len == 3;
    int is_normal = g_resp[1] == FC && (IS_READ ? g_resp[2] == bytes && resp_len == 3 + bytes : resp_len == 6 && echo);
    int code = g_resp[2];

    modbus_ret_t r = modbus_master_read_slave_resp(&g_msg);

    int exc_bad = n_exc && (ex_kind != (IS_COIL ? 1 : FC == 2 ? 2 : FC == 4 ? 4 : 3) || ex.slave_ID != g_req[0] || ex.fun_conde != FC || ex.data_adr != g_A || ex.data_qty != g_Q);
    struct c_result r_ = {r == RET_OK, g_n, g_hit, g_hv, g_bad, n_conf, conf_bad, n_exc, exc_bad, ex.exception_code};
    A(23, c_outcome(FC, g_req, g_resp, resp_len, g_k, &r_), "contract of the response processing, as used in the composition");
    A(22, g_msg.req.data == g_req && g_msg.resp.data == g_resp, "message buffers stay in place");
    A(19, g_req[w] == old_q && g_msg.req.len == req_len, "a request is not changed by its response");
    A(16, n_rep == 0, "a response is not reported as a communication error");
    A(17, n_rep == 0, "a response is not reported as a communication error");
    A(18, (r == RET_OK) == (is_exc || is_normal), "a response is accepted exactly if it answers the request");
    if (is_normal && IS_READ)
    {
        A(16, r == RET_OK && n_conf == 0 && n_exc == 0, "a read is answered with data and nothing else");
        A(16, g_n == g_Q && !g_bad, "as many values as requested, of the requested kind, slave and addresses");
        if (g_k < g_Q)
            A(16, g_hit == 1 && g_hv == (IS_BITS ? spec_bit(g_resp + 3, g_k) : spec_u16(g_resp + 3 + 2 * g_k)), "every requested object is delivered once, with its value");
        else
            A(16, g_hit == 0, "no other object is delivered");
#if IS_READ
        REACH("read data");
#endif
    }
    else if (is_normal)
    {
        A(17, r == RET_OK && n_conf == 1 && !conf_bad && n_exc == 0 && g_n == 0, "a write is confirmed once, with slave, address and quantity");
#if !IS_READ
        REACH("write confirmed");
#endif
    }
    else if (is_exc)
    {
        A(17, r == RET_OK && n_exc == 1 && n_conf == 0 && g_n == 0, "an exception response is reported once and is no result");
        A(17, n_exc == 1 && ex_kind == (IS_COIL ? 1 : FC == 2 ? 2 : FC == 4 ? 4 : 3), "the exception is reported for the kind of object of the request");
        A(17, n_exc == 1 && ex.slave_ID == g_req[0] && ex.fun_conde == FC && ex.exception_code == code && ex.data_adr == g_A && ex.data_qty == g_Q,
          "the exception report names slave, function, code, address and quantity");
        REACH("exception");
    }
    else
    {
        A(18, n_exc == 0 && n_conf == 0 && g_n == 0, "nothing is delivered, confirmed or reported from a response that does not answer the request");
        REACH("no answer");
    }
#if !IS_READ
    A(16, g_n == 0, "a write delivers no data");
#endif
    REACH("end");
}
