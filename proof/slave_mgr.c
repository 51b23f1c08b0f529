/* Contracts of the slave's manager (real code: modbus_slave.c, modbus_slave_RTU.c, check_master_request_len): representation
 * invariant INV, established by modbus_slave_init and preserved by every poll and every driver event, from an arbitrary
 * state.  Callee contracts used: modbus_RTU_recv, modbus_RTU_send (crc.c), parse_master_request_and_prepare_resp (slave_pdu.c).
 * OP: 0 init, 1 poll, 2 driver event, 3 never stuck, 4 one good frame under every placement of polls */
#include "modbus_slave.h"
#include "modbus_slave_PDU.h"
#include "modbus_slave_RTU.h"
#include "modbus_RTU.h"
#include "modbus_driver_interface.h"
#include "ghost.h"

extern modbus_device_ID_t modbus_slave_ID;
extern modbus_slave_state_t slave_manager_state_machine;
extern const modbus_RTU_driver_struct_t *slave_RTU_driver;
extern modbus_msg_t slave_msg;
extern modbus_msg_t *slave_msg_ptr;
extern modbus_status_flag_t TIMER_1_5_CHAR_FLAG, TIMER_3_5_CHAR_FLAG, FRAME_ERROR_FLAG, RESP_TRANSMITION_FLAG;

static driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
static modbus_req_resp_t *rx;
static int n_send, n_parse, pend, inits, tx_in_send;
static modbus_buf_t *sent;
static int sent_len;
static modbus_ret_t recv_result; /* what modbus_RTU_recv says about the frame in the buffer */
static int good;                 /* the frame in the buffer is intact, for this slave, and as long as it should be */
static int fresh35;              /* the last T3.5 event came after the last T1.5 event: it ends the frame in the buffer */
static uint8_t k, old_k;
static void d_init(baud_t b, parity_t p) { inits++; }
static void d_send(modbus_buf_t *b, modbus_buf_size_t n)
{
    n_send++;
    sent = b;
    sent_len = n;
    pend = 1;
    if (tx_in_send && cbtx)
    {
        pend = 0;
        cbtx();
    }
}
static void d_rcv(modbus_req_resp_t *r) { rx = r; }
static void d_dis(void) {}
static void s15(driver_subscr_cb_t c) { cb15 = c; }
static void stx(driver_subscr_cb_t c) { cbtx = c; }
static void s35(driver_subscr_cb_t c) { cb35 = c; }
static void sfe(driver_subscr_cb_t c) { cbfe = c; }
static const modbus_RTU_driver_struct_t D = {d_init, d_send, d_rcv, d_dis, s15, stx, s35, sfe};
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &D; }
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &D; }

static uint8_t id;
static int rtu_sent_len;
modbus_ret_t stub_modbus_RTU_recv(modbus_buf_t *buf, modbus_buf_size_t len, modbus_device_ID_t i)
{
#if OP == 1
    USES("modbus_RTU_recv");
#endif
    A(10, buf == slave_RTU_req_buf && len == slave_msg.req.len && i == id, "the whole received frame is checked against the own address");
    A(11, buf == slave_RTU_req_buf && len == slave_msg.req.len && i == id, "the whole received frame is checked against the own address");
    if (len == 0)
    {
        good = 0; /* nothing received: not a frame (contract of modbus_RTU_recv) */
        return RET_ERROR_CRC;
    }
    return recv_result;
}
modbus_ret_t stub_modbus_RTU_send(modbus_buf_t *buf, modbus_buf_size_t *len, modbus_device_ID_t i)
{
#if OP == 1
    USES("modbus_RTU_send");
#endif
    A(2, buf == slave_RTU_resp_buf && i == id && n_parse >= 1, "the prepared response is framed with the own address");
    if (*len > 253)
        return RET_ERROR;
    *len += 2;
    rtu_sent_len = *len;
    return RET_OK;
}
modbus_ret_t stub_parse_master_request_and_prepare_resp(modbus_msg_t *m)
{
#if OP == 1
    USES("parse_master_request_and_prepare_resp");
#endif
    uint8_t n;
    modbus_ret_t r;
    n_parse++;
    A(9, m == &slave_msg && m->req.data == slave_RTU_req_buf && m->resp.data == slave_RTU_resp_buf, "the message with both buffers is handed on");
    A(10, m->req.data == slave_RTU_req_buf && good, "only an intact request for this slave is executed");
    A(3, m->req.data == slave_RTU_req_buf && good, "only an intact request for this slave is executed");
    A(10, fresh35, "a request is executed only after the silence that ends it");
    A(11, fresh35, "a request is executed only after the silence that ends it");
    __CPROVER_assume(n >= 3 && n <= 253);
    m->resp.len = n;
    __CPROVER_havoc_object(slave_RTU_resp_buf);
    return r;
}
#define BIN(f) ((f) == MODBUS_FLAG_CLEARED || (f) == MODBUS_FLAG_SET)
/* what the driver still owes for the bytes received so far: due15 = T1.5 (and after it T3.5), due35 = T3.5 */
static int due15, due35;
/* no lost wake-up: whatever the manager waits for is recorded or still to come */
static int awake(void)
{
    int s = slave_manager_state_machine, t15 = TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET, t35 = TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET, fe = FRAME_ERROR_FLAG == MODBUS_FLAG_SET;
    return !(s == MODBUS_SLAVE_MSG_RECIVED && !t35 && !due35 && !due15) && !(s == MODBUS_SLAVE_IDLE && t15 && !t35 && !due35 && !due15) &&
           !(s == MODBUS_SLAVE_IDLE && slave_msg.req.len != 0 && !t15 && !due15) && !(s == MODBUS_SLAVE_IDLE && fe && !t15 && !due15);
}
static int inv(void)
{
    int s = slave_manager_state_machine;
    return (s == MODBUS_SLAVE_IDLE || s == MODBUS_SLAVE_MSG_RECIVED || s == MODBUS_SLAVE_TRANSMITTING_RESP) && BIN(TIMER_1_5_CHAR_FLAG) &&
           BIN(TIMER_3_5_CHAR_FLAG) && BIN(FRAME_ERROR_FLAG) && BIN(RESP_TRANSMITION_FLAG) && modbus_slave_ID == id && slave_msg_ptr == &slave_msg &&
           slave_RTU_driver == &D && slave_msg.req.data == slave_RTU_req_buf && slave_msg.resp.data == slave_RTU_resp_buf && rx == &slave_msg.req &&
           !(s == MODBUS_SLAVE_MSG_RECIVED && FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED && !good) &&
           !(s == MODBUS_SLAVE_TRANSMITTING_RESP && (pend ? MODBUS_FLAG_SET : MODBUS_FLAG_CLEARED) != RESP_TRANSMITION_FLAG) &&
           !(pend && s != MODBUS_SLAVE_TRANSMITTING_RESP) && !(TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET && !fresh35);
}
static void frame(void) /* an arbitrary frame in the buffer */
{
    uint8_t n, w;
    modbus_ret_t v;
    __CPROVER_havoc_object(slave_RTU_req_buf);
    slave_msg.req.len = n;
    __CPROVER_assume(v == RET_OK || v == RET_ERROR_SLAVE_ID || v == RET_ERROR_CRC);
    __CPROVER_assume(v != RET_OK || n >= 2);
    recv_result = v;
    int want = spec_req_len(slave_RTU_req_buf);
    good = v == RET_OK && n >= 4 && (want == 0 || n - 2 == want);
    k = w;
    old_k = slave_RTU_req_buf[k];
}
static void state(void) /* an arbitrary state of the manager */
{
    modbus_slave_state_t s;
    modbus_status_flag_t a, b, c, d;
    int p, fr, d15, d35;
    uint8_t n;
    driver_subscr_cb_t c15 = cb15, c35 = cb35, ctx = cbtx, cfe = cbfe;
    int ts = tx_in_send;
    uint8_t i = id;
    HAVOC_STATICS();
    cb15 = c15;
    cb35 = c35;
    cbtx = ctx;
    cbfe = cfe;
    tx_in_send = ts;
    id = i;
    n_send = n_parse = inits = sent_len = rtu_sent_len = 0;
    sent = 0;
    rx = &slave_msg.req;
    modbus_slave_ID = id;
    slave_RTU_driver = &D;
    slave_msg_ptr = &slave_msg;
    slave_msg.req.data = slave_RTU_req_buf;
    slave_msg.resp.data = slave_RTU_resp_buf;
    slave_manager_state_machine = s;
    TIMER_1_5_CHAR_FLAG = a;
    TIMER_3_5_CHAR_FLAG = b;
    FRAME_ERROR_FLAG = c;
    RESP_TRANSMITION_FLAG = d;
    pend = p & 1;
    fresh35 = fr & 1;
    due15 = d15 & 1;
    due35 = d35 & 1;
    slave_msg.resp.len = n;
}
static void e15(void)
{
    fresh35 = 0;
    due15 = 0;
    due35 = 1;
    cb15();
}
static void e35(void)
{
    fresh35 = 1;
    due35 = 0;
    cb35();
}
#define S slave_manager_state_machine
#define NB(v) uint8_t v##_; int v = v##_ & 1
static void polls(void) { NB(a); NB(b); if (a) check_modbus_request(); if (b) check_modbus_request(); }

void harness(void)
{
    uint8_t i;
    baud_t baud;
    NB(t);
    HAVOC_STATICS(); /* init is the first call or comes in any state of a running slave */
    id = i;
    n_send = n_parse = pend = inits = good = sent_len = rtu_sent_len = fresh35 = 0;
    sent = 0;
    cb15 = cb35 = cbtx = cbfe = 0;
    rx = 0;
    tx_in_send = t;
    modbus_slave_init(RTU, baud, NONE, id);
    A(11, inits == 1 && cb15 && cb35 && cbtx && cbfe && rx == &slave_msg.req, "init starts the driver, subscribes to its four events and hands over the request buffer");
    A(11, inv() && S == MODBUS_SLAVE_IDLE && FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED && TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_CLEARED, "invariant after init");
    A(11, slave_msg.req.len == 0, "after init no byte of an earlier frame is left");
    due15 = due35 = 0;
    A(11, awake(), "nothing is waited for after init");
    A(10, inv(), "invariant after init");
    A(9, inv(), "invariant after init");
    A(10, n_send == 0 && n_parse == 0, "nothing is sent or executed during init");
#if OP == 0
    REACH("init");
#else
    state();
    frame();
    __CPROVER_assume(inv());
#if PROP == 11
    __CPROVER_assume(awake());
#endif
    int s = S, t15 = TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET, t35 = TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET, fe = FRAME_ERROR_FLAG == MODBUS_FLAG_SET;
    int tx = RESP_TRANSMITION_FLAG == MODBUS_FLAG_SET;
    int len = slave_msg.req.len, rlen = slave_msg.resp.len;
#endif
#if OP == 1
    check_modbus_request();
    A(9, inv(), "invariant after a poll");
    A(10, inv(), "invariant after a poll");
    A(11, inv(), "invariant after a poll");
    A(11, awake(), "whatever the slave waits for after a poll is recorded or still to come");
    A(9, slave_RTU_req_buf[k] == old_k, "the manager does not write the request buffer");
    if (s == MODBUS_SLAVE_MSG_RECIVED && t35 && !fe)
    {
        A(11, n_parse == 1 && n_send == 1 && S == MODBUS_SLAVE_TRANSMITTING_RESP, "a received request is executed once and answered once");
        A(11, sent == slave_RTU_resp_buf && sent_len == slave_msg.resp.len, "the answer is the prepared response");
        A(2, n_send == 1 && sent == slave_RTU_resp_buf && sent_len == rtu_sent_len && sent_len >= 5, "the frame that is sent has got its address and CRC");
        REACH("answer");
    }
    else
    {
        A(10, n_parse == 0 && n_send == 0, "nothing is executed or sent without an intact request");
        A(11, n_parse == 0 && n_send == 0, "no second answer");
    }
    if (s == MODBUS_SLAVE_MSG_RECIVED && t35 && fe)
    {
        A(11, S == MODBUS_SLAVE_IDLE && slave_msg.req.len == 0 && FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED, "after a discarded frame the slave is ready for the next one");
        REACH("discard");
    }
    if (s == MODBUS_SLAVE_IDLE && t15)
    {
        A(11, S == MODBUS_SLAVE_MSG_RECIVED && TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_CLEARED && slave_msg.req.len == len, "end of a frame is noticed");
        A(11, !(good && !fe) || FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED, "an intact request is not discarded");
        A(11, (TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET) == t35, "the end of frame time is not forgotten");
        REACH("frame");
    }
    if (s == MODBUS_SLAVE_TRANSMITTING_RESP && !tx)
    {
        A(11, S == MODBUS_SLAVE_IDLE && slave_msg.req.len == 0, "after the answer the slave is ready for the next request");
        REACH("answer sent");
    }
    if ((s == MODBUS_SLAVE_IDLE && !t15) || (s == MODBUS_SLAVE_MSG_RECIVED && !t35) || (s == MODBUS_SLAVE_TRANSMITTING_RESP && tx))
    {
        A(11, S == s && (TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET) == t15 && (TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET) == t35 && (FRAME_ERROR_FLAG == MODBUS_FLAG_SET) == fe &&
                  (RESP_TRANSMITION_FLAG == MODBUS_FLAG_SET) == tx && slave_msg.req.len == len && slave_msg.resp.len == rlen, "a poll without an event changes nothing");
        REACH("nothing to do");
    }
#elif OP == 2
    uint8_t e;
    e &= 3;
    __CPROVER_assume(e != 2 || due15); /* a framing error belongs to bytes */
    if (e == 0)
        e15();
    else if (e == 1)
        e35();
    else if (e == 2)
        cbfe();
    else
    {
        pend = 0;
        cbtx();
    }
    A(9, inv(), "invariant after a driver event");
    A(10, inv(), "invariant after a driver event");
    A(11, inv(), "invariant after a driver event");
    A(11, awake(), "whatever the slave waits for after an event is recorded or still to come");
    A(10, n_parse == 0 && n_send == 0, "an event sends and executes nothing");
    A(11, n_parse == 0 && n_send == 0 && S == s && slave_msg.req.len == len && slave_msg.resp.len == rlen, "an event only records that it happened");
    A(11, (TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_SET) == (t15 || e == 0) && (TIMER_3_5_CHAR_FLAG == MODBUS_FLAG_SET) == ((t35 && e != 0) || e == 1) &&
              (FRAME_ERROR_FLAG == MODBUS_FLAG_SET) == (fe || e == 2) && (RESP_TRANSMITION_FLAG == MODBUS_FLAG_SET) == (tx && e != 3), "every event is recorded, a new frame needs a silence of its own");
    REACH("event");
#elif OP == 3
    /* whatever happened so far: the bus gets quiet (only what the driver still owes is reported), transmissions end, the application keeps polling */
#define SENT() if (pend) { pend = 0; cbtx(); }
    NB(early);
    if (early)
        SENT();
    polls();
    if (due15)
        e15();
    polls();
    if (due35)
        e35();
    polls();
    for (int round = 0; round < 4; round++)
    {
        check_modbus_request();
        SENT();
    }
    check_modbus_request();
    A(11, S == MODBUS_SLAVE_IDLE && slave_msg.req.len == 0 && FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED && TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_CLEARED,
      "whatever happened, the slave listens again");
    /* and then serves the next good request */
    int before = n_send, parsed = n_parse;
    frame();
    __CPROVER_assume(good && recv_result == RET_OK);
    e15();
    check_modbus_request();
    e35();
    check_modbus_request();
    A(11, n_send == before + 1 && n_parse == parsed + 1, "and serves the next intact request");
    REACH("listens");
#elif OP == 4
    __CPROVER_assume(S == MODBUS_SLAVE_IDLE && FRAME_ERROR_FLAG == MODBUS_FLAG_CLEARED && TIMER_1_5_CHAR_FLAG == MODBUS_FLAG_CLEARED && good);
    polls();
    e15();
    polls();
    e35();
    polls();
    check_modbus_request();
    check_modbus_request();
    A(11, n_parse == 1 && n_send == 1, "an intact request is executed once and answered once");
    A(11, pend == 0 || S == MODBUS_SLAVE_TRANSMITTING_RESP, "the slave waits for the end of the transmission");
    REACH("answered");
#endif
}
