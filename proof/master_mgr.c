/* Contracts of the master's manager (real code: modbus_master.c, modbus_queue.c, modbus_master_get_req_data_qty, buf_rw.c), from an
 * arbitrary state that satisfies the invariant of master_state.h.  Callee contracts used: modbus_RTU_recv (crc.c) and
 * modbus_master_read_slave_resp (master_resp.c).
 * OP: 0 init, 1 poll, 2 driver event, 3 timer tick, 4 always an outcome, 5 timeout after a second without an answer,
 * 6 poll in which the application makes new requests from inside its callbacks */
#include "master_state.h"

static int n_tmo, n_comm, n_recv, n_read, n_done; /* reports, callee calls, results delivered by modbus_master_read_slave_resp */
static modbus_ret_t recv_result;
static modbus_master_error_report_t rep;
static modbus_msg_t *cur;
static int n_made;  /* requests made from inside callbacks */
static view_t made_f, made_t;
static void app(void)
{
#if OP == 6
    A(15, places() && buffers(), "a callback finds every message in exactly one place");
    A(21, places() && buffers(), "a callback finds every message in exactly one place");
    /* any number of request calls: each accepted one (contract in master_req.c) takes the first free message and puts it
     * behind the waiting ones */
    view_t f = view(free_q), t = view(tx_rx_q);
    any_queue(free_q);
    any_queue(tx_rx_q);
    __CPROVER_assume(places());
    made_f = view(free_q);
    made_t = view(tx_rx_q);
    n_made = f.n - made_f.n;
    __CPROVER_assume(n_made >= 0);
    for (int i = 0; i < QN; i++)
    {
        __CPROVER_assume(i >= made_f.n || made_f.at[i] == f.at[(i + n_made) % QN]);
        __CPROVER_assume(i >= made_t.n || made_t.at[i] == (i < t.n ? t.at[i] : f.at[i - t.n]));
    }
    for (int i = 0; i < QN; i++)
    {
        uint8_t n;
        if (index_in(made_t, i) && !index_in(t, i))
        {
            modbus_msg[i].req.len = n;
            for (int j = 0; j < 6; j++)
            {
                uint8_t b;
                master_RTU_req_buf[i][j] = b;
            }
            __CPROVER_assume(good_req(&modbus_msg[i]));
        }
    }
#endif
}
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e)
{
    n_tmo++;
    rep = *e;
    app();
}
void modbus_master_communication_error(const modbus_master_error_report_t *e)
{
    n_comm++;
    rep = *e;
    app();
}
#define OUTCOMES (n_tmo + n_comm + n_done)

modbus_ret_t stub_modbus_RTU_recv(modbus_buf_t *buf, modbus_buf_size_t len, modbus_device_ID_t i)
{
#if OP == 1
    USES("modbus_RTU_recv");
#endif
    n_recv++;
    A(18, cur && buf == cur->resp.data && len == cur->resp.len && i == cur->req.data[0], "the whole response is checked against the address of the asked slave");
    A(21, cur && buf == cur->resp.data && len == cur->resp.len && i == cur->req.data[0], "the whole response is checked against the address of the asked slave");
    A(20, cur && buf == cur->resp.data && len == cur->resp.len && i == cur->req.data[0], "the whole response is checked against the address of the asked slave");
    good = recv_result == RET_OK;
    __CPROVER_assume(!(good && len < 2)); /* contract of modbus_RTU_recv */
    return recv_result;
}
static int read_len;
modbus_ret_t stub_modbus_master_read_slave_resp(modbus_msg_t *m)
{
#if OP == 1
    USES("modbus_master_read_slave_resp");
#endif
    int ok;
    n_read++;
    A(18, m == cur && good && FFE == CLEARED, "only an intact response of the asked slave, received without frame error, is used");
    A(18, fresh35, "a response is used only after the silence that ends it");
    A(16, m == cur && good && FFE == CLEARED, "the response is read together with its request");
    read_len = m->resp.len;
    REQUIRES(m == cur && good && good_req(m), "the response is read with a request of the library and comes from the asked slave");
    if (ok & 1)
    {
        n_done++;
        app();
        return RET_OK;
    }
    modbus_ret_t r;
    __CPROVER_assume(r != RET_OK);
    return r;
}
static int reported(void)
{
    const uint8_t *q = cur->req.data;
    int single = q[1] == 5 || q[1] == 6;
    return rep.slave_ID == q[0] && rep.fun_conde == q[1] && rep.data_adr == spec_u16(q + 2) && rep.data_qty == (single ? 1 : spec_u16(q + 4));
}
static int rank(void)
{
    int phase = S == MODBUS_MASTER_IDLE ? 4 : S == MODBUS_MASTER_REPEAT_REQUEST ? 3 : S == MODBUS_MASTER_TRANSMITTING_REQ ? 2 : S == MODBUS_MASTER_RESP_WAITING ? 1 : 0;
    return 10 * (3 - COUNT) + 2 * phase + (F15 == SET);
}
static void any_result(void)
{
    modbus_ret_t r;
    __CPROVER_assume(r == RET_OK || r == RET_ERROR_CRC || r == RET_ERROR_SLAVE_ID);
    recv_result = r;
}
static void tx_done(void)
{
    if (pend)
    {
        pend = 0;
        cbtx();
    }
}
static void e15(void)
{
    fresh35 = 0;
    cb15();
}
static void e35(void)
{
    fresh35 = 1;
    cb35();
}
void harness(void)
{
    start();
    n_tmo = n_comm = n_recv = n_read = n_done = 0;
    cur = 0;
    read_len = -1;
    n_made = 0;
    A(21, n_init == 1 && cb15 && cb35 && cbtx && cbfe && S == MODBUS_MASTER_IDLE, "init starts the driver and subscribes to its four events");
    A(15, minv() && view(free_q).n == QN && view(tx_rx_q).n == 0, "after init all messages are free, each once");
    A(21, minv(), "invariant after init");
    A(20, minv(), "invariant after init");
    A(19, minv(), "invariant after init");
    A(18, minv(), "invariant after init");
    A(16, minv(), "invariant after init");
    A(21, n_send == 0 && OUTCOMES == 0, "nothing is sent or reported during init");
#if OP == 0
    REACH("init");
#else
    any_state();
    n_tmo = n_comm = n_recv = n_read = n_done = 0;
    read_len = -1;
    any_result();
    n_send = n_rcv = 0;
    int s = S, t15 = F15 == SET, t35 = F35 == SET, fe = FFE == SET, tx = FTX == SET, crc = FCRC == SET, timer = TIMER, count = COUNT;
    view_t f = view(free_q), t = view(tx_rx_q);
    cur = s == MODBUS_MASTER_IDLE ? (t.n ? &modbus_msg[t.at[0]] : NULL) : msg_buf;
    int len = cur ? cur->resp.len : 0, rlen = cur ? cur->req.len : 0;
    uint8_t m_;
    __CPROVER_assume(m_ < QN);
    __CPROVER_assume(w < 256);
    uint8_t old = master_RTU_req_buf[m_][w], cold = cur ? cur->req.data[w] : 0, old_len = modbus_msg[m_].req.len, resp_old = cur ? cur->resp.data[w] : 0;
#endif
#ifdef ST
    __CPROVER_assume(s == ST);
#endif
#if OP == 1
    update_modbus_master_manager();
    view_t f2 = view(free_q), t2 = view(tx_rx_q);
    A(15, minv(), "invariant after a poll: every message is in exactly one place");
    A(16, minv(), "invariant after a poll");
    A(18, minv(), "invariant after a poll");
    A(19, minv(), "invariant after a poll");
    A(20, minv(), "invariant after a poll");
    A(21, minv(), "invariant after a poll");
    int ended = s != MODBUS_MASTER_IDLE && S == MODBUS_MASTER_IDLE;
    A(21, OUTCOMES == ended, "a request that ends is reported once, and only then");
    A(18, n_done == 0 || (s == MODBUS_MASTER_RESP_RECIVED && t35 && !fe && !crc && n_read == 1 && n_done == 1), "a result is delivered once, from a response received without error");
    A(15, s != MODBUS_MASTER_IDLE || t.n == 0 || S != MODBUS_MASTER_IDLE, "an idle master starts the next request");
    A(19, master_RTU_req_buf[m_][w] == old && modbus_msg[m_].req.len == old_len, "a request is not changed after it was queued");
    A(15, master_RTU_req_buf[m_][w] == old && modbus_msg[m_].req.len == old_len, "a request is not changed after it was queued");
    if (cur)
        A(16, cur->resp.data[w] == resp_old, "the manager does not change the received bytes");
    if (ended)
    {
        A(15, seq_eq(t2, t) && same_members(f2, push_view(f, index_of(cur))), "the message of a finished request is free again, the waiting ones keep their order");
        A(19, COUNT == 0, "the next request has all its attempts");
        REACH("ended");
    }
    else if (s == MODBUS_MASTER_IDLE && t.n)
    {
        A(15, seq_eq(t2, pop_view(t)) && seq_eq(f2, f) && msg_buf == cur, "the oldest waiting request is taken");
        A(15, n_send == 1 && sent == cur->req.data && sent_len == rlen, "and its frame is sent");
        A(21, n_send == 1 && S == MODBUS_MASTER_TRANSMITTING_REQ, "and its frame is sent");
        A(19, n_send == 1 && sent == cur->req.data && sent_len == rlen && COUNT == 0, "the first attempt sends the frame of the request");
        REACH("send");
    }
    else
    {
        A(15, seq_eq(t2, t) && seq_eq(f2, f), "queues change only when a request starts or ends");
    }
    if (n_send)
    {
        A(19, s == MODBUS_MASTER_IDLE || s == MODBUS_MASTER_REPEAT_REQUEST, "a request is sent when it starts and after a failed attempt only");
        A(19, n_send == 1 && sent == cur->req.data && sent_len == rlen && (w >= sent_len || sent_byte == cold), "every attempt sends the same frame");
        A(18, cur->resp.len == 0 && F15 == CLEARED && F35 == CLEARED && FFE == CLEARED && FCRC == CLEARED, "what came in before an attempt is dropped");
        A(21, rx == &cur->resp && n_rcv == 1, "the response buffer of the request is handed to the driver");
        A(22, rx == &cur->resp && rx->data == &master_RTU_resp_buf[index_of(cur)][0], "the driver gets the response buffer of the request");
        A(21, (FTX == SET) == pend && S == MODBUS_MASTER_TRANSMITTING_REQ, "the master waits for the end of the transmission");
        REACH("sent");
    }
    if (s == MODBUS_MASTER_REPEAT_REQUEST)
    {
        A(19, n_send == 1 && COUNT == count, "a failed attempt is repeated");
        A(21, n_send == 1, "a failed attempt is repeated");
        REACH("repeat");
    }
    if (s == MODBUS_MASTER_TRANSMITTING_REQ)
    {
        A(20, tx ? S == s && TIMER == timer : S == MODBUS_MASTER_RESP_WAITING && TIMER == 1000, "the response time starts when the request is sent");
        A(21, tx || S == MODBUS_MASTER_RESP_WAITING, "after the transmission the master waits for the response");
        A(21, (F15 == SET) == t15 && (F35 == SET) == t35 && (FFE == SET) == fe && cur->resp.len == len, "an early response is kept");
        A(16, (F15 == SET) == t15 && (F35 == SET) == t35 && (FFE == SET) == fe && cur->resp.len == len, "an early response is kept");
        A(21, n_recv + n_read == 0 && COUNT == count, "nothing else happens during the transmission");
        REACH("transmitting");
    }
    if (s == MODBUS_MASTER_RESP_WAITING)
    {
        if (t15)
        {
            A(21, n_recv == 1 && F15 == CLEARED, "a response is noticed");
            if (recv_result == RET_ERROR_SLAVE_ID)
            {
                A(20, S == s && TIMER == timer, "a response of another slave does not stop the response time");
                A(21, S == s && cur->resp.len == 0 && F35 == CLEARED, "a response of another slave is dropped");
                A(18, S == s && cur->resp.len == 0 && FCRC == CLEARED, "a response of another slave is dropped");
                REACH("foreign");
            }
            else
            {
                A(20, S == MODBUS_MASTER_RESP_RECIVED, "a response ends the wait");
                A(21, S == MODBUS_MASTER_RESP_RECIVED && (F35 == SET) == t35 && (FFE == SET) == fe && (FCRC == SET) == (recv_result == RET_ERROR_CRC), "a response ends the wait");
                A(16, recv_result != RET_OK || cur->resp.len == len - 2, "address and PDU of an intact response are kept");
                A(18, (FCRC == SET) == (recv_result == RET_ERROR_CRC), "a wrong CRC is remembered");
                REACH("response");
            }
        }
        else
        {
            A(20, n_tmo == (timer <= 1), "a timeout is reported if and only if the response time is over");
            A(20, timer <= 1 ? S == MODBUS_MASTER_IDLE : S == s && TIMER == timer && COUNT == count, "and ends the request");
            A(21, n_recv + n_read == 0, "no response is made up");
            REACH("no response");
        }
    }
    else
        A(20, n_tmo == 0, "a timeout is reported while waiting for a response only");
    if (n_tmo + n_comm)
    {
        A(20, n_tmo == 0 || (reported() && rep.resp_read_error == MODBUS_MASTER_RESP_TIMEOUT_ERR), "the timeout report describes the request");
        A(19, n_comm == 0 || (reported() && rep.resp_read_error == (fe || !crc ? MODBUS_MASTER_RESP_FRAME_ERR : MODBUS_MASTER_RESP_RTU_CRC_ERR)),
          "the error report describes the request and the error");
        REACH("report");
    }
    A(19, n_comm == 0 || (s == MODBUS_MASTER_RESP_RECIVED && count == 3), "an error is reported after the last attempt only");
    if (s == MODBUS_MASTER_RESP_RECIVED)
    {
        if (!t35)
        {
            A(21, S == s && OUTCOMES == 0 && cur->resp.len == len && (FFE == SET) == fe && (FCRC == SET) == crc && COUNT == count, "the end of the frame is awaited");
            REACH("wait end");
        }
        else
        {
            int bad = fe || crc || !n_done;
            A(21, S == MODBUS_MASTER_IDLE || S == MODBUS_MASTER_REPEAT_REQUEST, "a received response is processed");
            A(16, fe || crc || (n_read == 1 && read_len == len), "an intact response is read");
            A(19, !(bad && count < 3) || (S == MODBUS_MASTER_REPEAT_REQUEST && COUNT == count + 1 && OUTCOMES == 0), "a failed attempt is repeated up to three times");
            A(19, !(bad && count == 3) || n_comm == 1, "then the error is reported");
            REACH("processed");
        }
    }
#elif OP == 6
    n_made = 0;
    made_f = f;
    made_t = t;
    update_modbus_master_manager();
    view_t f2 = view(free_q), t2 = view(tx_rx_q), left = made_f;
    int ended = s != MODBUS_MASTER_IDLE && S == MODBUS_MASTER_IDLE;
    if (ended)
        left = push_view(left, index_of(cur));
    A(15, minv(), "invariant after a poll with requests from callbacks: every message is in exactly one place");
    A(15, seq_eq(t2, made_t) && same_members(f2, left), "requests made from callbacks wait behind the others");
    A(21, minv() && OUTCOMES == ended, "a request that ends is reported once, and only then, also when the callbacks make new requests");
    A(19, OUTCOMES == 0 || COUNT == 0, "the next request has all its attempts");
    A(19, n_comm + n_tmo == 0 || reported(), "the report describes the request that failed");
    A(20, n_tmo == 0 || (reported() && rep.resp_read_error == MODBUS_MASTER_RESP_TIMEOUT_ERR), "the timeout report describes the request");
    if (n_made == 4)
        REACH("four requests from callbacks");
    if (n_made && n_done)
        REACH("a request from a delivery");
    if (n_made && n_tmo)
        REACH("a request from the timeout report");
    if (n_made && n_comm)
        REACH("a request from the error report");
#elif OP == 2
    uint8_t e;
    e &= 3;
    __CPROVER_assume(e != 3 || pend);
    if (e == 0)
        e15();
    else if (e == 1)
        e35();
    else if (e == 2)
        cbfe();
    else
        tx_done();
    A(15, minv(), "invariant after a driver event");
    A(16, minv(), "invariant after a driver event");
    A(18, minv(), "invariant after a driver event");
    A(19, minv(), "invariant after a driver event");
    A(20, minv(), "invariant after a driver event");
    A(21, minv(), "invariant after a driver event");
    A(21, OUTCOMES == 0 && n_send == 0 && S == s && COUNT == count, "an event only records that it happened");
    A(20, TIMER == timer && S == s, "an event does not change the response time");
    A(15, seq_eq(view(free_q), f) && seq_eq(view(tx_rx_q), t), "an event does not touch the queues");
    A(21, (F15 == SET) == (t15 || e == 0) && (F35 == SET) == ((t35 && e != 0) || e == 1) && (FFE == SET) == (fe || e == 2) && (FTX == SET) == (tx && e != 3) && (FCRC == SET) == crc,
      "every event is recorded, a new frame needs a silence of its own");
    A(19, master_RTU_req_buf[m_][w] == old && modbus_msg[m_].req.len == old_len, "a request is not changed after it was queued");
    REACH("event");
#elif OP == 3
    update_modbus_master_timout_timer();
    A(20, TIMER == (timer ? timer - 1 : 0), "a tick counts the response time down to zero");
    A(20, minv() && S == s && (F15 == SET) == t15 && OUTCOMES == 0, "invariant after a tick");
    A(15, minv() && seq_eq(view(free_q), f) && seq_eq(view(tx_rx_q), t), "invariant after a tick");
    A(16, minv(), "invariant after a tick");
    A(18, minv(), "invariant after a tick");
    A(19, minv() && COUNT == count, "invariant after a tick");
    A(21, minv() && S == s && OUTCOMES == 0 && n_send == 0, "invariant after a tick");
    REACH("tick");
#elif OP == 4
    /* a request is queued or on its way and the slave stays silent; the rest of the world goes on: transmissions end, the last
     * byte is followed by both character times, the response time passes.  Then every poll either brings the outcome of the
     * request or lowers a rank that cannot fall below zero, so the outcome comes. */
    __CPROVER_assume(cur != 0);
    tx_done();
    if (S == MODBUS_MASTER_RESP_RECIVED)
        e35();
    if (S == MODBUS_MASTER_RESP_WAITING)
        TIMER = 0; /* 1000 ticks, by the contract of the tick (OP 3) */
    int before = rank();
    update_modbus_master_manager();
    A(21, before >= 0 && (OUTCOMES == 1 || (OUTCOMES == 0 && rank() >= 0 && rank() < before)), "every poll brings the request closer to its outcome");
    A(21, OUTCOMES ? S == MODBUS_MASTER_IDLE && index_in(view(free_q), index_of(cur)) : S != MODBUS_MASTER_IDLE && msg_buf == cur,
      "the request stays the one being processed until its outcome, then its message is free again");
    REACH("closer");
#elif OP == 5
    /* no byte arrives: whatever the order of polls and ticks, the timeout comes with the first poll after 999 or more ticks */
    __CPROVER_assume(s == MODBUS_MASTER_TRANSMITTING_REQ && !t15 && !tx);
    update_modbus_master_manager();
    int n;
    __CPROVER_assume(n >= 0 && n <= 3000);
    A(20, TIMER == 1000 && S == MODBUS_MASTER_RESP_WAITING, "the response time is one second");
    TIMER = n < 1000 ? 1000 - n : 0; /* n ticks, by the contract of the tick (OP 3) and of a poll without an event (OP 1) */
    update_modbus_master_manager();
    A(20, n_tmo == (n >= 999), "the timeout comes with the first poll after the response time, not before");
    A(20, n < 999 || (S == MODBUS_MASTER_IDLE && reported()), "and describes the request");
    update_modbus_master_manager();
    A(20, n_tmo == (n >= 999), "and comes once");
    REACH("timeout");
#endif
}
