/* Environment (driver, recorded) and representation invariant of the master, shared by the harnesses of its requests and
 * of its manager.  The invariant is established by modbus_master_init and preserved by every call and every driver event. */
#ifndef MASTER_STATE_H
#define MASTER_STATE_H
#include <stddef.h>
#include "modbus_master.h"
#include "modbus_master_PDU.h"
#include "modbus_master_RTU.h"
#include "modbus_queue.h"
#include "modbus_RTU.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
#include "ghost.h"

#define QN MODBUS_MASTER_MAX_MSG_QUEUE_ITEMS
extern modbus_master_state_t modbus_master_manager_state_machine;
extern const modbus_RTU_driver_struct_t *RTU_driver;
extern modbus_queue_t *free_q, *tx_rx_q;
extern modbus_msg_t modbus_msg[QN];
extern modbus_msg_t *msg_buf;
extern modbus_timer_t modbus_master_resp_timeout_timer;
extern uint8_t modbus_master_msg_repeat_couter;
extern modbus_status_flag_t MODBUS_MASTER_TIMER_1_5_CHAR_FLAG, MODBUS_MASTER_TIMER_3_5_CHAR_FLAG, MODBUS_MASTER_FRAME_ERROR_FLAG,
    MODBUS_MASTER_REQ_TRANSMITION_FLAG, MODBUS_MASTER_RTU_CRC_ERROR_FLAG;
#define S modbus_master_manager_state_machine
#define F15 MODBUS_MASTER_TIMER_1_5_CHAR_FLAG
#define F35 MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
#define FFE MODBUS_MASTER_FRAME_ERROR_FLAG
#define FTX MODBUS_MASTER_REQ_TRANSMITION_FLAG
#define FCRC MODBUS_MASTER_RTU_CRC_ERROR_FLAG
#define TIMER modbus_master_resp_timeout_timer
#define COUNT modbus_master_msg_repeat_couter
#define SET MODBUS_FLAG_SET
#define CLEARED MODBUS_FLAG_CLEARED
#define BIN(f) ((f) == CLEARED || (f) == SET)

static driver_subscr_cb_t cb15, cb35, cbtx, cbfe;
static modbus_req_resp_t *rx;       /* where received bytes go */
static int n_init, n_send, n_rcv, pend, tx_in_send;
static modbus_buf_t *sent;
static int sent_len, rx_len_at_send, sent_byte;
static uint16_t w;                  /* witness: an arbitrary byte of a frame */
static int good;                    /* the response in the buffer was intact and came from the addressed slave */
static int fresh35;                 /* the last T3.5 event came after the last T1.5 event: it ends the frame in the buffer */
static void d_init(baud_t b, parity_t p) { n_init++; }
static void d_send(modbus_buf_t *b, modbus_buf_size_t n)
{
    n_send++;
    sent = b;
    sent_len = n;
    if (w < n)
        sent_byte = b[w];
    pend = 1;
    if (tx_in_send)
    {
        pend = 0;
        cbtx();
    }
}
static void d_rcv(modbus_req_resp_t *r)
{
    n_rcv++;
    rx = r;
}
static void d_dis(void) {}
static void s15(driver_subscr_cb_t c) { cb15 = c; }
static void stx(driver_subscr_cb_t c) { cbtx = c; }
static void s35(driver_subscr_cb_t c) { cb35 = c; }
static void sfe(driver_subscr_cb_t c) { cbfe = c; }
static const modbus_RTU_driver_struct_t D = {d_init, d_send, d_rcv, d_dis, s15, stx, s35, sfe};
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &D; }
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &D; }

/* abstract view of a queue: the sequence of its messages (index into modbus_msg, -1: something else) */
typedef struct
{
    int n, at[QN];
} view_t;
static int index_of(const modbus_msg_t *m)
{
    for (int i = 0; i < QN; i++)
        if (m == &modbus_msg[i])
            return i;
    return -1;
}
static view_t view(const modbus_queue_t *q)
{
    view_t v;
    v.n = q->items_in_queue;
    for (int i = 0; i < QN; i++)
        v.at[i] = i < v.n ? index_of(q->modbus_msg[(q->tail + i) % QN]) : -1;
    return v;
}
static int wf(const modbus_queue_t *q)
{
    return q->head < QN && q->tail < QN && q->items_in_queue <= QN && q->head == (q->tail + q->items_in_queue) % QN;
}
static int seq_eq(view_t a, view_t b)
{
    int r = a.n == b.n;
    for (int i = 0; i < QN; i++)
        r = r && (i >= a.n || a.at[i] == b.at[i]);
    return r;
}
static int same_members(view_t a, view_t b)
{
    int r = a.n == b.n;
    for (int m = 0; m < QN; m++)
    {
        int x = 0, y = 0;
        for (int i = 0; i < QN; i++)
        {
            x += i < a.n && a.at[i] == m;
            y += i < b.n && b.at[i] == m;
        }
        r = r && x == y;
    }
    return r;
}
static int index_in(view_t a, int m)
{
    int r = 0;
    for (int i = 0; i < QN; i++)
        r = r || (i < a.n && a.at[i] == m);
    return r;
}
static view_t push_view(view_t a, int m)
{
    if (a.n >= 0 && a.n < QN)
        a.at[a.n++] = m;
    return a;
}
static view_t pop_view(view_t a)
{
    view_t r;
    r.n = a.n - 1;
    for (int i = 0; i < QN; i++)
        r.at[i] = i + 1 < a.n ? a.at[i + 1 < QN ? i + 1 : 0] : -1;
    return r;
}
/* every message is in exactly one place */
static int places(void)
{
    view_t f = view(free_q), t = view(tx_rx_q);
    int fl = S == MODBUS_MASTER_IDLE ? -1 : index_of(msg_buf), r = wf(free_q) && wf(tx_rx_q) && (S == MODBUS_MASTER_IDLE || fl >= 0);
    r = r && f.n + t.n + (S != MODBUS_MASTER_IDLE) == QN;
    for (int m = 0; m < QN; m++)
    {
        int x = fl == m;
        for (int i = 0; i < QN; i++)
            x += (f.at[i] == m) + (t.at[i] == m);
        r = r && x == 1;
    }
    return r;
}
/* what the generation of requests guarantees for a queued request */
static int good_req(const modbus_msg_t *m)
{
    const uint8_t *q = m->req.data;
    int qty = spec_u16(q + 4);
    return spec_known_fc(q[1]) && m->req.len >= 8 && (q[1] == 5 || q[1] == 6 || (qty >= 1 && qty <= spec_max_qty(q[1])));
}
/* request buffer of a message; in the harness of the requests, one of them is replaced by a separate object of the same
 * size (the code under proof only reaches it through the message) */
#ifdef MI
static uint8_t flat_req[sizeof master_RTU_req_buf[0]];
#define REQ_BUF(i) ((i) == MI ? flat_req : &master_RTU_req_buf[i][0])
#else
#define REQ_BUF(i) (&master_RTU_req_buf[i][0])
#endif
static int buffers(void)
{
    int r = RTU_driver == &D;
    for (int i = 0; i < QN; i++)
        r = r && modbus_msg[i].req.data == REQ_BUF(i) && modbus_msg[i].resp.data == &master_RTU_resp_buf[i][0];
    return r;
}
static int flags(void)
{
    return (S == MODBUS_MASTER_IDLE || S == MODBUS_MASTER_TRANSMITTING_REQ || S == MODBUS_MASTER_RESP_WAITING || S == MODBUS_MASTER_RESP_RECIVED ||
            S == MODBUS_MASTER_REPEAT_REQUEST) &&
           BIN(F15) && BIN(F35) && BIN(FFE) && BIN(FTX) && BIN(FCRC) &&
           !(S == MODBUS_MASTER_TRANSMITTING_REQ && (pend ? SET : CLEARED) != FTX) && !(pend && S != MODBUS_MASTER_TRANSMITTING_REQ) &&
           !((S == MODBUS_MASTER_TRANSMITTING_REQ || S == MODBUS_MASTER_RESP_WAITING) && FCRC == SET) &&
           !(S == MODBUS_MASTER_RESP_RECIVED && FFE == CLEARED && FCRC == CLEARED && !good) && !(S == MODBUS_MASTER_IDLE && COUNT != 0) && COUNT <= 3 &&
           !(S == MODBUS_MASTER_REPEAT_REQUEST && COUNT == 0) && TIMER <= 1000 &&
           !(S != MODBUS_MASTER_IDLE && S != MODBUS_MASTER_REPEAT_REQUEST && rx != &msg_buf->resp) && !(F35 == SET && !fresh35);
}
static int minv(void) { return places() && buffers() && flags(); }

static void any_queue(modbus_queue_t *q)
{
    for (int i = 0; i < QN; i++)
    {
        uint8_t k;
        q->modbus_msg[i] = k < QN ? &modbus_msg[k] : NULL;
    }
    uint8_t h, t, n;
    q->head = h;
    q->tail = t;
    q->items_in_queue = n;
}
static void ghosts(void)
{
    uint16_t ww;
    w = ww;
    n_init = n_send = n_rcv = pend = good = sent_len = fresh35 = 0;
    sent_byte = -1;
    sent = 0;
    rx = 0;
}
#ifndef MORE_GHOSTS
#define MORE_GHOSTS
#endif
static void start(void)
{
    baud_t baud;
    parity_t parity;
    int t;
    HAVOC_STATICS(); /* init is the first call or comes in any state of a running master */
    ghosts();
    MORE_GHOSTS
    cb15 = cb35 = cbtx = cbfe = 0;
    tx_in_send = t & 1;
    modbus_master_init(RTU, baud, parity);
}
static void any_state(void)
{
    modbus_master_state_t s;
    modbus_status_flag_t a, b, c, d, e;
    modbus_timer_t t;
    uint8_t n, m, l;
    int p, g, fr, ts = tx_in_send;
    driver_subscr_cb_t c15 = cb15, c35 = cb35, ctx = cbtx, cfe = cbfe;
    HAVOC_STATICS();
    ghosts();
    cb15 = c15;
    cb35 = c35;
    cbtx = ctx;
    cbfe = cfe;
    tx_in_send = ts;
    RTU_driver = &D;
    any_queue(free_q);
    any_queue(tx_rx_q);
    S = s;
    F15 = a;
    F35 = b;
    FFE = c;
    FTX = d;
    FCRC = e;
    TIMER = t;
    COUNT = n;
    pend = p & 1;
    good = g & 1;
    fresh35 = fr & 1;
    msg_buf = m < QN ? &modbus_msg[m] : NULL;
    rx = m < QN ? &modbus_msg[m].resp : NULL;
    __CPROVER_havoc_object(master_RTU_req_buf);
    __CPROVER_havoc_object(master_RTU_resp_buf);
#ifdef MI
    __CPROVER_havoc_object(flat_req);
#endif
    for (int i = 0; i < QN; i++)
    {
        uint8_t x, y;
        modbus_msg[i].req.data = REQ_BUF(i);
        modbus_msg[i].resp.data = &master_RTU_resp_buf[i][0];
        modbus_msg[i].req.len = x;
        modbus_msg[i].resp.len = y;
    }
#ifdef MI
    __CPROVER_assume(buffers() && flags()); /* the queues are abstract */
#else
    __CPROVER_assume(minv());
    for (int i = 0; i < QN; i++)
        __CPROVER_assume(index_in(view(free_q), i) || good_req(&modbus_msg[i]));
#endif
}
#endif
