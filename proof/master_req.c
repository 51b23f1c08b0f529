/* Contracts of the eight request functions of the master (real code: modbus_master.c, modbus_master_PDU.c,
 * modbus_RTU_send), from an arbitrary state that satisfies the invariant of master_state.h.  Callee contracts used:
 * calculate_CRC (crc.c), modbus_queue_push and _pop (queue.c).  FC: function code, MI: the message taken from the free ones */
static int n_free, n_wait, pop_free, pop_other, back_free, to_wait, push_bad;
#define MORE_GHOSTS n_free = n_wait = pop_free = pop_other = back_free = to_wait = push_bad = 0;
#include "master_state.h"
#include "contracts.h"
#define MULTI (FC == 15 || FC == 16)
#define SINGLE (FC == 5 || FC == 6)

uint16_t g_Q, g_k;
uint8_t *g_mreq;
const uint8_t *g_bits;
const uint16_t *g_regs;
#if FC == 15
static uint8_t coils[1968];
#else
static uint8_t coils[1];
#endif
static uint16_t regs[FC == 16 ? 123 : 1];
static int n_crc, crc_len, crc_byte;
static modbus_buf_t *crc_buf;
static uint16_t crc_val;
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { A(14, 0, "a request call reports nothing"); }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { A(14, 0, "a request call reports nothing"); }
uint16_t stub_calculate_CRC(uint8_t *b, uint32_t n)
{
    USES("calculate_CRC");
    n_crc++;
    crc_buf = b;
    crc_len = n;
    crc_byte = w < n ? b[w] : -1;
    uint16_t c;
    crc_val = c;
    return c;
}

/* the two queues, abstractly: how many messages they hold and what this call does to them */
modbus_msg_t *stub_modbus_queue_pop(modbus_queue_t *q)
{
    USES("modbus_queue_pop");
    if (q != free_q)
    {
        pop_other++;
        return NULL;
    }
    if (n_free == 0)
        return NULL;
    n_free--;
    pop_free++;
    REQUIRES(pop_free == 1, "one message per request");
    return &modbus_msg[MI];
}
void stub_modbus_queue_push(modbus_queue_t *q, modbus_msg_t **d)
{
    USES("modbus_queue_push");
    if (*d != &modbus_msg[MI] || pop_free != 1)
        push_bad++;
    if (q == free_q && n_free < QN)
        back_free++, n_free++;
    else if (q == tx_rx_q && n_wait < QN)
        to_wait++, n_wait++;
    else
    {
        push_bad++;
        return;
    }
    *d = NULL;
}
void harness(void)
{
    start();
    any_state();
    n_crc = 0;
    crc_len = crc_byte = -1;
    crc_buf = 0;
    pop_free = pop_other = back_free = to_wait = push_bad = 0;
    int nf, nw;
    __CPROVER_assume(nf >= 0 && nf <= QN && nw >= 0 && nw <= QN && nf + nw <= QN); /* at most all messages are in the queues */
    n_free = nf;
    n_wait = nw;
    free_q->items_in_queue = nf;
    tx_rx_q->items_in_queue = nw;
    uint16_t adr, qty, val, k;
    uint8_t id, on;
    on &= 1;
#if FC == 15
    __CPROVER_assume(__CPROVER_forall { int i_; (0 <= i_ && i_ < 1968) ==> coils[i_] <= 1 });
#endif
#ifdef QFIX
    qty = QFIX;
#endif
#ifdef QMAX
    __CPROVER_assume(qty <= QMAX || qty > spec_max_qty(FC));
#endif
    g_bits = coils;
    g_regs = regs;
    g_Q = SINGLE ? 1 : qty;
    g_k = k;
    g_mreq = flat_req;
    __CPROVER_assume(w < 256);
    uint8_t old[QN], old_r[QN], old_len[QN], old_rlen[QN];
    for (int i = 0; i < QN; i++)
    {
        old[i] = REQ_BUF(i)[w];
        old_r[i] = master_RTU_resp_buf[i][w];
        old_len[i] = modbus_msg[i].req.len;
        old_rlen[i] = modbus_msg[i].resp.len;
    }
    int s = S, a = F15, b = F35, c = FFE, d = FTX, e = FCRC, cnt = COUNT, tm = TIMER;
    modbus_msg_t *cur = msg_buf;
    modbus_master_req_ret_t r;
#if FC == 1
    r = modbus_master_read_coils(adr, qty, id);
#elif FC == 2
    r = modbus_master_read_discrete_inputs(adr, qty, id);
#elif FC == 3
    r = modbus_master_read_holding_reg(adr, qty, id);
#elif FC == 4
    r = modbus_master_read_input_reg(adr, qty, id);
#elif FC == 5
    r = modbus_master_write_single_coil(adr, id, on);
#elif FC == 6
    r = modbus_master_write_single_reg(adr, id, val);
#elif FC == 15
    r = modbus_master_write_multiple_coils(adr, qty, id, (modbus_coil_disin_t *)coils);
#elif FC == 16
    r = modbus_master_write_multiple_reg(adr, qty, id, regs);
#endif
    int valid = SINGLE || (qty >= 1 && qty <= spec_max_qty(FC)), ok = nf > 0 && valid;
    A(15, push_bad == 0 && pop_other == 0 && pop_free == back_free + to_wait, "a request takes at most one message and puts it into one queue");
    A(15, pop_free == (nf > 0) && to_wait == ok, "an accepted request is appended to the waiting ones");
    A(14, push_bad == 0 && pop_other == 0 && to_wait == ok && n_free == nf - ok && n_wait == nw + ok, "a refused request leaves the queues as they were");
    A(21, buffers() && flags(), "invariant after a request");
    A(21, S == s && F15 == a && F35 == b && FFE == c && FTX == d && FCRC == e && COUNT == cnt && TIMER == tm && msg_buf == cur && n_send == 0,
      "a request call does not disturb the request that is being processed");
    A(14, S == s && F15 == a && F35 == b && FFE == c && FTX == d && FCRC == e && COUNT == cnt && TIMER == tm && msg_buf == cur && n_send == 0,
      "a request call does not disturb the request that is being processed");
    for (int i = 0; i < QN; i++)
    {
        if (i != MI || nf == 0)
        {
            A(21, REQ_BUF(i)[w] == old[i] && modbus_msg[i].req.len == old_len[i] && modbus_msg[i].resp.len == old_rlen[i] && master_RTU_resp_buf[i][w] == old_r[i],
              "a request call does not touch other messages");
            A(15, REQ_BUF(i)[w] == old[i] && modbus_msg[i].req.len == old_len[i], "a request call does not touch other messages");
        }
    }
    if (nf == 0)
    {
        A(14, r == MODBUS_MASTER_FREE_QUEUE_EMPTY_ERROR, "without a free message the request is refused");
        REACH("no free message");
    }
    else if (!valid)
    {
        A(14, r == MODBUS_MASTER_LIB_PDU_REQ_ERROR, "a quantity outside the protocol's limits is refused");
#if !SINGLE
        REACH("refused");
#endif
    }
    else
    {
        A(14, r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE, "a valid request is accepted as long as there is a free message");
        A(13, r == MODBUS_MASTER_REQUEST_SEND_TO_QUEUE && to_wait == 1 && push_bad == 0, "a valid request is accepted as long as there is a free message");
        modbus_msg_t *q = &modbus_msg[MI];
        const uint8_t *p = flat_req;
        int len = MULTI ? 7 + (FC == 15 ? spec_bytes(qty) : 2 * qty) : 6;
        A(2, q->req.len == len + 2 && q->req.data == p && n_crc == 1 && crc_buf == p && crc_len == len && (w >= len || crc_byte == p[w]) && p[len] == (crc_val & 255) && p[len + 1] == crc_val >> 8 && p[0] == id,
          "the frame of a request is its address, its PDU and their CRC, low byte first");
        A(13, q->req.len == len + 2 && q->req.data == p, "length of the frame");
        A(13, p[0] == id && p[1] == FC && spec_u16(p + 2) == adr, "address of the slave, function code, address of the object");
        A(13, spec_u16(p + 4) == (FC == 5 ? (on ? 0xFF00 : 0) : FC == 6 ? val : qty), "value or quantity");
#if MULTI
        A(13, p[6] == len - 7, "byte count");
#if FC == 15
        A(13, k >= 8 * (len - 7) || spec_bit(p + 7, k) == (k < qty ? coils[k] : 0), "every coil value is at its bit, unused bits are 0");
#else
        A(13, k >= qty || spec_u16(p + 7 + 2 * k) == regs[k], "every register value is at its place, high byte first");
#endif
#endif
        int elem = FC == 5 ? on : FC == 6 ? val : FC == 15 ? coils[k < sizeof coils ? k : 0] : FC == 16 ? regs[k < sizeof regs / 2 ? k : 0] : 0;
        A(23, c_request(FC, p, q->req.len - 2, id, adr, SINGLE ? 1 : qty, k, elem), "contract of the request functions, as used in the composition");
        A(21, good_req(q), "what the manager relies on");
        A(22, good_req(q) && q->req.len <= 256, "what the manager relies on");
        REACH("accepted");
    }
}
