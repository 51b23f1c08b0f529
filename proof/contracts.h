/* Postconditions of the three stages of an exchange, as predicates over the arguments, the buffers and a witness object k.  Each is
 * asserted on the real code (master_req.c, slave_pdu.c, master_resp.c, PROP 23) and assumed in the composition (round_trip.c). */
#ifndef CONTRACTS_H
#define CONTRACTS_H
#include "mb_spec.h"
static inline int c_single(int fc) { return fc == 5 || fc == 6; }
static inline int c_bits(int fc) { return fc == 1 || fc == 2 || fc == 5 || fc == 15; }
static inline int c_read(int fc) { return fc >= 1 && fc <= 4; }
static inline int c_coil(int fc) { return fc == 1 || fc == 5 || fc == 15; }
/* the k-th value carried by a write request */
static inline int c_carried(int fc, const uint8_t *req, int k)
{
    return fc == 5 ? spec_u16(req + 4) == 0xFF00 : fc == 6 ? spec_u16(req + 4) : fc == 15 ? spec_bit(req + 7, k) : spec_u16(req + 7 + 2 * k);
}

/* request functions of the master: frame p[0..len) (without CRC) for an accepted call; elem: the k-th value to write */
static inline int c_request(int fc, const uint8_t *p, int len, int id, int adr, int qty, int k, int elem)
{
    int want = fc == 15 ? 7 + spec_bytes(qty) : fc == 16 ? 7 + 2 * qty : 6;
    return len == want && p[0] == id && p[1] == fc && spec_u16(p + 2) == adr &&
           (fc == 5 ? spec_u16(p + 4) == (elem ? 0xFF00 : 0) : fc == 6 ? spec_u16(p + 4) == elem : spec_u16(p + 4) == qty) && (len == 6 || p[6] == len - 7) &&
           (c_read(fc) || c_single(fc) || k >= qty || c_carried(fc, p, k) == elem);
}

/* slave: what happened to the witness object (vk: its value before, -1 not registered) and to the others */
struct c_effect
{
    int err, any_write, bad, vk, wr, wv;
};
static inline int c_response(int fc, const uint8_t *q, const uint8_t *p, int len, int n, int k, const struct c_effect *e)
{
    unsigned exc = spec_exc(q, n);
    int qty = c_single(fc) ? 1 : spec_u16(q + 4), in = k < qty;
    if (exc)
        return len == 3 && p[1] == (fc | 0x80) && p[2] < 32 && ((exc >> p[2]) & 1) && !e->any_write;
    if (e->err)
        return len == 3 && p[1] == (fc | 0x80) && p[2] == 4;
    if (p[1] != fc || (in && e->vk == -1))
        return 0;
    if (c_read(fc))
        return c_bits(fc) ? p[2] == spec_bytes(qty) && len == 3 + spec_bytes(qty) && (!in || spec_bit(p + 3, k) == e->vk) && !e->any_write
                          : p[2] == 2 * qty && len == 3 + 2 * qty && (!in || spec_u16(p + 3 + 2 * k) == e->vk) && !e->any_write;
    return len == 6 && p[2] == q[2] && p[3] == q[3] && p[4] == q[4] && p[5] == q[5] && !e->bad && (!in || (e->wr >= 1 && e->wv == c_carried(fc, q, k)));
}

/* master: what the application got to know */
struct c_result
{
    int ok, n, hit, hv, bad, n_conf, conf_bad, n_exc, exc_bad, exc_code;
};
static inline int c_answers(int fc, const uint8_t *q, const uint8_t *p, int len)
{
    int qty = c_single(fc) ? 1 : spec_u16(q + 4), bytes = c_bits(fc) ? spec_bytes(qty) : 2 * qty;
    if (p[1] == (fc | 0x80))
        return len == 3;
    if (p[1] != fc)
        return 0;
    return c_read(fc) ? p[2] == bytes && len == 3 + bytes : len == 6 && p[2] == q[2] && p[3] == q[3] && p[4] == q[4] && p[5] == q[5];
}
static inline int c_outcome(int fc, const uint8_t *q, const uint8_t *p, int len, int k, const struct c_result *r)
{
    int qty = c_single(fc) ? 1 : spec_u16(q + 4);
    if (!c_answers(fc, q, p, len))
        return !r->ok && r->n == 0 && r->n_conf == 0 && r->n_exc == 0;
    if (!r->ok)
        return 0;
    if (p[1] != fc)
        return r->n_exc == 1 && !r->exc_bad && r->exc_code == p[2] && r->n == 0 && r->n_conf == 0;
    if (r->n_exc)
        return 0;
    if (c_read(fc))
        return r->n == qty && !r->bad && r->n_conf == 0 && (k >= qty ? r->hit == 0 : r->hit == 1 && r->hv == (c_bits(fc) ? spec_bit(p + 3, k) : spec_u16(p + 3 + 2 * k)));
    return r->n_conf == 1 && !r->conf_bad && r->n == 0;
}
#endif
