/* C23: lemma over the contracts of the three stages of an exchange (contracts.h), for function code FC: the bytes of the master's request
 * are the slave's input and the bytes of the slave's response are the master's input (frames arrive unchanged, see C02 and C03). */
#include "ghost.h"
#include "contracts.h"
void harness(void)
{
    static uint8_t req[256], resp[256];
    __CPROVER_havoc_object(req);
    __CPROVER_havoc_object(resp);
    int id, adr, qty, k, elem, len, rlen, n;
    struct c_effect e;
    struct c_result r;
    __CPROVER_assume(id >= 0 && id <= 255 && adr >= 0 && adr <= 65535 && qty >= 1 && qty <= spec_max_qty(FC) && k >= 0 && k < qty && n >= 0 && n <= 65535);
    if (c_single(FC))
        qty = 1, k = 0;
    __CPROVER_assume(elem >= 0 && elem <= (c_bits(FC) ? 1 : 0xFFFF));

    __CPROVER_assume(c_request(FC, req, len, id, adr, qty, k, elem));
    A(23, spec_req_len(req) == len && len + 2 <= 255, "the slave takes the request as complete");
    __CPROVER_assume(c_response(FC, req, resp, rlen, n, k, &e));
    A(23, rlen >= 3 && rlen <= 253, "the response fits into a frame");
    __CPROVER_assume(c_outcome(FC, req, resp, rlen, k, &r));

    A(23, r.ok, "the master accepts the response of the slave");
    if (adr + qty > n)
    {
        A(23, r.n_exc == 1 && !r.exc_bad && r.exc_code == 2 && r.n_conf == 0 && r.n == 0 && !e.any_write,
          "objects the slave does not have are reported as exception 02, nothing is read or written");
        REACH("outside");
    }
    else if (e.err)
    {
        A(23, r.n_exc == 1 && !r.exc_bad && r.exc_code == 4 && r.n_conf == 0 && r.n == 0, "an object that is not registered is reported as exception 04");
        REACH("not registered");
    }
    else
    {
        if (c_read(FC))
            A(23, r.n_exc == 0 && r.n_conf == 0 && r.n == qty && !r.bad && r.hit == 1 && r.hv == e.vk, "every requested object is delivered once, with the value it has in the slave");
        else
            A(23, r.n_exc == 0 && r.n_conf == 1 && !r.conf_bad && r.n == 0 && !e.bad && e.wr >= 1 && e.wv == elem,
              "the write is confirmed once, and every object of the slave has the value given to the master");
        REACH("done");
    }
}
