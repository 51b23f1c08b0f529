#ifndef GHOST_H
#define GHOST_H
/* Ghost state shared by the proof harnesses and the loop contracts. */
#include <stdint.h>
#include "modbus_type.h"
#include "mb_spec.h"
#ifndef PROP
#define PROP 0
#endif
/* property-level obligation: part of the job only when the job decides that property */
#define A(n, cond, desc) A_(n, cond, desc)
#define A_(n, cond, desc) do { if ((n) == PROP) __CPROVER_assert(cond, "C" #n ": " desc); } while (0)
/* auxiliary obligation of every job (precondition of a callee contract) */
#define REQUIRES(cond, desc) __CPROVER_assert(cond, "REQ: " desc)
/* vacuity guard: must be reachable, i.e. this assertion must fail */
#define REACH(desc) __CPROVER_assert(0, "REACH: " desc)
/* the code under proof calls this function, whose contract stands in for it */
#define USES(f) REACH("uses " f)

/* arbitrary values for every variable with static lifetime (the job runs goto-instrument --nondet-static), also those this
 * harness does not know; the harness then sets its own ghost state again and assumes its invariant */
void __CPROVER_initialize(void);
#define HAVOC_STATICS() __CPROVER_initialize()

/* the same as the functions of mb_spec.h, usable in loop contracts */
#define GBIT(p, k) (((p)[(k) / 8] >> ((k) % 8)) & 1)
#define GBYTES(n) (((n) + 7) / 8)

extern uint8_t g_req[256], g_resp[256];
extern modbus_msg_t g_msg;
extern uint8_t g_fc;           /* function code of the request */
extern uint16_t g_A;           /* first addressed object */
extern uint16_t g_Q;           /* number of addressed objects */
extern uint16_t g_k;           /* witness: an arbitrary object (offset to g_A) */
extern int g_VK;               /* value of the witness object, -1: not registered */
extern uint16_t g_n;           /* accessor calls so far */
extern int g_err;              /* some addressed object was reported as not registered */
extern int g_any_write;        /* some object was written */
extern int g_wr, g_wv;         /* writes to the witness object and last value */
extern int g_bad;              /* some access outside the addressed objects */
extern const uint8_t *g_bits;  /* coil values passed by the application */
extern const uint16_t *g_regs; /* register values passed by the application */
extern uint8_t *g_mreq;        /* request buffer of the master that is being filled */
extern uint16_t g_hit;         /* deliveries of the witness object to the application */
extern int g_hv;               /* and the last delivered value */
extern uint16_t g_S[257];      /* CRC of every prefix */
extern uint8_t g_d[256];
extern uint32_t g_N;
#endif
