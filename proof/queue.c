/* Contracts of modbus_queue_init, _push and _pop (real code) over the abstract sequence of a queue.  F: 1 init, 2 push, 3 pop */
#include "master_state.h"
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) {}
void harness(void)
{
    static modbus_queue_t q;
    static modbus_queue_t before;
    any_queue(&q);
#if F == 1
    modbus_queue_init(&q);
    A(15, wf(&q) && view(&q).n == 0, "a new queue is empty");
    REACH("init");
#else
    __CPROVER_assume(wf(&q));
    view_t v = view(&q);
#if F == 2
    uint8_t k;
    __CPROVER_assume(k < QN);
    modbus_msg_t *m = &modbus_msg[k];
    modbus_queue_push(&q, &m);
    if (v.n < QN)
    {
        A(15, wf(&q) && seq_eq(view(&q), push_view(v, k)), "push appends the message and changes nothing else");
        A(15, m == NULL, "push takes the message from its owner");
        REACH("push");
    }
    else
    {
        A(15, wf(&q) && seq_eq(view(&q), v), "push to a full queue leaves the queue as it is");
        A(15, m == &modbus_msg[k], "push to a full queue leaves the message with its owner");
        REACH("push full");
    }
#else
    modbus_msg_t *first = v.n ? q.modbus_msg[q.tail] : NULL;
    modbus_msg_t *m = modbus_queue_pop(&q);
    A(15, m == first, "pop returns the oldest message, nothing from an empty queue");
    if (v.n)
    {
        A(15, wf(&q) && seq_eq(view(&q), pop_view(v)), "pop removes the oldest message and changes nothing else");
        REACH("pop");
    }
    else
    {
        A(15, wf(&q) && seq_eq(view(&q), v), "pop leaves an empty queue as it is");
        REACH("pop empty");
    }
#endif
#endif
}
