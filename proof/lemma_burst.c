/* Lemma over the CRC contract: two strings of the same length that differ in one burst of at most 16 bits cannot both end
 * in their CRC. (No code of the repository: the contract of modbus_RTU_recv says "accepted iff the CRC register, run over
 * the whole frame, is 0", this lemma says that the register differs.) */
#include "ghost.h"
static uint16_t step0(uint16_t x, uint8_t b) { return spec_crc_step(x, b); }
void harness(void)
{
    /* 1: the register is 0 after a frame that ends in the CRC of the rest, and only then */
    uint16_t c;
    uint8_t lo, hi;
    A(3, (spec_crc_step(spec_crc_step(c, lo), hi) == 0) == (lo == (c & 255) && hi == c >> 8), "register 0 iff the last two bytes are the CRC");
    /* 2: linear: the difference of two registers depends on the differences only */
    uint16_t a, b;
    uint8_t p, q;
    A(3, (spec_crc_step(a, p) ^ spec_crc_step(b, q)) == step0(a ^ b, p ^ q), "difference of registers is the register of the differences");
    /* 3: equal bytes keep equal registers equal and different registers different */
    uint16_t x;
    A(3, (step0(x, 0) == 0) == (x == 0), "equal bytes preserve difference and equality");
    /* 4: a burst of at most 16 bits starting from equal registers makes them different */
    uint16_t w;
    uint8_t s;
    __CPROVER_assume(w != 0 && s < 8);
    uint32_t W = (uint32_t)w << s;
    A(3, step0(step0(step0(0, W & 255), (W >> 8) & 255), (W >> 16) & 255) != 0, "a burst makes the registers different");
    /* 5: induction over the length: difference pattern g_e has the burst at bytes j..j+2, zero elsewhere */
    uint32_t n, j;
    __CPROVER_assume(n <= 256 && j < n);
    uint8_t e0 = W & 255, e1 = (W >> 8) & 255, e2 = (W >> 16) & 255;
    __CPROVER_assume(!(j + 1 >= n) || e1 == 0);
    __CPROVER_assume(!(j + 2 >= n) || e2 == 0);
    uint16_t x1 = step0(0, e0), x2 = step0(x1, e1), x3 = step0(x2, e2);
    uint16_t d = 0;
    uint32_t i = 0;
    while (i < n)
        __CPROVER_assigns(i, d)
        __CPROVER_loop_invariant(i <= n && (i > j || d == 0) && (i != j + 1 || d == x1) && (i != j + 2 || d == x2) && (i < j + 3 || d != 0))
        __CPROVER_decreases(n - i)
    {
        d = step0(d, i == j ? e0 : i == j + 1 ? e1 : i == j + 2 ? e2 : 0);
        i++;
    }
    A(3, d != 0, "two frames that differ in one burst are not both accepted");
    REACH("end of the string");
}
