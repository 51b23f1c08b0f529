/* Specification functions: written from the MODBUS application protocol and serial line specifications and from the
 * documented API of the library, not from its code. Used both by the proof harnesses (CBMC) and by the native replay. */
#ifndef MB_SPEC_H
#define MB_SPEC_H
#include <stdint.h>

#define SPEC_MAX_READ_BITS 2000
#define SPEC_MAX_WRITE_BITS 1968
#define SPEC_MAX_READ_REGS 125
#define SPEC_MAX_WRITE_REGS 123

/* one byte of CRC-16/MODBUS (reflected polynomial 0xA001) */
static inline uint16_t spec_crc_step(uint16_t c, uint8_t b)
{
#define SPEC_CRC_ROUND(c) (((c) & 1) ? (uint16_t)(((c) >> 1) ^ 0xA001) : (uint16_t)((c) >> 1))
    const uint16_t c0 = c ^ b, c1 = SPEC_CRC_ROUND(c0), c2 = SPEC_CRC_ROUND(c1), c3 = SPEC_CRC_ROUND(c2), c4 = SPEC_CRC_ROUND(c3),
                   c5 = SPEC_CRC_ROUND(c4), c6 = SPEC_CRC_ROUND(c5), c7 = SPEC_CRC_ROUND(c6);
    return SPEC_CRC_ROUND(c7);
}
static inline uint16_t spec_crc(const uint8_t *p, uint32_t n)
{
    uint16_t c = 0xFFFF;
    while (n--)
        c = spec_crc_step(c, *p++);
    return c;
}
static inline uint16_t spec_u16(const uint8_t *p) { return (uint16_t)(p[0] * 256 + p[1]); }
static inline int spec_bytes(int bits) { return (bits + 7) / 8; }
static inline int spec_bit(const uint8_t *p, int k) { return (p[k / 8] >> (k % 8)) & 1; }
static inline int spec_known_fc(int fc) { return (fc >= 1 && fc <= 6) || fc == 15 || fc == 16; }
static inline int spec_max_qty(int fc)
{
    switch (fc)
    {
    case 1: case 2: return SPEC_MAX_READ_BITS;
    case 3: case 4: return SPEC_MAX_READ_REGS;
    case 15: return SPEC_MAX_WRITE_BITS;
    case 16: return SPEC_MAX_WRITE_REGS;
    default: return 1;
    }
}
/* length of a request (address .. data, without CRC) as its function code and byte count say; 0: any length */
static inline int spec_req_len(const uint8_t *req)
{
    switch (req[1])
    {
    case 1: case 2: case 3: case 4: case 5: case 6: return 6;
    case 15: case 16: return 7 + req[6];
    default: return 0;
    }
}
/* Exceptions that can be decided without looking at the registered data, for a slave with n objects of the addressed kind.
 * Result: bit c set = exception code c is allowed; 0 = no such exception. Two codes are allowed only for the combination of
 * a wrong byte count with a wrong address, for which the precedence is not claimed. */
static inline unsigned spec_exc(const uint8_t *req, int n)
{
    int fc = req[1], adr = spec_u16(req + 2), val = spec_u16(req + 4);
    if (!spec_known_fc(fc))
        return 1u << 1;
    if (fc == 5 && val != 0x0000 && val != 0xFF00)
        return 1u << 3;
    if (fc == 5 || fc == 6)
        return (adr >= n) ? 1u << 2 : 0;
    if (val < 1 || val > spec_max_qty(fc))
        return 1u << 3;
    int bad_adr = adr + val > n;
    int bad_cnt = (fc == 15 && req[6] != spec_bytes(val)) || (fc == 16 && req[6] != val * 2);
    return (bad_adr ? 1u << 2 : 0) | (bad_cnt ? 1u << 3 : 0);
}
#endif
