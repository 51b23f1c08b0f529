/* MODE 1: contract of calculate_CRC; MODE 2: contract of modbus_RTU_send; MODE 3: contract of modbus_RTU_recv.
 * All on the real code, with the loop of calculate_CRC under a loop contract: after i bytes the CRC is g_S[i]. */
#include "modbus_crc.h"
#include "modbus_RTU.h"
#include "ghost.h"
#ifndef NMAX
#define NMAX 256
#endif
uint8_t g_d[256];
uint16_t g_S[257];
uint32_t g_N;

void harness(void)
{
    __CPROVER_havoc_object(g_d);
    uint16_t kk;
    uint8_t k = kk & 255, id;
    uint32_t n;
    __CPROVER_assume(n <= NMAX);
#if MODE == 2
    uint8_t old_k = g_d[k];
    uint8_t len = n, len0 = len;
    uint8_t first = id;
#else
    uint8_t first = g_d[0];
#endif
    g_S[0] = 0xFFFF;
    for (int i = 0; i < NMAX; i++)
    {
        uint8_t b = i == 0 ? first : g_d[i];
        g_S[i + 1] = spec_crc_step(g_S[i], b);
    }
#if MODE == 1
    g_N = n;
    uint8_t old = g_d[k];
    uint16_t r = calculate_CRC(g_d, n);
    A(1, r == g_S[n], "the CRC is the CRC-16/MODBUS of the bytes");
    A(1, g_d[k] == old, "the bytes are not changed");
    if (n == NMAX)
        REACH("longest string");
    if (n == 0)
        REACH("empty string");
#elif MODE == 2
    g_N = len0;
    modbus_ret_t r = modbus_RTU_send(g_d, &len, id);
    if (len0 >= 1 && len0 <= 253)
    {
        A(2, r == RET_OK, "a message that fits is framed");
        A(2, len == len0 + 2, "two CRC bytes are appended");
        A(2, k == 0 ? g_d[0] == id : k < len0 ? g_d[k] == old_k : 1, "address and message are in front");
        A(2, g_d[len0] == (g_S[len0] & 255) && g_d[len0 + 1] == g_S[len0] >> 8, "CRC of address and message, low byte first");
        REACH("framed");
    }
    else if (len0 > 253)
    {
        A(2, r != RET_OK && len == len0 && g_d[k] == old_k, "a message that does not fit is refused and left alone");
        REACH("refused");
    }
#elif MODE == 3
    __CPROVER_assume(n <= 255);
    g_N = n;
    uint8_t old = g_d[k];
    modbus_ret_t r = modbus_RTU_recv(g_d, n, id);
    int crc_ok = n >= 2 && g_d[n - 2] == (g_S[n - 2] & 255) && g_d[n - 1] == g_S[n - 2] >> 8;
    A(3, (r == RET_OK) == (g_d[0] == id && crc_ok), "accepted if and only if addressed to this device and ending in the CRC of the rest");
    A(2, !(g_d[0] == id && crc_ok) || r == RET_OK, "a frame with address and CRC is accepted");
    A(3, g_d[0] == id || r == RET_ERROR_SLAVE_ID, "a frame for another device is reported as such");
    A(3, g_d[0] != id || crc_ok || r == RET_ERROR_CRC, "a damaged frame for this device is reported as such");
    A(3, g_d[k] == old, "the frame is not changed");
    if (r == RET_OK && n > 200)
        REACH("accepted");
    if (r == RET_ERROR_CRC)
        REACH("damaged");
    if (r == RET_ERROR_SLAVE_ID)
        REACH("foreign");
#endif
}
