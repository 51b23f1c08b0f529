/* Demonstrations of the genuine defects recorded in /verif/KNOWN_FINDINGS.txt.
   usage: defect_demos CASE   -> exit 0 when the real code behaves, 1 when the defect shows.
   Built by defect_demos.sh from /repo/src with -DUNIT_TEST and the project's own unit-test configuration. */
#include "modbus_master.h"
#include "modbus_slave.h"
#include "modbus_type.h"
#include "modbus_driver_interface.h"
#include "modbus_master_data_interface.h"
#include "modbus_master_PDU.h"
#include "modbus_slave_PDU.h"
#include "modbus_RTU.h"
#include "modbus_crc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static driver_subscr_cb_t m15, mtx, m35, mfe, s15, stx, s35, sfe;
static modbus_req_resp_t *mrx, *srx;
static uint8_t mtxbuf[256], stxbuf[256];
static int mtxlen, stxlen, msends, ssends, tx_done_inside_send;
static void init_(baud_t b, parity_t p) { (void)b; (void)p; }
static void msend(modbus_buf_t *b, modbus_buf_size_t n) { memcpy(mtxbuf, b, n); mtxlen = n; msends++; if (tx_done_inside_send) mtx(); }
static void ssend(modbus_buf_t *b, modbus_buf_size_t n) { memcpy(stxbuf, b, n); stxlen = n; ssends++; if (tx_done_inside_send) stx(); }
static void mrcv(modbus_req_resp_t *r) { mrx = r; }
static void srcv(modbus_req_resp_t *r) { srx = r; }
static void dis(void) {}
static void a1(driver_subscr_cb_t c) { m15 = c; } static void a2(driver_subscr_cb_t c) { mtx = c; }
static void a3(driver_subscr_cb_t c) { m35 = c; } static void a4(driver_subscr_cb_t c) { mfe = c; }
static void b1(driver_subscr_cb_t c) { s15 = c; } static void b2(driver_subscr_cb_t c) { stx = c; }
static void b3(driver_subscr_cb_t c) { s35 = c; } static void b4(driver_subscr_cb_t c) { sfe = c; }
static const modbus_RTU_driver_struct_t MD = {init_, msend, mrcv, dis, a1, a2, a3, a4};
static const modbus_RTU_driver_struct_t SD = {init_, ssend, srcv, dis, b1, b2, b3, b4};
const modbus_RTU_driver_struct_t *get_master_RTU_driver_interface(void) { return &MD; }
const modbus_RTU_driver_struct_t *get_slave_RTU_driver_interface(void) { return &SD; }

static int n_read, n_write, n_exc, n_tmo, n_comm, n_wrong; static modbus_master_error_report_t last_err; static modbus_read_data_t last_exc;
static uint16_t last_val;
void modbus_master_coil_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { (void)s; (void)a; n_read++; last_val = v; }
void modbus_master_coil_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { (void)s; (void)a; (void)q; n_write++; }
void modbus_master_coil_exception(const modbus_read_data_t *r) { n_exc++; last_exc = *r; }
void modbus_master_disin_read(modbus_device_ID_t s, modbus_adr_t a, modbus_coil_disin_t v) { (void)s; (void)a; (void)v; n_read++; }
void modbus_master_disin_exception(const modbus_read_data_t *r) { n_exc++; last_exc = *r; }
void modbus_master_hreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { (void)s; (void)a; n_read++; last_val = v; }
void modbus_master_hreg_write(modbus_device_ID_t s, modbus_adr_t a, modbus_data_qty_t q) { (void)s; (void)a; (void)q; n_write++; }
void modbus_master_hreg_exception(const modbus_read_data_t *r) { n_exc++; last_exc = *r; }
void modbus_master_inreg_read(modbus_device_ID_t s, modbus_adr_t a, modbus_reg_t v) { (void)s; (void)a; (void)v; n_read++; }
void modbus_master_inreg_exception(const modbus_read_data_t *r) { n_exc++; last_exc = *r; }
void modbus_master_data_timeout_error(const modbus_master_error_report_t *e) { n_tmo++; last_err = *e; }
void modbus_master_communication_error(const modbus_master_error_report_t *e) { n_comm++; last_err = *e; }

static void poll(int n) { while (n--) update_modbus_master_manager(); }
static void ticks(int n) { while (n--) update_modbus_master_timout_timer(); }
static void put(modbus_req_resp_t *r, const uint8_t *d, int n) { memcpy(r->data, d, n); uint16_t c = calculate_CRC(r->data, n); r->data[n] = c & 255; r->data[n + 1] = c >> 8; r->len = n + 2; }
static void start(void) { poll(1); mtx(); poll(1); }   /* IDLE -> request sent -> waiting */
static void deliver(const uint8_t *d, int n) { put(mrx, d, n); m15(); poll(1); m35(); poll(1); }
#define BAD(c) do { if (c) { printf("defect: %s\n", #c); exit(1); } } while (0)

int main(int argc, char **argv)
{
    const char *t = argc > 1 ? argv[1] : "";
    modbus_master_init(RTU, 9600, NONE);
    modbus_slave_init(RTU, 9600, NONE, 3);
    if (!strcmp(t, "leak")) {
        for (int i = 0; i < 10; i++) modbus_master_read_coils(0, 0, 3);
        BAD(modbus_master_read_coils(0, 1, 3) != MODBUS_MASTER_REQUEST_SEND_TO_QUEUE);
    } else if (!strcmp(t, "timeout_tick")) {
        modbus_master_read_coils(0, 1, 3); start();
        ticks(5000); poll(10);
        BAD(n_tmo != 1);
    } else if (!strcmp(t, "t15_t35_before_poll")) {
        modbus_master_read_holding_reg(0, 1, 3); start();
        const uint8_t f[] = {3, 3, 2, 0x12, 0x34};
        put(mrx, f, 5); m15(); m35(); poll(10); ticks(5000); poll(10);
        BAD(n_read + n_tmo + n_comm == 0);
    } else if (!strcmp(t, "master_tx_done_in_send")) {
        tx_done_inside_send = 1;
        modbus_master_read_coils(0, 1, 3); poll(5); ticks(5000); poll(5);
        ticks(1); poll(5);
        BAD(n_tmo + n_comm == 0);
    } else if (!strcmp(t, "slave_tx_done_in_send")) {
        tx_done_inside_send = 1;
        const uint8_t f[] = {3, 3, 0, 0, 0, 1};
        for (int i = 0; i < 2; i++) { put(srx, f, 6); s15(); check_modbus_request(); s35(); check_modbus_request(); check_modbus_request(); }
        BAD(ssends != 2);
    } else if (!strcmp(t, "early_response")) {   /* slave answers between two polls of the master */
        modbus_master_read_holding_reg(0, 1, 3); poll(1); mtx();
        const uint8_t f[] = {3, 3, 2, 0x12, 0x34};
        put(mrx, f, 5); poll(1); m15(); poll(1); m35(); poll(2);
        BAD(n_read != 1 || last_val != 0x1234);
    } else if (!strcmp(t, "resp_fc")) {          /* a confirmation for another function */
        modbus_reg_t r[2] = {1, 2};
        modbus_master_write_multiple_reg(0, 2, 3, r); start();
        const uint8_t f[] = {3, 3, 4, 0, 1, 0, 2};
        deliver(f, 7);
        BAD(n_write != 0);
    } else if (!strcmp(t, "exc_fc")) {           /* an exception for another function */
        modbus_master_read_holding_reg(0, 2, 3); start();
        const uint8_t f[] = {3, 0x81, 2};
        deliver(f, 3);
        BAD(n_exc != 0);
    } else if (!strcmp(t, "byte_count")) {
        modbus_master_read_holding_reg(0, 10, 3); start();
        const uint8_t f[] = {3, 3, 2, 0x12, 0x34};
        deliver(f, 5);
        BAD(n_read != 0);
    } else if (!strcmp(t, "resp_len")) {
        modbus_master_read_holding_reg(0, 10, 3); start();
        const uint8_t f[] = {3, 3, 20};
        deliver(f, 3);
        BAD(n_read != 0);
    } else if (!strcmp(t, "write_echo")) {
        modbus_master_write_single_reg(5, 3, 0x1234); start();
        const uint8_t f[] = {3, 6, 0, 9, 0x55, 0x55};
        deliver(f, 6);
        BAD(n_write != 0);
    } else if (!strcmp(t, "silent_drop")) {      /* CRC-valid response nobody can use: the request must not vanish */
        modbus_master_read_holding_reg(0, 1, 3);
        const uint8_t f[] = {3, 0x91, 2};
        for (int i = 0; i < 8; i++) { poll(1); mtx(); poll(1); deliver(f, 3); }
        BAD(n_read + n_exc + n_tmo + n_comm == 0);
    } else if (!strcmp(t, "stale_frame_error")) {
        modbus_master_read_holding_reg(0, 1, 3); start();
        mfe(); ticks(999); poll(1);              /* noise, then nothing: timeout */
        BAD(n_tmo != 1);
        modbus_master_read_holding_reg(0, 1, 3); start();
        const uint8_t f[] = {3, 3, 2, 0x12, 0x34};
        deliver(f, 5);
        BAD(n_read != 1);
    } else if (!strcmp(t, "timeout_report_fc")) {
        modbus_master_write_single_reg(5, 3, 0x1234); start(); ticks(999); poll(1);
        BAD(n_tmo != 1 || last_err.fun_conde != 6 || last_err.data_adr != 5 || last_err.slave_ID != 3);
    } else if (!strcmp(t, "comm_report")) {
        modbus_master_read_holding_reg(0x77, 3, 3);
        for (int i = 0; i < 4; i++) { start(); const uint8_t f[] = {3, 0x44, 2}; put(mrx, f, 3); mrx->data[4] ^= 1; m15(); poll(1); m35(); poll(1); }
        BAD(n_comm != 1 || last_err.fun_conde != 3 || last_err.data_adr != 0x77 || last_err.data_qty != 3);
    } else if (!strcmp(t, "single_write_qty")) {
        modbus_master_write_single_reg(5, 3, 0x1234); start();
        const uint8_t f[] = {3, 0x86, 2};
        deliver(f, 3);
        BAD(n_exc != 1 || last_exc.data_qty != 1);
    } else if (!strcmp(t, "slave_short_frame")) {   /* a truncated write, CRC valid: nothing may be written from stale bytes */
        static modbus_reg_t regs[4];
        for (int i = 0; i < 4; i++) register_app_data_to_modbus_slave_hreg_table(i, &regs[i]);
        memset(srx->data, 0xAB, 256);
        const uint8_t f[] = {3, 0x10, 0, 0, 0, 2, 4};
        memset(srx->data + 7, 0xAB, 200);
        put(srx, f, 7); s15(); check_modbus_request(); s35(); check_modbus_request();
        BAD(regs[0] != 0 || regs[1] != 0);
    } else if (!strcmp(t, "slave_deaf")) {          /* noise on the bus while a request waits for its end: later requests must still be served */
        const uint8_t f[] = {3, 3, 0, 0, 0, 1};
        put(srx, f, 6); s15(); check_modbus_request(); s15(); s35(); check_modbus_request(); stx(); check_modbus_request();
        int before = ssends;
        for (int i = 0; i < 5; i++) {
            check_modbus_request(); put(srx, f, 6); s15(); check_modbus_request(); s35(); check_modbus_request(); stx(); check_modbus_request();
        }
        BAD(before != 1 || ssends != 6);
    } else if (!strcmp(t, "slave_old_t35")) {       /* noise while the slave answers; then a frame with a framing error before its T3.5 */
        const uint8_t f[] = {3, 3, 0, 0, 0, 1};
        put(srx, f, 6); s15(); check_modbus_request(); s35(); check_modbus_request();
        s15(); stx(); check_modbus_request(); s35();   /* the 1.5 char time of the noise is dropped, the 3.5 char time comes after */
        int before = ssends;
        put(srx, f, 6); s15(); check_modbus_request(); check_modbus_request();
        BAD(ssends != before);                         /* answered although the frame is not over */
        sfe(); s35(); check_modbus_request();
        BAD(ssends != before);
    } else if (!strcmp(t, "master_old_t35")) {
        modbus_master_read_holding_reg(0, 1, 3); start();
        const uint8_t o[] = {9, 3, 2, 0, 0}, f[] = {3, 3, 2, 0x12, 0x34};
        put(mrx, o, 5); m15(); poll(1); m35(); poll(1);   /* a response of another slave */
        put(mrx, f, 5); m15(); poll(2);
        BAD(n_read != 0);                                 /* used although the frame is not over */
        mfe(); m35(); poll(1);
        BAD(n_read != 0);
    } else if (!strcmp(t, "slave_init_again")) {      /* an application that starts the slave again while a frame is coming in */
        const uint8_t o[] = {3, 3, 0}, f[] = {3, 3, 0, 0, 0, 1};
        for (int i = 0; i < 3; i++) srx->data[srx->len++] = o[i];
        modbus_slave_init(RTU, 9600, NONE, 3);
        uint8_t whole[8];
        modbus_req_resp_t m = {.data = whole};
        put(&m, f, 6);
        int before = ssends;
        for (int i = 0; i < 8; i++) srx->data[srx->len++] = whole[i];
        s15(); check_modbus_request(); s35(); check_modbus_request();
        BAD(ssends != before + 1);
    } else { printf("unknown case\n"); return 2; }
    return 0;
}
