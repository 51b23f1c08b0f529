From 4cbae1fb8f410f031c9ac5cc40b5c65395f31d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 01/20] fix: return the message buffer to the free queue when a
 master request is rejected

---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From c0e1896c5f81cf1dba5b4c7b6bbde98f28282907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:43 +0000
Subject: [PATCH 02/20] fix: detect the master response timeout also when the
 timer runs down to 0 between two polls

---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..9752e8f 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -683,7 +683,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` is 1 or has already run down to 0, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -693,7 +693,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From 470705c37e9941cb913987bc8f3c13f63b3326ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 03/20] fix: set the master transmission flag before the driver
 starts sending so that tx-done is never lost

---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 9752e8f..bcfeb77 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,9 +401,9 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
-    MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
 }
 
-- 
2.43.0


From ca47685043d6d731cee394b900eb6622390699b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 04/20] fix: set the slave transmission flag before the driver
 starts sending so that tx-done is never lost

---
 src/modbus_slave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..a793970 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,8 +194,8 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
-        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
+        slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
-- 
2.43.0


From fb1ba80da17cf9be2ea1abcc51d677ddbd8247a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:46 +0000
Subject: [PATCH 05/20] fix: empty the master receive buffer before sending,
 not after, so that an early response is not truncated

---
 src/modbus_master.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index bcfeb77..3f814cf 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -401,6 +401,7 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
+    msg_buf->resp.len = 0;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
@@ -670,7 +671,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 64e97cf88b4c0784c8d845326f06233442bd1a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 06/20] fix: keep the 3.5 char flag of a response when 1.5 and
 3.5 char times expire before one master poll

---
 src/modbus_master.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 3f814cf..4da4ca0 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -402,6 +402,8 @@ void update_modbus_master_timout_timer(void)
 static void modbus_master_send_req_from_msg_buf(void)
 {
     msg_buf->resp.len = 0;
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
@@ -729,15 +731,15 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. The MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is kept, because
+ *   it may have been set before this call and it is not set again for the same response.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
  *   - Sets MODBUS_MASTER_RTU_CRC_ERROR_FLAG to indicate a CRC error occurred.
  *   - Updates modbus_master_manager_state_machine to MODBUS_MASTER_RESP_RECIVED.
  * - If RTU_status indicates an invalid slave ID (RET_ERROR_SLAVE_ID):
- *   - Resets the response length (msg_buf->resp.len) to 0.
+ *   - Resets the response length (msg_buf->resp.len) to 0 and the MODBUS_MASTER_TIMER_3_5_CHAR_FLAG.
  * - If RTU_status is successful (RET_OK):
  *   - Disables the Modbus response timeout timer.
  *   - Updates modbus_master_manager_state_machine to MODBUS_MASTER_RESP_RECIVED.
@@ -747,7 +749,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
@@ -758,6 +759,7 @@ static void modbus_master_RTU_recv_state_handle(void)
     else if (RET_ERROR_SLAVE_ID == RTU_status)
     {
         msg_buf->resp.len = 0;
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else // RET_OK
     {
-- 
2.43.0


From cd114429f0966c0f31cffe420aa03efeeb9b49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 07/20] fix: clear frame and CRC error flags left over from an
 earlier master request before sending the next one

---
 src/modbus_master.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 4da4ca0..f547a81 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -394,6 +394,8 @@ void update_modbus_master_timout_timer(void)
  * @brief Sends the Modbus request from the message buffer.
  *
  * This function sends the Modbus request stored in `msg_buf` using the RTU driver.
+ * Before sending it discards everything left over from earlier transmissions (received bytes, expired
+ * char times, frame and CRC errors), so that the outcome depends only on the response to this request.
  * It sets up the RTU driver to receive the response, updates the transmission flag,
  * and transitions the state machine to the transmitting request state.
  *
@@ -404,6 +406,8 @@ static void modbus_master_send_req_from_msg_buf(void)
     msg_buf->resp.len = 0;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
     RTU_driver->enable_rcev(&msg_buf->resp);
-- 
2.43.0


From 53cf8ffa94826f66e39a0282da4dbbadc6d51611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 08/20] fix: do not process a response whose function code is
 not the one requested by the master

---
 src/master_internall/modbus_master_PDU.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..08add6f 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -47,6 +47,7 @@ static void update_holding_reg_from_modbus_msg(modbus_data_qty_t data_qty, const
 static modbus_ret_t report_write_operation_confirmation(const modbus_req_resp_t *resp, const modbus_req_resp_t *req);
 static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg);
 
+static modbus_ret_t check_resp_fun_code_correctness(const modbus_msg_t *modbus_msg);
 static bool modbus_response_contain_exception_code(const modbus_msg_t *modbus_msg);
 static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg);
 static modbus_ret_t send_exception_code_report_data(modbus_read_data_t *ex_code_data);
@@ -345,6 +346,11 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
         return RET_NULL_PTR_ERROR;
     }
 
+    if (RET_OK != check_resp_fun_code_correctness(modbus_msg))
+    {
+        return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+    }
+
     if (modbus_response_contain_exception_code(modbus_msg))
     {
 
@@ -738,6 +744,21 @@ static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg)
     }
 }
 
+/**
+ * @brief Checks that a response answers the request it is processed for.
+ *
+ * The function code of the response, without the exception bit, has to be the function code of the request.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure containing the request and the response.
+ * @return RET_OK if the function codes match, otherwise RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH.
+ */
+static modbus_ret_t check_resp_fun_code_correctness(const modbus_msg_t *modbus_msg)
+{
+    modbus_req_t req_fun_code = modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX];
+    modbus_req_t resp_fun_code = modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK);
+    return (req_fun_code == resp_fun_code) ? RET_OK : RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+}
+
 /**
  * @brief Checks if the Modbus response message contains an exception code.
  *
-- 
2.43.0


From 610580d6b285cdefb63096153aa8c3cea2a8fda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 09/20] fix: do not process a response that is shorter or
 longer than the data requested by the master

---
 src/common/modbus_type.h                 |  3 ++
 src/master_internall/modbus_master_PDU.c | 41 ++++++++++++++++++++++++
 src/modbus_master.c                      |  1 +
 3 files changed, 45 insertions(+)

diff --git a/src/common/modbus_type.h b/src/common/modbus_type.h
index 46190c6..882899a 100644
--- a/src/common/modbus_type.h
+++ b/src/common/modbus_type.h
@@ -35,6 +35,9 @@ extern "C"
 /// Maximum length of Modbus PDU
 #define MODBUS_PDU_MAX_LEN 253U
 
+/// Length of the CRC at the end of a Modbus RTU frame
+#define MODBUS_RTU_CRC_LEN 2U
+
 /// Maximum allowed specific data items quantity
 #define MODBUS_MAX_SPECIFIC_DATA_ITEMS_QTY  65535U 
 
diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index 08add6f..572c226 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -48,6 +48,7 @@ static modbus_ret_t report_write_operation_confirmation(const modbus_req_resp_t
 static modbus_ret_t check_null_ptr_correctness(const modbus_msg_t *modbus_msg);
 
 static modbus_ret_t check_resp_fun_code_correctness(const modbus_msg_t *modbus_msg);
+static modbus_ret_t check_resp_len_correctness(const modbus_msg_t *modbus_msg);
 static bool modbus_response_contain_exception_code(const modbus_msg_t *modbus_msg);
 static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg);
 static modbus_ret_t send_exception_code_report_data(modbus_read_data_t *ex_code_data);
@@ -351,6 +352,11 @@ modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg)
         return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
     }
 
+    if (RET_OK != check_resp_len_correctness(modbus_msg))
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+
     if (modbus_response_contain_exception_code(modbus_msg))
     {
 
@@ -759,6 +765,41 @@ static modbus_ret_t check_resp_fun_code_correctness(const modbus_msg_t *modbus_m
     return (req_fun_code == resp_fun_code) ? RET_OK : RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
 }
 
+/**
+ * @brief Checks that a response has the length and, for a read, the byte count its request asks for.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure containing the request and the response.
+ * @return RET_OK if the response is complete, otherwise RET_ERROR_BYTE_CNT.
+ */
+static modbus_ret_t check_resp_len_correctness(const modbus_msg_t *modbus_msg)
+{
+    modbus_data_qty_t data_qty = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    modbus_data_qty_t byte_cnt;
+
+    if (modbus_response_contain_exception_code(modbus_msg))
+    {
+        return (MODBUS_EXCEPTION_CODE_RESP_LEN == modbus_msg->resp.len) ? RET_OK : RET_ERROR_BYTE_CNT;
+    }
+    switch (modbus_msg->req.data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        byte_cnt = get_coil_din_byte_count(data_qty);
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_cnt = data_qty * 2;
+        break;
+    default:
+        return (MODBUS_WRITE_SINGLE_RESP_LEN == modbus_msg->resp.len) ? RET_OK : RET_ERROR_BYTE_CNT;
+    }
+    if ((byte_cnt != modbus_msg->resp.data[MODBUS_RESP_READ_BYTE_CNT_IDX]) || ((MODBUS_READ_RESP_LEN + byte_cnt) != modbus_msg->resp.len))
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    return RET_OK;
+}
+
 /**
  * @brief Checks if the Modbus response message contains an exception code.
  *
diff --git a/src/modbus_master.c b/src/modbus_master.c
index f547a81..915fc16 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -767,6 +767,7 @@ static void modbus_master_RTU_recv_state_handle(void)
     }
     else // RET_OK
     {
+        msg_buf->resp.len -= MODBUS_RTU_CRC_LEN; // from here on it is the PDU that is processed
         modbus_master_disable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_RECIVED;
     }
-- 
2.43.0


From 3ffa969dc71b6a458d66fc88a62605a955c4d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 10/20] fix: do not confirm a write when the response does not
 echo what the master wrote

---
 src/master_internall/modbus_master_PDU.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index 572c226..9484bc9 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -696,12 +696,20 @@ static void update_holding_reg_from_modbus_msg(modbus_data_qty_t data_qty, const
  * @param[in] req Pointer to the Modbus request structure containing the request data.
  *
  * @retval RET_OK Indicates that the write operation confirmation was successfully reported.
+ * @retval RET_ERROR Indicates that the response does not echo the written address and value (or quantity).
  */
 static modbus_ret_t report_write_operation_confirmation(const modbus_req_resp_t *resp, const modbus_req_resp_t *req)
 {
     modbus_device_ID_t slave_adr = resp->data[MODBUS_SLAVE_ADR_IDX];
     modbus_adr_t data_adr = read_u16_from_buf(req->data + MODBUS_REQUEST_ADR_IDX);
     modbus_fun_code_t resp_fun_code = resp->data[MODBUS_FUNCTION_CODE_IDX];
+
+    // address and value (or quantity) of a write are echoed by the slave
+    if ((data_adr != read_u16_from_buf(&resp->data[MODBUS_RESP_WRITE_ADR_IDX])) ||
+        (read_u16_from_buf(&req->data[MODBUS_REQUEST_QTY_IDX]) != read_u16_from_buf(&resp->data[MODBUS_RESP_WRITE_SINGLE_DATA_IDX])))
+    {
+        return RET_ERROR;
+    }
     if ((MODBUS_WRITE_SINGLE_COIL_FUNC_CODE == resp_fun_code))
     {
         modbus_master_coil_write(slave_adr, data_adr, 1);
-- 
2.43.0


From 24a821cd1f4bf09948e06273b5858510c38c12c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 11/20] fix: repeat or report a master request whose response
 cannot be used instead of dropping it silently

---
 src/modbus_master.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 915fc16..8cb26e8 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -813,14 +813,21 @@ static void modbus_master_resp_recived_state_handling(void)
  *
  * This function is invoked when a Modbus response message is received correctly
  * without any frame or CRC errors. It calls `modbus_master_read_slave_resp` to
- * process the received response stored in `msg_buf`. After processing, it finalizes
+ * process the received response stored in `msg_buf`. A response that does not answer the request is
+ * handled like a frame error. After processing, it finalizes
  * the message handling by calling `modbus_master_msg_process_end` to push the message
  * buffer back to the free queue and transition the state machine to idle state (`MODBUS_MASTER_IDLE`).
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
-    modbus_master_read_slave_resp(msg_buf);
-    modbus_master_msg_process_end();
+    if (RET_OK == modbus_master_read_slave_resp(msg_buf))
+    {
+        modbus_master_msg_process_end();
+    }
+    else
+    {
+        modbus_master_frame_error_state_handling();
+    }
 }
 
 /**
-- 
2.43.0


From ba94a85f2c75c2195605897058089c62d2aa2c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 12/20] fix: report one object, not the written value, as the
 quantity of a single write that failed

---
 src/master_internall/modbus_master_PDU.c | 20 +++++++++++++++++++-
 src/master_internall/modbus_master_PDU.h |  1 +
 src/modbus_master.c                      |  2 +-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index 9484bc9..dc67a53 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -326,6 +326,24 @@ modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_i
     return RET_OK;
 }
 
+/**
+ * @brief Gets the quantity of coils or registers a request refers to.
+ *
+ * Single write requests carry the value to write in place of a quantity, they refer to one object.
+ *
+ * @param req Pointer to the Modbus request structure.
+ * @return The quantity of coils or registers to read or write.
+ */
+modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req)
+{
+    modbus_req_t req_fun_code = req->data[MODBUS_FUNCTION_CODE_IDX];
+    if ((MODBUS_WRITE_SINGLE_COIL_FUNC_CODE == req_fun_code) || (MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE == req_fun_code))
+    {
+        return 1;
+    }
+    return read_u16_from_buf(&req->data[MODBUS_REQUEST_QTY_IDX]);
+}
+
 /**
  * @brief Processes the Modbus message response.
  *
@@ -848,7 +866,7 @@ static modbus_ret_t process_modbus_exception_code(modbus_msg_t *modbus_msg)
     resp.fun_conde = (modbus_msg->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
     resp.exception_code = modbus_msg->resp.data[MODBUS_RESP_EXCEPTION_CODE_IDX];
     resp.data_adr = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_ADR_IDX]);
-    resp.data_qty = read_u16_from_buf(&modbus_msg->req.data[MODBUS_REQUEST_QTY_IDX]);
+    resp.data_qty = modbus_master_get_req_data_qty(&modbus_msg->req);
     send_exception_code_report_data(&resp);
     return status;
 }
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 3518c1c..a2f775f 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -34,6 +34,7 @@ extern "C"
     modbus_ret_t modbus_master_write_multiple_reg_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
     modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
 
+    modbus_data_qty_t modbus_master_get_req_data_qty(const modbus_req_resp_t *req);
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
 
 #ifdef __cplusplus
diff --git a/src/modbus_master.c b/src/modbus_master.c
index 8cb26e8..69454ed 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -725,7 +725,7 @@ void modbus_master_resp_timeout_handle(void)
     modbus_master_error_report_t timeout_error;
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
-    timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
+    timeout_error.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
     timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
-- 
2.43.0


From c0d437ca6261b2e5e477f90dbf9534dbd8f4193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 13/20] fix: report the function code of the request, not of an
 older response, on a master response timeout

---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 69454ed..7b4fe12 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -716,7 +716,7 @@ static void modbus_master_resp_waiting_state_handling(void)
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
  *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `fun_conde`: Function code from the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
@@ -726,7 +726,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
-- 
2.43.0


From 26bc51c35fdfc06cb45e76d80a215cc3097ec81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/20] fix: report the failed request, not bytes of its
 damaged response, on a master CRC or frame error

---
 src/modbus_master.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 7b4fe12..5782943 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -857,8 +857,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -892,8 +894,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = modbus_master_get_req_data_qty(&msg_buf->req);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From b78f1e16ce66dc45f8377ef51b259da13db76105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 15/20] fix: do not process a slave request that is shorter or
 longer than its function code and byte count say

---
 src/modbus_slave.c                     |  2 +-
 src/slave_internall/modbus_slave_PDU.c | 39 ++++++++++++++++++++++++++
 src/slave_internall/modbus_slave_PDU.h |  1 +
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a793970..ac945bd 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -166,7 +166,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (RET_OK != check_master_request_len(&slave_msg_ptr->req, slave_msg_ptr->req.len - MODBUS_RTU_CRC_LEN)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
diff --git a/src/slave_internall/modbus_slave_PDU.c b/src/slave_internall/modbus_slave_PDU.c
index 0526dd7..3b1cf56 100644
--- a/src/slave_internall/modbus_slave_PDU.c
+++ b/src/slave_internall/modbus_slave_PDU.c
@@ -54,6 +54,45 @@ static const modbus_function_mapper_t modbus_slave_function_mapper[] = {
 
 #define MODBUS_SLAVE_FUNCTION_MAPPER_SIZE (sizeof(modbus_slave_function_mapper) / sizeof(modbus_slave_function_mapper[0]));
 
+/**
+ * @brief Checks that a received request is as long as its function code and byte count say.
+ *
+ * A shorter request would be completed with bytes of an earlier one. Requests with an unsupported
+ * function code may have any length, because they are only answered with an exception code.
+ *
+ * @param[in] req Pointer to the received request.
+ * @param[in] pdu_len Length of the received request without CRC.
+ * @return RET_OK if the length is correct, otherwise RET_ERROR_BYTE_CNT.
+ */
+modbus_ret_t check_master_request_len(const modbus_req_resp_t *req, modbus_buf_size_t pdu_len)
+{
+    uint16_t expected_len;
+
+    if (pdu_len <= MODBUS_FUNCTION_CODE_IDX)
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+    case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+        expected_len = MODBUS_READ_REQUEST_LEN;
+        break;
+    case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+    case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+        expected_len = MODBUS_WRITE_MULTI_REQUEST_LEN + req->data[MODBUS_REQUEST_BYTE_CNT_IDX];
+        break;
+    default:
+        expected_len = pdu_len;
+        break;
+    }
+    return (expected_len == pdu_len) ? RET_OK : RET_ERROR_BYTE_CNT;
+}
+
 /**
  * @brief Parses the Modbus master request and prepares the response.
  *
diff --git a/src/slave_internall/modbus_slave_PDU.h b/src/slave_internall/modbus_slave_PDU.h
index c8c15c5..3e69309 100644
--- a/src/slave_internall/modbus_slave_PDU.h
+++ b/src/slave_internall/modbus_slave_PDU.h
@@ -34,6 +34,7 @@ extern "C"
 #endif /* __cplusplus */
 #include "modbus_slave_data.h"
 
+    modbus_ret_t check_master_request_len(const modbus_req_resp_t *req, modbus_buf_size_t pdu_len);
     modbus_ret_t parse_master_request_and_prepare_resp(modbus_msg_t *rx_msg);
 
 #ifdef __cplusplus
-- 
2.43.0


From 3453bc887c8be33b98796fb8f40f41a02f41fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 16/20] fix: drop the char time and frame error events of bytes
 the slave discards

A t1.5 event that arrived while a request waited for its end or was being answered stayed set
while its bytes were dropped. The slave then took the empty buffer as a frame, discarded every
following request together with it, and never answered again.
---
 src/modbus_slave.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index ac945bd..4405a30 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -179,7 +179,8 @@ static void handle_modbus_slave_idle_state(void)
  *
  * This function handles the Modbus slave state machine when it is in the message received state.
  * It checks for frame errors and the expiration of the 3.5 character time before preparing
- * and transmitting the Modbus response message.
+ * and transmitting the Modbus response message. With a frame that is discarded, the events recorded for
+ * its bytes are dropped as well.
  */
 static void handle_modbus_slave_msg_recived_state(void)
 {
@@ -188,6 +189,7 @@ static void handle_modbus_slave_msg_recived_state(void)
         slave_msg_ptr->req.len = 0;
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
@@ -210,6 +212,7 @@ static void handle_modbus_slave_msg_recived_state(void)
  *
  * This function handles the Modbus slave state machine when it is in the transmitting response state.
  * It checks for the completion of response transmission before transitioning back to the idle state.
+ * Bytes that came in before that point are discarded, and so are the events recorded for them.
  */
 static void handle_modbus_slave_transmitting_resp_state(void)
 {
@@ -218,6 +221,9 @@ static void handle_modbus_slave_transmitting_resp_state(void)
         slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
         slave_msg_ptr->req.len = 0;
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     }
 }
 
-- 
2.43.0


From 736473ef9792a6e5e609843dbc70442bc47e15f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 17/20] fix: slave answers a frame before the 3.5 character
 time after it when an older one is still recorded

---
 src/modbus_slave.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 4405a30..de1d977 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -339,11 +339,13 @@ static void modbus_resp_send_callback(void)
  * @brief Modbus T_1_5 character time expired callback function.
  *
  * This function serves as a callback handler when the T_1_5 character time has expired in Modbus communication.
- * It sets the timer flag to initiate the reception of Modbus messages.
+ * It sets the timer flag to initiate the reception of Modbus messages. A 3.5 character time that expired before belongs to
+ * earlier bytes, so it is dropped.
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
 
 /**
-- 
2.43.0


From 2bb571e741d7d3daee7cea1983561d53276fa5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 18/20] fix: master uses a response before the 3.5 character
 time after it when one of another device is still recorded

---
 src/modbus_master.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 5782943..b57a5b3 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -587,7 +587,8 @@ static void modbus_master_req_sended_callback(void)
  *
  * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET`.
  * It serves as a callback function used to indicate that the 1.5 character timeout period
- * has expired during Modbus communication.
+ * has expired during Modbus communication. A 3.5 character time that expired before belongs to
+ * an earlier frame (of another device), so it is dropped.
  *
  * @note This function is typically registered with a timer or scheduler to handle the timeout
  * condition required by the Modbus protocol for communication synchronization.
@@ -595,6 +596,7 @@ static void modbus_master_req_sended_callback(void)
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
 }
 
 /**
-- 
2.43.0


From a194f21c90be576dd9d0fe3e298be2127cee226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:32 +0000
Subject: [PATCH 19/20] fix: initialise the slave with empty request and
 response buffers, also when it was running

---
 src/modbus_slave.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index de1d977..588d40a 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -248,7 +248,8 @@ static void handle_modbus_slave_default_state(void)
  * @brief Initializes Modbus data buffers and queues based on the specified mode.
  *
  * This function initializes Modbus data buffers and queues based on the specified mode (e.g., RTU).
- * It registers request and response data buffers to be used for Modbus communication.
+ * It registers request and response data buffers to be used for Modbus communication. Both are empty afterwards, also
+ * when the slave was running before.
  *
  * @param mode Modbus mode (e.g., RTU).
  */
@@ -256,6 +257,8 @@ static void init_modbus_data_buffers_and_queues(modbus_mode_t mode)
 {
     register_msg_req_resp_data_buffers(mode);
     slave_msg_ptr = &slave_msg;
+    slave_msg_ptr->req.len = 0;
+    slave_msg_ptr->resp.len = 0;
 }
 
 /**
-- 
2.43.0


From b071f20d1c01574d6780e48909547e0e1e16e454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:53 +0000
Subject: [PATCH 20/20] fix: range check must not wrap where int has 16 bits

On targets with a 16 bit int (AVR) adr + data_qty is computed modulo 65536, so
a request for one object at address 65535 passed the check and the slave read
or wrote far outside its tables.
---
 src/slave_internall/modbus_slave_PDU.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/slave_internall/modbus_slave_PDU.c b/src/slave_internall/modbus_slave_PDU.c
index 3b1cf56..570d859 100644
--- a/src/slave_internall/modbus_slave_PDU.c
+++ b/src/slave_internall/modbus_slave_PDU.c
@@ -719,7 +719,7 @@ static modbus_ret_t check_read_req_data_correcntess(modbus_msg_t *modbus_msg, mo
         set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_VALUE_ERROR);
         status = RET_ERROR;
     }
-    else if (((adr + data_qty) > app_data_qty))
+    else if ((data_qty > app_data_qty) || (adr > (app_data_qty - data_qty)))
     {
         set_exception_code_resp(modbus_msg, MODBUS_ILLEGAL_DATA_ADDRESS_ERROR);
         status = RET_ERROR;
-- 
2.43.0

