From d5fd391bd51aba853f6f487efadc6ba222ab22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/57] fix: mbus_frame_verify reports a valid acknowledge as
 valid

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 697d1a8..0d7cc4b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -352,7 +352,7 @@ mbus_frame_verify(mbus_frame *frame)
         switch (frame->type)
         {
             case MBUS_FRAME_TYPE_ACK:
-                return frame->start1 == MBUS_FRAME_ACK_START;
+                return (frame->start1 == MBUS_FRAME_ACK_START) ? 0 : -1;
 
             case MBUS_FRAME_TYPE_SHORT:
                 if(frame->start1 != MBUS_FRAME_SHORT_START)
-- 
2.43.0


From 903d74fc14321e0fded5b7971b38697abb860b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 02/57] fix: mbus_frame_pack refuses more data than a frame can
 hold

---
 mbus/mbus-protocol.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0d7cc4b..e87d82b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4096,6 +4096,11 @@ mbus_frame_pack(mbus_frame *frame, unsigned char *data, size_t data_size)
 
     if (frame && data)
     {
+        if (frame->type == MBUS_FRAME_TYPE_LONG && frame->data_size > MBUS_FRAME_DATA_LENGTH)
+        {
+            return -2;
+        }
+
         if (mbus_frame_calc_length(frame) == -1)
         {
             return -2;
-- 
2.43.0


From 289d24534c8c40147d25748baf404754601cf984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 03/57] fix: sending fails if the frame cannot be packed for
 any reason

---
 mbus/mbus-serial.c | 2 +-
 mbus/mbus-tcp.c    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 5a2a3f3..64b662e 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -242,7 +242,7 @@ mbus_serial_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         fprintf(stderr, "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         return -1;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index da7e475..bfc84b8 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -159,7 +159,7 @@ mbus_tcp_send_frame(mbus_handle *handle, mbus_frame *frame)
         return -1;
     }
 
-    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) == -1)
+    if ((len = mbus_frame_pack(frame, buff, sizeof(buff))) < 0)
     {
         snprintf(error_str, sizeof(error_str), "%s: mbus_frame_pack failed\n", __PRETTY_FUNCTION__);
         mbus_error_str_set(error_str);
-- 
2.43.0


From ea54a575271b997b9ae80cacd8599e9f1d604137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 04/57] fix: mbus_send_frame without a handle is an error

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccf4798..b65e032 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1738,7 +1738,7 @@ mbus_send_frame(mbus_handle * handle, mbus_frame *frame)
     if (handle == NULL)
     {
         MBUS_ERROR("%s: Invalid M-Bus handle for send.\n", __PRETTY_FUNCTION__);
-        return 0;
+        return -1;
     }
 
     return handle->send(handle, frame);
-- 
2.43.0


From 01cc27e3c0ea30c449a9be9bf5e846b68773ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 05/57] fix: mbus_recv_frame purges only frames that were
 received

---
 mbus/mbus-protocol-aux.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index b65e032..5c0e522 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1690,16 +1690,20 @@ mbus_recv_frame(mbus_handle * handle, mbus_frame *frame)
 
     result = handle->recv(handle, frame);
 
-    switch (mbus_frame_direction(frame))
+    // the direction is only known if a frame was received
+    if (result == MBUS_RECV_RESULT_OK)
     {
-        case MBUS_CONTROL_MASK_DIR_M2S:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
-        case MBUS_CONTROL_MASK_DIR_S2M:
-            if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
-                result = handle->recv(handle, frame);  // purge echo and retry
-            break;
+        switch (mbus_frame_direction(frame))
+        {
+            case MBUS_CONTROL_MASK_DIR_M2S:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_M2S)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+            case MBUS_CONTROL_MASK_DIR_S2M:
+                if (handle->purge_first_frame == MBUS_FRAME_PURGE_S2M)
+                    result = handle->recv(handle, frame);  // purge echo and retry
+                break;
+        }
     }
 
     if (frame != NULL)
-- 
2.43.0


From 3e2e68349edeb4f615c7e8e26f797a6beda0796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 06/57] fix: a new primary address must be 0 to 250

---
 bin/mbus-serial-set-address.c |  9 +++------
 mbus/mbus-protocol-aux.c      | 10 ++++------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 2ec493c..5290801 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -99,13 +99,10 @@ main(int argc, char **argv)
         return -1;
     }
 
-    switch (new_address)
+    if (new_address > MBUS_MAX_PRIMARY_SLAVES)
     {
-        case MBUS_ADDRESS_NETWORK_LAYER:
-        case MBUS_ADDRESS_BROADCAST_REPLY:
-        case MBUS_ADDRESS_BROADCAST_NOREPLY:
-            fprintf(stderr, "Invalid new primary address\n");
-            return -1;
+        fprintf(stderr, "Invalid new primary address\n");
+        return -1;
     }
 
     if ((handle = mbus_context_serial(device)) == NULL)
diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 5c0e522..447061e 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2005,13 +2005,11 @@ mbus_set_primary_address(mbus_handle * handle, int old_address, int new_address)
         return -1;
     }
 
-    switch (new_address)
+    /* special addresses and reserved ones cannot be given to a slave */
+    if (new_address > MBUS_MAX_PRIMARY_SLAVES)
     {
-        case MBUS_ADDRESS_NETWORK_LAYER:
-        case MBUS_ADDRESS_BROADCAST_REPLY:
-        case MBUS_ADDRESS_BROADCAST_NOREPLY:
-            MBUS_ERROR("%s: invalid address %d\n", __PRETTY_FUNCTION__, new_address);
-            return -1;
+        MBUS_ERROR("%s: invalid address %d\n", __PRETTY_FUNCTION__, new_address);
+        return -1;
     }
 
     return mbus_send_user_data_frame(handle, old_address, buffer, sizeof(buffer));
-- 
2.43.0


From 2451665a99a755788e3f2bfa6c4a202aa2035418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 07/57] fix: hexadecimal digits in the identification number of
 a secondary address

---
 mbus/mbus-protocol.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index e87d82b..880cd7f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5286,7 +5286,8 @@ mbus_frame_select_secondary_pack(mbus_frame *frame, char *address)
         }
         else
         {
-            frame->data[j] |= (0x0F & (address[i] - '0')) << (4 * k--);
+            tmp[0] = address[i]; tmp[1] = 0;
+            frame->data[j] |= (0x0F & strtol(tmp, NULL, 16)) << (4 * k--);
         }
 
         if (k < 0)
-- 
2.43.0


From a078c5da3f6095d8c814c76e3edc9464f2e0ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 08/57] fix: mbus_hex2bin accepts pairs of hexadecimal digits
 only

---
 mbus/mbus-protocol-aux.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 447061e..2cb6988 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2545,7 +2545,7 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
 {
     size_t i, result = 0;
     unsigned long val;
-    unsigned char *ptr, *end, buf[3];
+    unsigned char buf[3];
 
     if (!src || !dst)
     {
@@ -2564,14 +2564,12 @@ mbus_hex2bin(unsigned char * dst, size_t dst_len, const unsigned char * src, siz
         buf[0] = src[i];
         buf[1] = src[++i];
 
-        end = buf;
-        ptr = end;
-        val = strtoul(ptr, (char **)&end, 16);
-
         // abort at non hex value
-        if (ptr == end)
+        if (!isxdigit(buf[0]) || !isxdigit(buf[1]))
             break;
 
+        val = strtoul((const char *) buf, NULL, 16);
+
         // abort at end of buffer
         if (result >= dst_len)
             break;
-- 
2.43.0


From 4ba6fdbffe2c1dba4215ea68c4809b630d05c88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 09/57] fix: mbus_data_bcd_encode is the inverse of
 mbus_data_bcd_decode

---
 mbus/mbus-protocol.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 880cd7f..cd8795b 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -458,25 +458,27 @@ mbus_frame_verify(mbus_frame *frame)
 int
 mbus_data_bcd_encode(unsigned char *bcd_data, size_t bcd_data_size, int value)
 {
-    int v0, v1, v2, x1, x2;
+    long long v0, v1, v2, x1, x2;
     size_t i;
 
     if (bcd_data && bcd_data_size)
     {
-        v2 = abs(value);
+        v2 = llabs((long long) value);
 
         for (i = 0; i < bcd_data_size; i++)
         {
             v0 = v2;
-            v1 = (int)(v0 / 10);
-            v2 = (int)(v1 / 10);
+            v1 = v0 / 10;
+            v2 = v1 / 10;
 
             x1 = v0 - v1 * 10;
             x2 = v1 - v2 * 10;
 
-            bcd_data[bcd_data_size-1-i] = (x2 << 4) | x1;
+            // least significant digits first
+            bcd_data[i] = (x2 << 4) | x1;
         }
 
+        // hex code Fh in the MSD position signals a negative BCD number
         if (value < 0)
         {
             bcd_data[bcd_data_size-1] |= 0xF0;
-- 
2.43.0


From 0eea6ba1f7daf8de8ef473442c1e58098030b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 10/57] fix: mbus_data_int_encode extends the sign instead of
 shifting out of range

---
 mbus/mbus-protocol.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index cd8795b..9261c7e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -666,13 +666,14 @@ mbus_data_long_long_decode(unsigned char *int_data, size_t int_data_size, long l
 int
 mbus_data_int_encode(unsigned char *int_data, size_t int_data_size, int value)
 {
-    int i;
+    size_t i;
 
     if (int_data)
     {
         for (i = 0; i < int_data_size; i++)
         {
-            int_data[i] = (value>>(i*8)) & 0xFF;
+            // bytes beyond the size of an int repeat the sign
+            int_data[i] = (value>>(i < sizeof(value) ? i*8 : sizeof(value)*8-1)) & 0xFF;
         }
 
         return 0;
-- 
2.43.0


From 50787b04511f0fbff7f87359272cbe486361b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 11/57] fix: connecting fails if the serial line cannot be
 configured

---
 mbus/mbus-serial.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-serial.c b/mbus/mbus-serial.c
index 64b662e..bab3833 100755
--- a/mbus/mbus-serial.c
+++ b/mbus/mbus-serial.c
@@ -80,8 +80,13 @@ mbus_serial_connect(mbus_handle *handle)
 
     term->c_cc[VTIME] = (cc_t) 3; // Timeout in 1/10 sec
 
-    cfsetispeed(term, B2400);
-    cfsetospeed(term, B2400);
+    if (cfsetispeed(term, B2400) != 0 || cfsetospeed(term, B2400) != 0)
+    {
+        fprintf(stderr, "%s: failed to set the baud rate.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
 #ifdef MBUS_SERIAL_DEBUG
     printf("%s: t.c_cflag = %x\n", __PRETTY_FUNCTION__, term->c_cflag);
@@ -90,7 +95,13 @@ mbus_serial_connect(mbus_handle *handle)
     printf("%s: t.c_lflag = %x\n", __PRETTY_FUNCTION__, term->c_lflag);
 #endif
 
-    tcsetattr(handle->fd, TCSANOW, term);
+    if (tcsetattr(handle->fd, TCSANOW, term) != 0)
+    {
+        fprintf(stderr, "%s: failed to configure the tty.", __PRETTY_FUNCTION__);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 8174f5e9d9cae154f185f55c9fc7c01499e6debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 12/57] fix: connecting fails if the TCP time-out cannot be set

---
 mbus/mbus-tcp.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index bfc84b8..2cd4f87 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -93,8 +93,15 @@ mbus_tcp_connect(mbus_handle *handle)
     // Set a timeout
     time_out.tv_sec  = tcp_timeout_sec;   // seconds
     time_out.tv_usec = tcp_timeout_usec;  // microseconds
-    setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out));
-    setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out));
+    if (setsockopt(handle->fd, SOL_SOCKET, SO_SNDTIMEO, &time_out, sizeof(time_out)) != 0 ||
+        setsockopt(handle->fd, SOL_SOCKET, SO_RCVTIMEO, &time_out, sizeof(time_out)) != 0)
+    {
+        snprintf(error_str, sizeof(error_str), "%s: Failed to set the time-out", __PRETTY_FUNCTION__);
+        mbus_error_str_set(error_str);
+        close(handle->fd);
+        handle->fd = -1;
+        return -1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 504ad871892e38255d16cfed1e9a6dbf0db09b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 13/57] fix: a handle that is not connected has no descriptor

---
 mbus/mbus-protocol-aux.c | 2 ++
 mbus/mbus-tcp.c          | 1 +
 2 files changed, 3 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 2cb6988..e2444d5 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1525,6 +1525,7 @@ mbus_context_serial(const char *device)
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 1;
+    handle->fd = -1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = serial_data;
     handle->open = mbus_serial_connect;
@@ -1573,6 +1574,7 @@ mbus_context_tcp(const char *host, uint16_t port)
     handle->max_data_retry = 3;
     handle->max_search_retry = 1;
     handle->is_serial = 0;
+    handle->fd = -1;
     handle->purge_first_frame = MBUS_FRAME_PURGE_M2S;
     handle->auxdata = tcp_data;
     handle->open = mbus_tcp_connect;
diff --git a/mbus/mbus-tcp.c b/mbus/mbus-tcp.c
index 2cd4f87..0f2de9d 100755
--- a/mbus/mbus-tcp.c
+++ b/mbus/mbus-tcp.c
@@ -85,6 +85,7 @@ mbus_tcp_connect(mbus_handle *handle)
 
     if (p == NULL)
     {
+        handle->fd = -1;
         snprintf(error_str, sizeof(error_str), "%s: Failed to establish connection to %s:%s", __PRETTY_FUNCTION__, host, port);
         mbus_error_str_set(error_str);
         return -1;
-- 
2.43.0


From 60a62de7d5524d959ae1f653a669e0b5e2904195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 14/57] fix: mbus_sendrecv_request reads all frames if
 max_frames is 0

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index e2444d5..af5f01a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2142,7 +2142,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
             more_frames = 0;
 
             if (reply_data.data_var.more_records_follow &&
-                ((max_frames > 0) && (frame_count < max_frames))) // only readout max_frames
+                ((max_frames <= 0) || (frame_count < max_frames))) // only readout max_frames
             {
                 if (debug)
                     printf("%s: debug: expecting more frames\n", __PRETTY_FUNCTION__);
-- 
2.43.0


From e06b00f3cc685a0b149dc6c9c1e95790c737df49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:41 +0000
Subject: [PATCH 15/57] fix: an acknowledge does not keep the fields of an
 earlier frame

---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 9261c7e..c8344f3 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3617,6 +3617,12 @@ mbus_parse(mbus_frame *frame, unsigned char *data, size_t data_size)
                 // OK, got a valid ack frame, require no more data
                 frame->start1   = data[0];
                 frame->type = MBUS_FRAME_TYPE_ACK;
+
+                // an ack has no other fields, forget those of an earlier frame
+                frame->control = 0;
+                frame->address = 0;
+                frame->control_information = 0;
+                frame->data_size = 0;
                 return 0;
                 //return MBUS_FRAME_BASE_SIZE_ACK - 1; // == 0
 
-- 
2.43.0


From 462d968fdc27f9c04df29cd861bc75c739b1e79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 16/57] fix: mbus_sendrecv_request frees the records of every
 reply exactly once

---
 mbus/mbus-protocol-aux.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index af5f01a..29243ca 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2123,6 +2123,13 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             MBUS_ERROR("%s: M-bus data parse error.\n", __PRETTY_FUNCTION__);
             retval = 1;
+
+            // free's up the records that were read before the error
+            if (reply_data.data_var.record)
+            {
+                mbus_data_record_free(reply_data.data_var.record);
+            }
+
             break;
         }
 
@@ -2175,6 +2182,7 @@ mbus_sendrecv_request(mbus_handle *handle, int address, mbus_frame *reply, int m
         {
             // free's up the whole list
             mbus_data_record_free(reply_data.data_var.record);
+            reply_data.data_var.record = NULL;
         }
     }
 
-- 
2.43.0


From a6a2880f710bf2b2133c9372e7c179cf1836a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 17/57] fix: a link error while selecting or probing is
 reported as error

---
 mbus/mbus-protocol-aux.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 29243ca..425b7a3 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2272,6 +2272,12 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_COLLISION;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        MBUS_ERROR("%s: Failed to receive the reply for address [%s].\n", __PRETTY_FUNCTION__, mask);
+        return MBUS_PROBE_ERROR;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         /* check for more data (collision) */
@@ -2335,6 +2341,13 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
                 return MBUS_PROBE_COLLISION;
             }
 
+            if (ret != MBUS_RECV_RESULT_OK)
+            {
+                MBUS_ERROR("%s: Failed to receive the reply of the selected secondary device [mask %s].\n",
+                           __PRETTY_FUNCTION__, mask);
+                return MBUS_PROBE_ERROR;
+            }
+
             /* check for more data (collision) */
             if (mbus_purge_frames(handle))
             {
-- 
2.43.0


From ecf40257c1f9a29e6545f9461434aa9ecfb1c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 18/57] fix: more data after an unexpected reply to a selection
 is a collision

---
 mbus/mbus-protocol-aux.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 425b7a3..93d0bd9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2278,14 +2278,14 @@ mbus_select_secondary_address(mbus_handle * handle, const char *mask)
         return MBUS_PROBE_ERROR;
     }
 
-    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+    /* check for more data (collision) */
+    if (mbus_purge_frames(handle))
     {
-        /* check for more data (collision) */
-        if (mbus_purge_frames(handle))
-        {
-            return MBUS_PROBE_COLLISION;
-        }
+        return MBUS_PROBE_COLLISION;
+    }
 
+    if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+    {
         return MBUS_PROBE_SINGLE;
     }
 
-- 
2.43.0


From 98d0c55b44ca011f5a40147d168f54af7b331011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 19/57] fix: a failed secondary scan is reported at every depth

---
 mbus/mbus-protocol-aux.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 93d0bd9..8b82958 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2508,7 +2508,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         if (pos < 15)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
-            mbus_scan_2nd_address_range(handle, pos+1, mask);
+            if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+            {
+                free(mask);
+                return -1;
+            }
         }
         else
         {
@@ -2540,7 +2544,11 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else if (probe_ret == MBUS_PROBE_COLLISION)
             {
                 // collision, more than one device matching, restrict the search mask further
-                mbus_scan_2nd_address_range(handle, pos+1, mask);
+                if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
+                {
+                    free(mask);
+                    return -1;
+                }
             }
             else if (probe_ret == MBUS_PROBE_NOTHING)
             {
@@ -2549,6 +2557,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
             else // MBUS_PROBE_ERROR
             {
                 MBUS_ERROR("%s: Failed to probe secondary address [%s].\n", __PRETTY_FUNCTION__, mask);
+                free(mask);
                 return -1;
             }
         }
-- 
2.43.0


From 5775822d95d961685881eae35976e5c6457f2f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 20/57] fix: a secondary scan finds the meter whose
 identification number is given

---
 mbus/mbus-protocol-aux.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 8b82958..9cf997a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -2505,7 +2505,7 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
     }
     else
     {
-        if (pos < 15)
+        if (pos < 7)
         {
             // mask[pos] is not a wildcard -> don't iterate, recursively check pos+1
             if (mbus_scan_2nd_address_range(handle, pos+1, mask) == -1)
@@ -2516,14 +2516,15 @@ mbus_scan_2nd_address_range(mbus_handle * handle, int pos, char *addr_mask)
         }
         else
         {
-            // .. except if we're at the last pos (==15) and this isn't a wildcard we still need to send the probe
+            // .. except if the identification number is complete (pos >= 7) and this isn't a wildcard we still
+            // need to send the probe
             i_start = (int)(mask[pos] - '0');
             i_end   = (int)(mask[pos] - '0');
         }
     }
 
-    // skip the scanning if we're returning from the (pos < 15) case above
-    if (mask[pos] == 'f' || mask[pos] == 'F' || pos == 15)
+    // skip the scanning if we're returning from the (pos < 7) case above
+    if (mask[pos] == 'f' || mask[pos] == 'F' || pos >= 7)
     {
         for (i = i_start; i <= i_end; i++)
         {
-- 
2.43.0


From c47c509ca98b0037499185c2638fea2d3a9d066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 21/57] fix: the secondary scan programs report a failed scan

---
 bin/mbus-serial-scan-secondary.c | 9 ++++++++-
 bin/mbus-tcp-scan-secondary.c    | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/bin/mbus-serial-scan-secondary.c b/bin/mbus-serial-scan-secondary.c
index c1ad32d..84422ac 100755
--- a/bin/mbus-serial-scan-secondary.c
+++ b/bin/mbus-serial-scan-secondary.c
@@ -172,7 +172,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
diff --git a/bin/mbus-tcp-scan-secondary.c b/bin/mbus-tcp-scan-secondary.c
index dd6131a..6e579e0 100755
--- a/bin/mbus-tcp-scan-secondary.c
+++ b/bin/mbus-tcp-scan-secondary.c
@@ -101,7 +101,14 @@ main(int argc, char **argv)
         return 1;
     }
 
-    mbus_scan_2nd_address_range(handle, 0, addr_mask);
+    if (mbus_scan_2nd_address_range(handle, 0, addr_mask) == -1)
+    {
+        fprintf(stderr, "Scan failed: %s\n", mbus_error_str());
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        free(addr_mask);
+        return 1;
+    }
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-- 
2.43.0


From 532b45d6055109bbf0aebdc10fc1f23143faf14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 22/57] fix: the primary scan does not take the rest of one
 answer for the next address's

---
 bin/mbus-serial-scan.c | 14 +++++++-------
 bin/mbus-tcp-scan.c    | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index a93d876..222b155 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -160,15 +160,15 @@ main(int argc, char **argv)
             continue;
         }
 
-        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
         {
-            /* check for more data (collision) */
-            if (mbus_purge_frames(handle))
-            {
-                printf("Collision at address %d\n", address);
-                continue;
-            }
+            printf("Collision at address %d\n", address);
+            continue;
+        }
 
+        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        {
             printf("Found a M-Bus device at address %d\n", address);
         }
     }
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 3d96194..1dac2cd 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -140,15 +140,15 @@ main(int argc, char **argv)
             continue;
         }
 
-        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        /* check for more data (collision) */
+        if (mbus_purge_frames(handle))
         {
-            /* check for more data (collision) */
-            if (mbus_purge_frames(handle))
-            {
-                printf("Collision at address %d\n", address);
-                continue;
-            }
+            printf("Collision at address %d\n", address);
+            continue;
+        }
 
+        if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
+        {
             printf("Found a M-Bus device at address %d\n", address);
         }
     }
-- 
2.43.0


From ccd915d8ed6dcb75747ab25825c76a91cab291b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 23/57] fix: BCD numbers of variable length have two digits per
 byte

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index c8344f3..a957a8a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3977,9 +3977,9 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-                    record->data_len = (frame->data[i] - 0xC0) * 2;
+                    record->data_len = frame->data[i] - 0xC0; // two digits per byte
                 else if(frame->data[i] >= 0xD0 && frame->data[i] <= 0xD9)
-                    record->data_len = (frame->data[i] - 0xD0) * 2;
+                    record->data_len = frame->data[i] - 0xD0; // two digits per byte
                 else if(frame->data[i] >= 0xE0 && frame->data[i] <= 0xEF)
                     record->data_len = frame->data[i] - 0xE0;
                 else if(frame->data[i] >= 0xF0 && frame->data[i] <= 0xF4)
-- 
2.43.0


From c1910f72631b3350df05255078c30bba15df02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 24/57] fix: the longest unit text leaves room for its
 terminator

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index a957a8a..f64faa8 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3918,7 +3918,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 // variable length VIF in ASCII format
                 int var_vif_len;
                 var_vif_len = frame->data[i++];
-                if (var_vif_len > MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
+                if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
                     mbus_data_record_free(record);
                     snprintf(error_str, sizeof(error_str), "Too long variable length VIF.");
-- 
2.43.0


From 6e10bb8affc62fe813e8dad7b833870cde66f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 25/57] fix: a record has room for all data of a frame

---
 mbus/mbus-protocol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.h b/mbus/mbus-protocol.h
index 5933381..29688e6 100755
--- a/mbus/mbus-protocol.h
+++ b/mbus/mbus-protocol.h
@@ -168,7 +168,7 @@ typedef struct _mbus_data_record {
 
     mbus_data_record_header drh;
 
-    unsigned char data[234];
+    unsigned char data[252]; // as much as a frame can hold
     size_t data_len;
 
     time_t timestamp;
-- 
2.43.0


From 826d6aa6eecc1b35260d7cf24629881ec08946af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 26/57] fix: parsing variable data does not look beyond the end
 of the data

---
 mbus/mbus-protocol.c | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index f64faa8..d0c2823 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3886,6 +3886,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 unsigned char dife;
 
+                if (i + 1 >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
+                    return -1;
+                }
+
                 if (record->drh.dib.ndife >= MBUS_DATA_INFO_BLOCK_DIFE_SIZE)
                 {
                     mbus_data_record_free(record);
@@ -3901,7 +3908,7 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             }
             i++;
 
-            if (i > frame->data_size)
+            if (i >= frame->data_size)
             {
                 mbus_data_record_free(record);
                 snprintf(error_str, sizeof(error_str), "Premature end of record at DIF.");
@@ -3917,6 +3924,14 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             {
                 // variable length VIF in ASCII format
                 int var_vif_len;
+
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at variable length VIF.");
+                    return -1;
+                }
+
                 var_vif_len = frame->data[i++];
                 if (var_vif_len >= MBUS_VALUE_INFO_BLOCK_CUSTOM_VIF_SIZE)
                 {
@@ -3940,6 +3955,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if (record->drh.vib.vif & MBUS_DIB_VIF_EXTENSION_BIT)
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                    return -1;
+                }
+
                 record->drh.vib.vife[0] = frame->data[i];
                 record->drh.vib.nvife++;
 
@@ -3948,6 +3970,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
                 {
                     unsigned char vife;
 
+                    if (i + 1 >= frame->data_size)
+                    {
+                        mbus_data_record_free(record);
+                        snprintf(error_str, sizeof(error_str), "Premature end of record at VIF.");
+                        return -1;
+                    }
+
                     if (record->drh.vib.nvife >= MBUS_VALUE_INFO_BLOCK_VIFE_SIZE)
                     {
                         mbus_data_record_free(record);
@@ -3974,6 +4003,13 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
             // re-calculate data length, if of variable length type
             if ((record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_DATA) == 0x0D) // flag for variable length data
             {
+                if (i >= frame->data_size)
+                {
+                    mbus_data_record_free(record);
+                    snprintf(error_str, sizeof(error_str), "Premature end of record at data.");
+                    return -1;
+                }
+
                 if(frame->data[i] <= 0xBF)
                     record->data_len = frame->data[i];
                 else if(frame->data[i] >= 0xC0 && frame->data[i] <= 0xC9)
-- 
2.43.0


From 1ad99c880ca968aab4a85cd196756f4358489c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 27/57] fix: storage numbers of long DIFE chains keep their
 high bits

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d0c2823..4d3de96 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3468,7 +3468,7 @@ long mbus_data_record_storage_number(mbus_data_record *record)
 
         for (i=0; i<record->drh.dib.ndife; i++)
         {
-            result |= (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
+            result |= (long) (record->drh.dib.dife[i] & MBUS_DATA_RECORD_DIFE_MASK_STORAGE_NO) << bit_index;
             bit_index += 4;
         }
 
-- 
2.43.0


From 6205c5d11345f2ab9f879f6d87498f0d0deeaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 28/57] fix: the start of a tariff is not reported as reserved

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 9cf997a..bf010bc 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -353,7 +353,7 @@ mbus_variable_vif vif_table[] = {
     /* E011 0000 Start (date/time) of tariff  */
     /* The information about usage of data type F (date and time) or data type G (date) can */
     /* be derived from the datafield (0010b: type G / 0100: type F). */
-    { 0x130, 1.0e0,  "Reserved", "Reserved" }, /* ???? */
+    { 0x130, 1.0e0,  "", "Start (date/time) of tariff" },
 
     /* E011 00nn Duration of tariff (nn=01 ..11: min to days) */
     { 0x131,       60.0,  "s", "Duration of tariff" },   /* minute(s) */
-- 
2.43.0


From eab287f8a72817bbe3f1f9e75553ec89e5902150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 29/57] fix: the unit of energies in GJ is Joule

---
 mbus/mbus-protocol-aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index bf010bc..bad240a 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -491,8 +491,8 @@ mbus_variable_vif vif_table[] = {
     { 0x207, 1.0e0,  "Reserved", "Reserved" },
 
     /* E000 100n Energy 10(n-1) GJ 0.1GJ to 1GJ */
-    { 0x208, 1.0e8,  "Reserved", "Energy" },
-    { 0x209, 1.0e9,  "Reserved", "Energy" },
+    { 0x208, 1.0e8,  "J", "Energy" },
+    { 0x209, 1.0e9,  "J", "Energy" },
 
     /* E000 101n Reserved */
     { 0x20A, 1.0e0,  "Reserved", "Reserved" },
-- 
2.43.0


From b0bb5b10ad0c97dcc096aacadc21b9d2fbdbb269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 30/57] fix: the unit of power in GJ/h is Joule per hour

---
 mbus/mbus-protocol-aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index bad240a..ccc20d5 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -565,8 +565,8 @@ mbus_variable_vif vif_table[] = {
     { 0x22F, 1.0e0, "Reserved", "Reserved" },
 
     /* E011 000n Power 10(n-1) GJ/h 0.1GJ/h to 1GJ/h */
-    { 0x230, 1.0e8, "J", "Power" },
-    { 0x231, 1.0e9, "J", "Power" },
+    { 0x230, 1.0e8, "J/h", "Power" },
+    { 0x231, 1.0e9, "J/h", "Power" },
 
     /* E011 0010 to E101 0111 Reserved */
     { 0x232, 1.0e0, "Reserved", "Reserved" },
-- 
2.43.0


From 8e7f7c69a7edb8d681e2f89d2ef26318b43ac588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 31/57] fix: the scale of cumulated maximum power 10 mW

---
 mbus/mbus-protocol-aux.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ccc20d5..a3d5f8f 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -656,7 +656,7 @@ mbus_variable_vif vif_table[] = {
 
     /* E111 1nnn cumul. count max power § 10(nnn-3) W 0.001W to 10000W */
     { 0x278, 1.0e-3, "W", "Cumul count max power" },
-    { 0x279, 1.0e-3, "W", "Cumul count max power" },
+    { 0x279, 1.0e-2, "W", "Cumul count max power" },
     { 0x27A, 1.0e-1, "W", "Cumul count max power" },
     { 0x27B, 1.0e0,  "W", "Cumul count max power" },
     { 0x27C, 1.0e1,  "W", "Cumul count max power" },
-- 
2.43.0


From decc7b7c4ffdee8ab7e0f6284c36023cf2b9a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 32/57] fix: extensions of a manufacturer specific VIF do not
 scale the value

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index a3d5f8f..6dbbfe9 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1138,6 +1138,7 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
 
     if ((vib->vif & MBUS_DIB_VIF_EXTENSION_BIT) &&
         (vib->vif != 0xFD) &&
+        (vib->vif != 0xFF) &&                     /* VIFE of manufacturer specific VIF have no defined meaning */
         (vib->vif != 0xFB))                       /* codes for VIF extention: see table 8.4.5 */
     {
         code = (vib->vife[0]) & 0x7f;
-- 
2.43.0


From bf2caea5d56cbdce33a07c729b885d111cb109bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 33/57] fix: a plain text unit is shown with any extension

---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 4d3de96..834c4df 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3118,6 +3118,12 @@ mbus_vib_unit_lookup(mbus_value_information_block *vib)
         snprintf(buff, sizeof(buff), "%s %s", mbus_unit_prefix(n-6), vib->custom_vif);
         return buff;
     }
+    else if (vib->vif == 0xFC)
+    {
+        // custom VIF with any other extension
+        snprintf(buff, sizeof(buff), "%s", vib->custom_vif);
+        return buff;
+    }
 
     return mbus_vif_unit_lookup(vib->vif); // no extention, use VIF
 }
-- 
2.43.0


From ba209ecac6cd76fa756ed7a45cfe3b9ecc8d5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 34/57] fix: the units 100 kJ and MJ of fixed format data are
 not exchanged

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 834c4df..cd9bcf5 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -1558,10 +1558,10 @@ mbus_data_fixed_unit(int medium_unit_byte)
         case 0x0C:
             snprintf(buff, sizeof(buff), "10 kJ");
             break;
-        case 0x0E:
+        case 0x0D:
             snprintf(buff, sizeof(buff), "100 kJ");
             break;
-        case 0x0D:
+        case 0x0E:
             snprintf(buff, sizeof(buff), "MJ");
             break;
         case 0x0F:
-- 
2.43.0


From 4f0ee95f503c64506b0308f9940bd86d299028b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 35/57] fix: the scale of power in fixed format data

---
 mbus/mbus-protocol-aux.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 6dbbfe9..c4af658 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -692,14 +692,14 @@ mbus_variable_vif fixed_table[] = {
     { 0x13, 1.0e11,"J", "Energy" },
 
     { 0x14, 1.0e0, "W", "Power" },
-    { 0x15, 1.0e0, "W", "Power" },
-    { 0x16, 1.0e0, "W", "Power" },
-    { 0x17, 1.0e0, "W", "Power" },
-    { 0x18, 1.0e0, "W", "Power" },
-    { 0x19, 1.0e0, "W", "Power" },
-    { 0x1A, 1.0e0, "W", "Power" },
-    { 0x1B, 1.0e0, "W", "Power" },
-    { 0x1C, 1.0e0, "W", "Power" },
+    { 0x15, 1.0e1, "W", "Power" },
+    { 0x16, 1.0e2, "W", "Power" },
+    { 0x17, 1.0e3, "W", "Power" },
+    { 0x18, 1.0e4, "W", "Power" },
+    { 0x19, 1.0e5, "W", "Power" },
+    { 0x1A, 1.0e6, "W", "Power" },
+    { 0x1B, 1.0e7, "W", "Power" },
+    { 0x1C, 1.0e8, "W", "Power" },
 
     { 0x1D, 1.0e3, "J/h", "Energy" },
     { 0x1E, 1.0e4, "J/h", "Energy" },
-- 
2.43.0


From 5ffce941de5b8cf4c72490c853f65db9f538bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 36/57] fix: J/h of fixed format data is a power

---
 mbus/mbus-protocol-aux.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index c4af658..43a41eb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -701,15 +701,15 @@ mbus_variable_vif fixed_table[] = {
     { 0x1B, 1.0e7, "W", "Power" },
     { 0x1C, 1.0e8, "W", "Power" },
 
-    { 0x1D, 1.0e3, "J/h", "Energy" },
-    { 0x1E, 1.0e4, "J/h", "Energy" },
-    { 0x1F, 1.0e5, "J/h", "Energy" },
-    { 0x20, 1.0e6, "J/h", "Energy" },
-    { 0x21, 1.0e7, "J/h", "Energy" },
-    { 0x22, 1.0e8, "J/h", "Energy" },
-    { 0x23, 1.0e9, "J/h", "Energy" },
-    { 0x24, 1.0e10,"J/h", "Energy" },
-    { 0x25, 1.0e11,"J/h", "Energy" },
+    { 0x1D, 1.0e3, "J/h", "Power" },
+    { 0x1E, 1.0e4, "J/h", "Power" },
+    { 0x1F, 1.0e5, "J/h", "Power" },
+    { 0x20, 1.0e6, "J/h", "Power" },
+    { 0x21, 1.0e7, "J/h", "Power" },
+    { 0x22, 1.0e8, "J/h", "Power" },
+    { 0x23, 1.0e9, "J/h", "Power" },
+    { 0x24, 1.0e10,"J/h", "Power" },
+    { 0x25, 1.0e11,"J/h", "Power" },
 
     { 0x26, 1.0e-6,"m^3", "Volume" },
     { 0x27, 1.0e-5,"m^3", "Volume" },
-- 
2.43.0


From 92220427ae2b74e9d5b48fd0b3f78e47f686201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 37/57] fix: the scale of ml/h and 10 ml/h in fixed format data

---
 mbus/mbus-protocol-aux.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 43a41eb..ef5d79b 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -721,7 +721,8 @@ mbus_variable_vif fixed_table[] = {
     { 0x2D, 1.0e1, "m^3", "Volume" },
     { 0x2E, 1.0e2, "m^3", "Volume" },
 
-    { 0x2F, 1.0e-5,"m^3/h", "Volume flow" },
+    { 0x2F, 1.0e-6,"m^3/h", "Volume flow" },
+    { 0x30, 1.0e-5,"m^3/h", "Volume flow" },
     { 0x31, 1.0e-4,"m^3/h", "Volume flow" },
     { 0x32, 1.0e-3,"m^3/h", "Volume flow" },
     { 0x33, 1.0e-2,"m^3/h", "Volume flow" },
-- 
2.43.0


From 5c75f4878c5b209c057b8497753c677680d5325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 38/57] fix: long texts are not cut in the XML output

A text of 191 or a unit of 127 characters that need encoding was cut at
767 bytes, and a long unit with a prefix at 127.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index ef5d79b..72971bb 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1395,7 +1395,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
     mbus_data_record *record;
     mbus_record *norm_record;
     char *buff = NULL, *new_buff = NULL;
-    char str_encoded[768] = "";
+    char str_encoded[2048] = "";
     size_t len = 0, buff_size = 8192;
     size_t i;
 
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index cd9bcf5..097e571 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3428,7 +3428,7 @@ mbus_data_record_decode(mbus_data_record *record)
 const char *
 mbus_data_record_unit(mbus_data_record *record)
 {
-    static char buff[128];
+    static char buff[256];
 
     if (record)
     {
@@ -4721,7 +4721,7 @@ char *
 mbus_data_variable_record_xml(mbus_data_record *record, int record_cnt, int frame_cnt, mbus_data_variable_header *header)
 {
     static char buff[8192];
-    char str_encoded[768];
+    char str_encoded[2048];
     size_t len = 0;
     struct tm * timeinfo;
     char timestamp[22];
-- 
2.43.0


From 753d2938d506be8188a827b8d1fd47fecd030deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 39/57] fix: room for the longest record in the XML output

One record can take more than the 1024 bytes that were kept free; the
length then exceeded the buffer and the following records were written
beyond its end.
---
 mbus/mbus-protocol-aux.c | 2 +-
 mbus/mbus-protocol.c     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 72971bb..e4eea39 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1416,7 +1416,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
         {
             norm_record = mbus_parse_variable_record(record);
 
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 097e571..989f4aa 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4820,7 +4820,7 @@ mbus_data_variable_xml(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            if ((buff_size - len) < 1024)
+            if ((buff_size - len) < 4096)
             {
                 buff_size *= 2;
                 new_buff = (char*) realloc(buff,buff_size);
@@ -5054,7 +5054,7 @@ mbus_frame_xml(mbus_frame *frame)
             // record count as record ID in the XML output
             for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
             {
-                if ((buff_size - len) < 1024)
+                if ((buff_size - len) < 4096)
                 {
                     buff_size *= 2;
                     new_buff = (char*) realloc(buff,buff_size);
@@ -5093,7 +5093,7 @@ mbus_frame_xml(mbus_frame *frame)
                 // record count as record ID in the XML output
                 for (record = frame_data.data_var.record; record; record = record->next, record_cnt++)
                 {
-                    if ((buff_size - len) < 1024)
+                    if ((buff_size - len) < 4096)
                     {
                         buff_size *= 2;
                         new_buff = (char*) realloc(buff,buff_size);
-- 
2.43.0


From b227858d2ce77662561fdceb14fef4fed5b822bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:27 +0000
Subject: [PATCH 40/57] fix: a multi-telegram sequence with an unusable
 telegram

The records of the previous telegram were freed again if a later telegram
was too short or carried an error or fixed data, and the buffer and the
records parsed so far were lost if a telegram could not be parsed.
---
 mbus/mbus-protocol.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 989f4aa..d9b5c8a 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5003,6 +5003,10 @@ mbus_frame_xml(mbus_frame *frame)
         if (mbus_frame_data_parse(frame, &frame_data) == -1)
         {
             mbus_error_str_set("M-bus data parse error.");
+            if (frame_data.data_var.record)
+            {
+                mbus_data_record_free(frame_data.data_var.record);
+            }
             return NULL;
         }
 
@@ -5077,6 +5081,7 @@ mbus_frame_xml(mbus_frame *frame)
             if (frame_data.data_var.record)
             {
                 mbus_data_record_free(frame_data.data_var.record);
+                frame_data.data_var.record = NULL;
             }
 
             frame_cnt++;
@@ -5086,6 +5091,18 @@ mbus_frame_xml(mbus_frame *frame)
                 if (mbus_frame_data_parse(iter, &frame_data) == -1)
                 {
                     mbus_error_str_set("M-bus variable data parse error.");
+                    if (frame_data.data_var.record)
+                    {
+                        mbus_data_record_free(frame_data.data_var.record);
+                    }
+                    free(buff);
+                    return NULL;
+                }
+
+                if (frame_data.type != MBUS_DATA_TYPE_VARIABLE)
+                {
+                    mbus_error_str_set("Unexpected data type in a sequence of variable data frames.");
+                    free(buff);
                     return NULL;
                 }
 
@@ -5116,6 +5133,7 @@ mbus_frame_xml(mbus_frame *frame)
                 if (frame_data.data_var.record)
                 {
                     mbus_data_record_free(frame_data.data_var.record);
+                    frame_data.data_var.record = NULL;
                 }
             }
 
-- 
2.43.0


From fce2ca340f8e6ef0b10b2c79a522aff9791b4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 41/57] fix: the value of a record without a known unit is
 released

---
 mbus/mbus-protocol-aux.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index e4eea39..9534653 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1363,6 +1363,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            free(value_out_str);
             mbus_record_free(record);
             record = NULL;
             return NULL;
-- 
2.43.0


From 89f9c6daaf7a1e3356b3a7654b6b5750067579d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 42/57] fix: packing frame data checks that it fits into the
 frame

---
 mbus/mbus-protocol.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d9b5c8a..2f4f062 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4315,6 +4315,12 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                // all bytes of the record have to fit into the frame
+                if (frame->data_size + record->drh.dib.ndife + record->drh.vib.nvife + 2 + record->data_len > sizeof(frame->data))
+                {
+                    return -3;
+                }
+
                 // pack DIF
                 if (parse_debug)
                     printf("%s: packing DIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
-- 
2.43.0


From 76ee7bd4618ef7125a92ff45351d8fa97e053b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 43/57] fix: packing manufacturer specific data and text units

A VIF was inserted into manufacturer specific data, which have none, and
the text of a variable length VIF was left out.
---
 mbus/mbus-protocol.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 2f4f062..ddbaa00 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4253,6 +4253,7 @@ int
 mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
 {
     mbus_data_record *record;
+    size_t custom_len;
     int j;
 
     if (frame == NULL || frame_data == NULL)
@@ -4315,8 +4316,32 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
             //
             for (record = frame_data->data_var.record; record; record = record->next)
             {
+                // manufacturer specific data have no VIB
+                if ((record->drh.dib.dif == MBUS_DIB_DIF_MANUFACTURER_SPECIFIC) ||
+                    (record->drh.dib.dif == MBUS_DIB_DIF_MORE_RECORDS_FOLLOW))
+                {
+                    if (frame->data_size + 1 + record->data_len > sizeof(frame->data))
+                    {
+                        return -3;
+                    }
+
+                    frame->data[frame->data_size++] = record->drh.dib.dif;
+                    for (j = 0; j < record->data_len; j++)
+                    {
+                        frame->data[frame->data_size++] = record->data[j];
+                    }
+                    continue;
+                }
+
+                // a variable length VIF consists of the length and the text (last character first)
+                custom_len = 0;
+                if ((record->drh.vib.vif & MBUS_DIB_VIF_WITHOUT_EXTENSION) == 0x7C)
+                {
+                    custom_len = 1 + strlen(record->drh.vib.custom_vif);
+                }
+
                 // all bytes of the record have to fit into the frame
-                if (frame->data_size + record->drh.dib.ndife + record->drh.vib.nvife + 2 + record->data_len > sizeof(frame->data))
+                if (frame->data_size + record->drh.dib.ndife + record->drh.vib.nvife + 2 + custom_len + record->data_len > sizeof(frame->data))
                 {
                     return -3;
                 }
@@ -4334,6 +4359,14 @@ mbus_frame_internal_pack(mbus_frame *frame, mbus_frame_data *frame_data)
                 if (parse_debug)
                     printf("%s: packing VIF [%zu]", __PRETTY_FUNCTION__, frame->data_size);
                 frame->data[frame->data_size++] = record->drh.vib.vif;
+                if (custom_len > 0)
+                {
+                    frame->data[frame->data_size++] = custom_len - 1;
+                    for (j = custom_len - 1; j > 0; j--)
+                    {
+                        frame->data[frame->data_size++] = record->drh.vib.custom_vif[j - 1];
+                    }
+                }
                 for (j = 0; j < record->drh.vib.nvife; j++)
                 {
                     frame->data[frame->data_size++] = record->drh.vib.vife[j];
-- 
2.43.0


From 0f23de22154f2292cab51d66fdf70aa1ee9f902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 44/57] fix: the largest frames are printed, too

A frame with more than 247 bytes of data did not fit into the buffer and
was printed without any byte.
---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index ddbaa00..0f99ac8 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4412,7 +4412,7 @@ int
 mbus_frame_print(mbus_frame *frame)
 {
     mbus_frame *iter;
-    unsigned char data_buff[256];
+    unsigned char data_buff[MBUS_FRAME_DATA_LENGTH + MBUS_FRAME_LONG_BASE_SIZE];
     int len, i;
 
     if (frame == NULL)
@@ -4420,7 +4420,7 @@ mbus_frame_print(mbus_frame *frame)
 
     for (iter = frame; iter; iter = iter->next)
     {
-        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) == -1)
+        if ((len = mbus_frame_pack(iter, data_buff, sizeof(data_buff))) < 0)
         {
             return -2;
         }
-- 
2.43.0


From f0c7f3e1bc73c5e4fd3b6055c7327902b99461f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 45/57] fix: maximum and minimum values are not printed as
 error values

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 0f99ac8..18cddbb 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -4512,7 +4512,7 @@ mbus_data_variable_print(mbus_data_variable *data)
             printf("DIF               = %.2X\n", record->drh.dib.dif);
             printf("DIF.Extension     = %s\n",  (record->drh.dib.dif & MBUS_DIB_DIF_EXTENSION_BIT) ? "Yes":"No");
             printf("DIF.StorageNumber = %d\n",  (record->drh.dib.dif & MBUS_DATA_RECORD_DIF_MASK_STORAGE_NO) >> 6);
-            printf("DIF.Function      = %s\n",  (record->drh.dib.dif & 0x30) ? "Value during error state" : "Instantaneous value" );
+            printf("DIF.Function      = %s\n",  mbus_data_record_function(record));
             printf("DIF.Data          = %.2X\n", record->drh.dib.dif & 0x0F);
 
             // VENDOR SPECIFIC
-- 
2.43.0


From 68a606a39ace4538f8a07b49fbbbff32eb83dbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:42 +0000
Subject: [PATCH 46/57] fix: a short frame does not keep the fields of an
 earlier frame

---
 mbus/mbus-protocol.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 18cddbb..d81dc1e 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3657,6 +3657,10 @@ mbus_parse(mbus_frame *frame, unsigned char *data, size_t data_size)
 
                 frame->type = MBUS_FRAME_TYPE_SHORT;
 
+                // a short frame has no other fields, forget those of an earlier frame
+                frame->control_information = 0;
+                frame->data_size = 0;
+
                 // verify the frame
                 if (mbus_frame_verify(frame) != 0)
                 {
-- 
2.43.0


From 336e95b48a64fdf3f24ed8a0b8e05cb2de246020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:06 +0000
Subject: [PATCH 47/57] fix: a telegram is refused when there is no memory for
 one of its records

---
 mbus/mbus-protocol.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index d81dc1e..2f6ca2f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -3852,8 +3852,8 @@ mbus_data_variable_parse(mbus_frame *frame, mbus_data_variable *data)
 
             if ((record = mbus_data_record_new()) == NULL)
             {
-                // clean up...
-                return (-2);
+                snprintf(error_str, sizeof(error_str), "Failed to allocate memory for a data record.");
+                return -1;
             }
 
             // copy timestamp
-- 
2.43.0


From 737e4ce742af797002d49d2a42628e16327f3843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:08 +0000
Subject: [PATCH 48/57] fix: a unit or quantity without memory for its text is
 an error

---
 mbus/mbus-protocol-aux.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 9534653..bb25c93 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -784,6 +784,29 @@ mbus_register_found_event(mbus_handle * handle, void (*event)(mbus_handle * hand
     handle->found_event = event;
 }
 
+//------------------------------------------------------------------------------
+// Hand out copies of the unit and the quantity: either both of them, or neither
+// of them (return value -2) when there is no memory.
+//------------------------------------------------------------------------------
+static int
+set_unit_and_quantity(char **unit_out, const char *unit, char **quantity_out, const char *quantity)
+{
+    *unit_out = strdup(unit);
+    *quantity_out = strdup(quantity);
+
+    if (*unit_out == NULL || *quantity_out == NULL)
+    {
+        MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+        free(*unit_out);
+        free(*quantity_out);
+        *unit_out = NULL;
+        *quantity_out = NULL;
+        return -2;
+    }
+
+    return 0;
+}
+
 int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, double *value_out, char **quantity_out)
 {
     medium_unit = medium_unit & 0x3F;
@@ -810,10 +833,8 @@ int mbus_fixed_normalize(int medium_unit, long medium_value, char **unit_out, do
         {
             if (fixed_table[i].vif == medium_unit)
             {
-                *unit_out = strdup(fixed_table[i].unit);
                 *value_out = ((double) (medium_value)) * fixed_table[i].exponent;
-                *quantity_out = strdup(fixed_table[i].quantity);
-                return 0;
+                return set_unit_and_quantity(unit_out, fixed_table[i].unit, quantity_out, fixed_table[i].quantity);
             }
         }
 
@@ -1060,10 +1081,8 @@ mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_ou
     {
         if (vif_table[i].vif == newVif)
         {
-            *unit_out = strdup(vif_table[i].unit);
             *value_out = value * vif_table[i].exponent;
-            *quantity_out = strdup(vif_table[i].quantity);
-            return 0;
+            return set_unit_and_quantity(unit_out, vif_table[i].unit, quantity_out, vif_table[i].quantity);
         }
     }
 
@@ -1122,9 +1141,11 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
                  (vib->vif == 0xFC))
         {
             // custom VIF
-            *unit_out = strdup("-");
-            *quantity_out = strdup(vib->custom_vif);
             *value_out = value;
+            if (set_unit_and_quantity(unit_out, "-", quantity_out, vib->custom_vif) != 0)
+            {
+                return -2;
+            }
         }
         else
         {
-- 
2.43.0


From e3a5bf8c5d5507a528458a5f5d794324aaa11377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 49/57] fix: normalized XML does not show a record as empty for
 lack of memory

---
 mbus/mbus-protocol-aux.c | 59 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index bb25c93..4433005 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -1097,7 +1097,7 @@ mbus_vif_unit_normalize(int vif, double value, char **unit_out, double *value_ou
 int
 mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **unit_out, double *value_out, char **quantity_out)
 {
-    int code;
+    int code, result;
 
     if (vib == NULL || unit_out == NULL || value_out == NULL || quantity_out == NULL)
     {
@@ -1116,10 +1116,11 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
         }
 
         code = ((vib->vife[0]) & MBUS_DIB_VIF_WITHOUT_EXTENSION) | 0x100;
-        if (mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out) != 0)
+        result = mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out);
+        if (result != 0)
         {
             MBUS_ERROR("%s: Error mbus_vif_unit_normalize\n", __PRETTY_FUNCTION__);
-            return -1;
+            return result;
         }
     } else {
         if (vib->vif == 0xFB) /* second type of VIF extention: see table 8.4.4 b */
@@ -1131,10 +1132,11 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
             }
 
             code = ((vib->vife[0]) & MBUS_DIB_VIF_WITHOUT_EXTENSION) | 0x200;
-            if (0 != mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out))
+            result = mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out);
+            if (result != 0)
             {
                 MBUS_ERROR("%s: Error mbus_vif_unit_normalize\n", __PRETTY_FUNCTION__);
-                return -1;
+                return result;
             }
         }
         else if ((vib->vif == 0x7C) ||
@@ -1150,10 +1152,11 @@ mbus_vib_unit_normalize(mbus_value_information_block *vib, double value, char **
         else
         {
             code = (vib->vif) & MBUS_DIB_VIF_WITHOUT_EXTENSION;
-            if (0 != mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out))
+            result = mbus_vif_unit_normalize(code, value, unit_out, value_out, quantity_out);
+            if (result != 0)
             {
                 MBUS_ERROR("%s: Error mbus_vif_unit_normalize\n", __PRETTY_FUNCTION__);
-                return -1;
+                return result;
             }
         }
     }
@@ -1294,15 +1297,18 @@ mbus_parse_fixed_record(char status_byte, char medium_unit, unsigned char *data)
 }
 
 
-mbus_record *
-mbus_parse_variable_record(mbus_data_record *data)
+static mbus_record *
+parse_variable_record(mbus_data_record *data, int *out_of_memory)
 {
+    int result;
     mbus_record * record = NULL;
     double value_out_real    = 0.0;  /**< raw value */
     char * value_out_str     = NULL;
     int    value_out_str_size = 0;
     double real_val         = 0.0;  /**< normalized value */
 
+    *out_of_memory = 0;
+
     if (data == NULL)
     {
         MBUS_ERROR("%s: Invalid record.\n", __PRETTY_FUNCTION__);
@@ -1312,6 +1318,7 @@ mbus_parse_variable_record(mbus_data_record *data)
     if (!(record = mbus_record_new()))
     {
         MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+        *out_of_memory = 1;
         return NULL;
     }
 
@@ -1334,6 +1341,7 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (record->function_medium == NULL)
         {
             MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+            *out_of_memory = 1;
             mbus_record_free(record);
             return NULL;
         }
@@ -1341,9 +1349,12 @@ mbus_parse_variable_record(mbus_data_record *data)
         /* parsing of data not implemented yet
            manufacturer specific data structures to end of user data */
 
-        if (mbus_variable_value_decode(data, &value_out_real, &value_out_str, &value_out_str_size) != 0)
+        result = mbus_variable_value_decode(data, &value_out_real, &value_out_str, &value_out_str_size);
+
+        if (result != 0)
         {
             MBUS_ERROR("%s: problem with mbus_variable_value_decode\n", __PRETTY_FUNCTION__);
+            *out_of_memory = (result == -1);
             mbus_record_free(record);
             return NULL;
         }
@@ -1367,23 +1378,30 @@ mbus_parse_variable_record(mbus_data_record *data)
         if (record->function_medium == NULL)
         {
             MBUS_ERROR("%s: memory allocation error\n", __PRETTY_FUNCTION__);
+            *out_of_memory = 1;
             mbus_record_free(record);
             return NULL;
         }
 
         MBUS_DEBUG("record->function_medium = %s \n", record->function_medium);
 
-        if (mbus_variable_value_decode(data, &value_out_real, &value_out_str, &value_out_str_size) != 0)
+        result = mbus_variable_value_decode(data, &value_out_real, &value_out_str, &value_out_str_size);
+
+        if (result != 0)
         {
             MBUS_ERROR("%s: problem with mbus_variable_value_decode\n", __PRETTY_FUNCTION__);
+            *out_of_memory = (result == -1);
             mbus_record_free(record);
             return NULL;
         }
         MBUS_DEBUG("value_out_real = %lf \n", value_out_real);
 
-        if (mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity)) != 0)
+        result = mbus_vib_unit_normalize(&(data->drh.vib), value_out_real, &(record->unit), &real_val, &(record->quantity));
+
+        if (result != 0)
         {
             MBUS_ERROR("%s: problem with mbus_vib_unit_normalize\n", __PRETTY_FUNCTION__);
+            *out_of_memory = (result == -2);
             free(value_out_str);
             mbus_record_free(record);
             record = NULL;
@@ -1408,6 +1426,14 @@ mbus_parse_variable_record(mbus_data_record *data)
     return record;
 }
 
+mbus_record *
+mbus_parse_variable_record(mbus_data_record *data)
+{
+    int out_of_memory;
+
+    return parse_variable_record(data, &out_of_memory);
+}
+
 //------------------------------------------------------------------------------
 /// Generate XML for variable-length data
 //------------------------------------------------------------------------------
@@ -1420,6 +1446,7 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
     char str_encoded[2048] = "";
     size_t len = 0, buff_size = 8192;
     size_t i;
+    int out_of_memory;
 
     if (data)
     {
@@ -1436,7 +1463,13 @@ mbus_data_variable_xml_normalized(mbus_data_variable *data)
 
         for (record = data->record, i = 0; record; record = record->next, i++)
         {
-            norm_record = mbus_parse_variable_record(record);
+            norm_record = parse_variable_record(record, &out_of_memory);
+
+            if (norm_record == NULL && out_of_memory)
+            {
+                free(buff);
+                return NULL;
+            }
 
             if ((buff_size - len) < 4096)
             {
-- 
2.43.0


From 8f2543e5b9bba7286ade47d7d75dcd0995ad0ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 50/57] fix: the error text for a missing frame does not print
 an uninitialised pointer

---
 mbus/mbus-protocol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol.c b/mbus/mbus-protocol.c
index 2f6ca2f..f9d3c2f 100755
--- a/mbus/mbus-protocol.c
+++ b/mbus/mbus-protocol.c
@@ -5301,7 +5301,7 @@ char *
 mbus_frame_get_secondary_address(mbus_frame *frame)
 {
     static char addr[32];
-    mbus_frame_data *data;
+    mbus_frame_data *data = NULL;
     unsigned long id;
 
     if (frame == NULL || (data = mbus_frame_data_new()) == NULL)
-- 
2.43.0


From 5d0662e61e19810cf2f27ca2f3d5ebb954886b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 51/57] fix: a probe that runs out of memory does not report
 that no device answered

---
 mbus/mbus-protocol-aux.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mbus/mbus-protocol-aux.c b/mbus/mbus-protocol-aux.c
index 4433005..6adcd59 100755
--- a/mbus/mbus-protocol-aux.c
+++ b/mbus/mbus-protocol-aux.c
@@ -19,6 +19,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <math.h>
+#include <errno.h>
 
 /*@ignore@*/
 #define MBUS_ERROR(...) fprintf (stderr, __VA_ARGS__)
@@ -2413,7 +2414,16 @@ mbus_probe_secondary_address(mbus_handle *handle, const char *mask, char *matchi
 
             if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_LONG)
             {
-                char *addr = mbus_frame_get_secondary_address(&reply);
+                char *addr;
+
+                errno = 0;
+                addr = mbus_frame_get_secondary_address(&reply);
+
+                if (addr == NULL && errno == ENOMEM)
+                {
+                    MBUS_ERROR("%s: Out of memory [mask %s].\n", __PRETTY_FUNCTION__, mask);
+                    return MBUS_PROBE_ERROR;
+                }
 
                 if (addr == NULL)
                 {
-- 
2.43.0


From f2f8982933f1216d6122431dea5af56e212cc5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 52/57] fix: the request programs refuse an address that is no
 number from 0 to 255 instead of reading whatever atoi makes of it

---
 bin/mbus-serial-request-data-multi-reply.c | 13 ++++++++++++-
 bin/mbus-serial-request-data.c             | 13 ++++++++++++-
 bin/mbus-tcp-request-data-multi-reply.c    | 13 ++++++++++++-
 bin/mbus-tcp-request-data.c                | 13 ++++++++++++-
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/bin/mbus-serial-request-data-multi-reply.c b/bin/mbus-serial-request-data-multi-reply.c
index 0cd0f8a..fffacb7 100755
--- a/bin/mbus-serial-request-data-multi-reply.c
+++ b/bin/mbus-serial-request-data-multi-reply.c
@@ -173,7 +173,18 @@ main(int argc, char **argv)
     else
     {
         // primary addressing
-        address = atoi(addr_str);
+        char *end;
+        long value = strtol(addr_str, &end, 10);
+
+        if (end == addr_str || *end != '\0' || value < 0 || value > 255)
+        {
+            fprintf(stderr, "%s: Error: Invalid primary address [%s].\n", __PRETTY_FUNCTION__, addr_str);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
+        address = value;
     }
 
     // instead of the send and recv, use this sendrecv function that
diff --git a/bin/mbus-serial-request-data.c b/bin/mbus-serial-request-data.c
index 20e3fa6..d806c5a 100755
--- a/bin/mbus-serial-request-data.c
+++ b/bin/mbus-serial-request-data.c
@@ -163,7 +163,18 @@ main(int argc, char **argv)
     else
     {
         // primary addressing
-        address = atoi(addr_str);
+        char *end;
+        long value = strtol(addr_str, &end, 10);
+
+        if (end == addr_str || *end != '\0' || value < 0 || value > 255)
+        {
+            fprintf(stderr, "%s: Error: Invalid primary address [%s].\n", __PRETTY_FUNCTION__, addr_str);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
+        address = value;
     }
 
     if (mbus_send_request_frame(handle, address) == -1)
diff --git a/bin/mbus-tcp-request-data-multi-reply.c b/bin/mbus-tcp-request-data-multi-reply.c
index 8cc1d2e..f143c8a 100755
--- a/bin/mbus-tcp-request-data-multi-reply.c
+++ b/bin/mbus-tcp-request-data-multi-reply.c
@@ -167,7 +167,18 @@ main(int argc, char **argv)
     else
     {
         // primary addressing
-        address = atoi(addr_str);
+        char *end;
+        long value = strtol(addr_str, &end, 10);
+
+        if (end == addr_str || *end != '\0' || value < 0 || value > 255)
+        {
+            fprintf(stderr, "%s: Error: Invalid primary address [%s].\n", __PRETTY_FUNCTION__, addr_str);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
+        address = value;
     }
 
     // instead of the send and recv, use this sendrecv function that
diff --git a/bin/mbus-tcp-request-data.c b/bin/mbus-tcp-request-data.c
index 91ff0c0..18779a7 100755
--- a/bin/mbus-tcp-request-data.c
+++ b/bin/mbus-tcp-request-data.c
@@ -112,7 +112,18 @@ main(int argc, char **argv)
     {
         // primary addressing
 
-        address = atoi(addr_str);
+        char *end;
+        long value = strtol(addr_str, &end, 10);
+
+        if (end == addr_str || *end != '\0' || value < 0 || value > 255)
+        {
+            fprintf(stderr, "%s: Error: Invalid primary address [%s].\n", __PRETTY_FUNCTION__, addr_str);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
+
+        address = value;
         if (mbus_send_request_frame(handle, address) == -1)
         {
             fprintf(stderr, "Failed to send M-Bus request frame.\n");
-- 
2.43.0


From 36359d1d802cdef51618e0b69988e9e24d6176e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 53/57] fix: set-address, switch-baudrate, application-reset
 and select fail when the reply is no confirmation instead of exiting with
 success

---
 bin/mbus-serial-select-secondary.c |  7 +++++++
 bin/mbus-serial-set-address.c      | 10 ++++++++++
 bin/mbus-serial-switch-baudrate.c  | 10 ++++++++++
 bin/mbus-tcp-application-reset.c   | 10 ++++++++++
 bin/mbus-tcp-select-secondary.c    |  7 +++++++
 5 files changed, 44 insertions(+)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 4c1066b..ff09f89 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -94,6 +94,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply to selection: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
@@ -118,6 +124,7 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 5290801..863e85a 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -210,10 +210,20 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr, "Failed to receive reply from device\n");
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr, "Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 52a841f..3cf538e 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -79,10 +79,20 @@ main(int argc, char **argv)
         fprintf(stderr,"No reply from device\n");
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply from device\n");
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 54ca46c..9f9f2d7 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -144,10 +144,20 @@ main(int argc, char **argv)
         mbus_context_free(handle);
         return 1;
     }
+    else if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply from device\n");
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
+    }
     else if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        mbus_disconnect(handle);
+        mbus_context_free(handle);
+        return 1;
     }
     else
     {
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 92605c6..9276ce4 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -85,6 +85,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    if (ret != MBUS_RECV_RESULT_OK)
+    {
+        fprintf(stderr,"Failed to receive reply to selection: %s\n", mbus_error_str());
+        return 1;
+    }
+
     if (mbus_frame_type(&reply) == MBUS_FRAME_TYPE_ACK)
     {
         if (mbus_send_request_frame(handle, MBUS_ADDRESS_NETWORK_LAYER) == -1)
@@ -109,6 +115,7 @@ main(int argc, char **argv)
     {
         fprintf(stderr,"Unknown reply:\n");
         mbus_frame_print(&reply);
+        return 1;
     }
 
     free(addr);
-- 
2.43.0


From 2a2313c294df0840d29d4ad1c36c0b3d25b75370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:04 +0000
Subject: [PATCH 54/57] fix: set-address, switch-baudrate and application-reset
 refuse an address or subcode that is no number from 0 to 255 instead of using
 whatever atoi makes of it

---
 bin/mbus-serial-set-address.c     | 35 +++++++++++++++++++++----
 bin/mbus-serial-switch-baudrate.c | 27 +++++++++++++++++--
 bin/mbus-tcp-application-reset.c  | 43 ++++++++++++++++++++++++++++---
 3 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/bin/mbus-serial-set-address.c b/bin/mbus-serial-set-address.c
index 863e85a..e7d27a3 100644
--- a/bin/mbus-serial-set-address.c
+++ b/bin/mbus-serial-set-address.c
@@ -15,6 +15,23 @@
 
 static int debug = 0;
 
+//------------------------------------------------------------------------------
+// Read a number from 0 to 255, return -1 if the text is anything else.
+//------------------------------------------------------------------------------
+static int
+parse_byte(const char *text)
+{
+    char *end;
+    long value = strtol(text, &end, 10);
+
+    if (end == text || *end != '\0' || value < 0 || value > 255)
+    {
+        return -1;
+    }
+
+    return value;
+}
+
 //
 // init slave to get really the beginning of the records
 //
@@ -61,13 +78,13 @@ main(int argc, char **argv)
     {
         device   = argv[1];
         old_address_str = argv[2];
-        new_address = atoi(argv[3]);
+        new_address = parse_byte(argv[3]);
     }
     else if (argc == 5 && strcmp(argv[1], "-d") == 0)
     {
         device   = argv[2];
         old_address_str = argv[3];
-        new_address = atoi(argv[4]);
+        new_address = parse_byte(argv[4]);
         debug = 1;
     }
     else if (argc == 6 && strcmp(argv[1], "-b") == 0)
@@ -75,14 +92,14 @@ main(int argc, char **argv)
         baudrate = atol(argv[2]);
         device = argv[3];
         old_address_str = argv[4];
-        new_address = atoi(argv[5]);
+        new_address = parse_byte(argv[5]);
     }
     else if (argc == 7 && strcmp(argv[1], "-d") == 0 && strcmp(argv[2], "-b") == 0)
     {
         baudrate = atol(argv[3]);
         device = argv[4];
         old_address_str = argv[5];
-        new_address = atoi(argv[6]);
+        new_address = parse_byte(argv[6]);
         debug = 1;
     }
     else
@@ -189,7 +206,15 @@ main(int argc, char **argv)
     else
     {
         // primary addressing
-        old_address = atoi(old_address_str);
+        old_address = parse_byte(old_address_str);
+
+        if (old_address == -1)
+        {
+            fprintf(stderr, "%s: Error: Invalid primary address [%s].\n", __PRETTY_FUNCTION__, old_address_str);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
     }
 
     if (mbus_set_primary_address(handle, old_address, new_address) == -1)
diff --git a/bin/mbus-serial-switch-baudrate.c b/bin/mbus-serial-switch-baudrate.c
index 3cf538e..9da22ff 100755
--- a/bin/mbus-serial-switch-baudrate.c
+++ b/bin/mbus-serial-switch-baudrate.c
@@ -17,6 +17,23 @@
 #include <mbus/mbus.h>
 
 
+//------------------------------------------------------------------------------
+// Read a number from 0 to 255, return -1 if the text is anything else.
+//------------------------------------------------------------------------------
+static int
+parse_byte(const char *text)
+{
+    char *end;
+    long value = strtol(text, &end, 10);
+
+    if (end == text || *end != '\0' || value < 0 || value > 255)
+    {
+        return -1;
+    }
+
+    return value;
+}
+
 //------------------------------------------------------------------------------
 // Execution starts here:
 //------------------------------------------------------------------------------
@@ -32,14 +49,14 @@ main(int argc, char **argv)
     if (argc == 4)
     {
         device = argv[1];
-        address = atoi(argv[2]);
+        address = parse_byte(argv[2]);
         target_baudrate = atol(argv[3]);
     }
     else if (argc == 6 && strcmp(argv[1], "-b") == 0)
     {
         source_baudrate = atol(argv[2]);
         device = argv[3];
-        address = atoi(argv[4]);
+        address = parse_byte(argv[4]);
         target_baudrate = atol(argv[5]);
     }
     else
@@ -48,6 +65,12 @@ main(int argc, char **argv)
         return 0;
     }
 
+    if (address == -1)
+    {
+        fprintf(stderr, "Invalid address\n");
+        return 1;
+    }
+
     if ((handle = mbus_context_serial(device)) == NULL)
     {
         fprintf(stderr, "Could not initialize M-Bus context: %s\n",  mbus_error_str());
diff --git a/bin/mbus-tcp-application-reset.c b/bin/mbus-tcp-application-reset.c
index 9f9f2d7..8d6247b 100755
--- a/bin/mbus-tcp-application-reset.c
+++ b/bin/mbus-tcp-application-reset.c
@@ -15,6 +15,23 @@
 
 static int debug = 0;
 
+//------------------------------------------------------------------------------
+// Read a number from 0 to 255, return -1 if the text is anything else.
+//------------------------------------------------------------------------------
+static int
+parse_byte(const char *text)
+{
+    char *end;
+    long value = strtol(text, &end, 10);
+
+    if (end == text || *end != '\0' || value < 0 || value > 255)
+    {
+        return -1;
+    }
+
+    return value;
+}
+
 //------------------------------------------------------------------------------
 // Execution starts here:
 //------------------------------------------------------------------------------
@@ -46,7 +63,13 @@ main(int argc, char **argv)
         host     = argv[1];
         port     = atol(argv[2]);
         addr     = argv[3];
-        subcode  = atoi(argv[4]);
+        subcode  = parse_byte(argv[4]);
+
+        if (subcode == -1)
+        {
+            fprintf(stderr, "Invalid subcode: %s\n", argv[4]);
+            return 1;
+        }
     }
     else if (argc == 6 && strcmp(argv[1], "-d") == 0)
     {
@@ -54,7 +77,13 @@ main(int argc, char **argv)
         host     = argv[2];
         port     = atol(argv[3]);
         addr     = argv[4];
-        subcode  = atoi(argv[5]);
+        subcode  = parse_byte(argv[5]);
+
+        if (subcode == -1)
+        {
+            fprintf(stderr, "Invalid subcode: %s\n", argv[5]);
+            return 1;
+        }
     }
     else
     {
@@ -124,7 +153,15 @@ main(int argc, char **argv)
     {
         // primary addressing
 
-        address = atoi(addr);
+        address = parse_byte(addr);
+
+        if (address == -1)
+        {
+            fprintf(stderr, "Invalid primary address [%s].\n", addr);
+            mbus_disconnect(handle);
+            mbus_context_free(handle);
+            return 1;
+        }
     }
 
     if (mbus_send_application_reset_frame(handle, address, subcode) == -1)
-- 
2.43.0


From 64add4f1daa0ce03a1c3b2417795fcc13e707c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:46 +0000
Subject: [PATCH 55/57] fix: the select programs fail when the answer of the
 selected device carries no secondary address instead of printing (null) and
 exiting with success

---
 bin/mbus-serial-select-secondary.c | 12 ++++++++----
 bin/mbus-tcp-select-secondary.c    | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index ff09f89..2e6c372 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *device, *addr = NULL;
+    char *device, *addr = NULL, *found;
     int ret;
     long baudrate = 9600;
 
@@ -114,11 +114,15 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_LONG ||
+            (found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[2], mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"The reply from selected secondary device carries no secondary address.\n");
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               argv[2], found);
     }
     else
     {
diff --git a/bin/mbus-tcp-select-secondary.c b/bin/mbus-tcp-select-secondary.c
index 9276ce4..e83b5f1 100755
--- a/bin/mbus-tcp-select-secondary.c
+++ b/bin/mbus-tcp-select-secondary.c
@@ -22,7 +22,7 @@ main(int argc, char **argv)
 {
     mbus_handle *handle;
     mbus_frame reply;
-    char *host, *addr = NULL;
+    char *host, *addr = NULL, *found;
     int ret;
     long port;
 
@@ -105,11 +105,15 @@ main(int argc, char **argv)
             return 1;
         }
 
-        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_ACK)
+        if (mbus_frame_type(&reply) != MBUS_FRAME_TYPE_LONG ||
+            (found = mbus_frame_get_secondary_address(&reply)) == NULL)
         {
-            printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-                   argv[3], mbus_frame_get_secondary_address(&reply));
+            fprintf(stderr,"The reply from selected secondary device carries no secondary address.\n");
+            return 1;
         }
+
+        printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
+               argv[3], found);
     }
     else
     {
-- 
2.43.0


From 59f180f0c8ce9509b27bd7ce3109e39ba54c1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 56/57] fix: mbus-serial-select-secondary reports the address
 it searched for when a baud rate is given, not the baud rate

---
 bin/mbus-serial-select-secondary.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bin/mbus-serial-select-secondary.c b/bin/mbus-serial-select-secondary.c
index 2e6c372..4687296 100755
--- a/bin/mbus-serial-select-secondary.c
+++ b/bin/mbus-serial-select-secondary.c
@@ -84,13 +84,13 @@ main(int argc, char **argv)
 
     if (ret == MBUS_RECV_RESULT_TIMEOUT)
     {
-        fprintf(stderr,"No reply from device with secondary address %s: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"No reply from device with secondary address %s: %s\n", addr, mbus_error_str());
         return 1;
     }
 
     if (ret == MBUS_RECV_RESULT_INVALID)
     {
-        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", argv[2], mbus_error_str());
+        fprintf(stderr,"Invalid reply from %s: The address address probably match more than one device: %s\n", addr, mbus_error_str());
         return 1;
     }
 
@@ -122,7 +122,7 @@ main(int argc, char **argv)
         }
 
         printf("Recieved a reply from secondarily addressed device: Searched for [%s] and found [%s].\n",
-               argv[2], found);
+               addr, found);
     }
     else
     {
-- 
2.43.0


From cba2507c01bef33a444409ce379f1d35c8901c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:52 +0000
Subject: [PATCH 57/57] fix: primary scan programs report addresses that could
 not be examined

A scan over a line on which sending or receiving failed ended with success,
as if nobody had answered.
---
 bin/mbus-serial-scan.c | 11 +++++++++--
 bin/mbus-tcp-scan.c    | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/bin/mbus-serial-scan.c b/bin/mbus-serial-scan.c
index 222b155..ff7760f 100755
--- a/bin/mbus-serial-scan.c
+++ b/bin/mbus-serial-scan.c
@@ -56,7 +56,7 @@ main(int argc, char **argv)
     char *device;
     int address, retries = 0;
     long baudrate = 9600;
-    int ret;
+    int ret, status = 0;
 
     if (argc == 2)
     {
@@ -160,6 +160,13 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret != MBUS_RECV_RESULT_OK)
+        {
+            /* whether there is a device is not known */
+            fprintf(stderr, "Scan failed at address %d\n", address);
+            status = 1;
+        }
+
         /* check for more data (collision) */
         if (mbus_purge_frames(handle))
         {
@@ -175,6 +182,6 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-    return 0;
+    return status;
 }
 
diff --git a/bin/mbus-tcp-scan.c b/bin/mbus-tcp-scan.c
index 1dac2cd..36fbfb4 100755
--- a/bin/mbus-tcp-scan.c
+++ b/bin/mbus-tcp-scan.c
@@ -56,7 +56,7 @@ main(int argc, char **argv)
     char *host;
     int address, retries = 0;
     long port;
-    int ret;
+    int ret, status = 0;
 
     if (argc == 3)
     {
@@ -140,6 +140,13 @@ main(int argc, char **argv)
             continue;
         }
 
+        if (ret != MBUS_RECV_RESULT_OK)
+        {
+            /* whether there is a device is not known */
+            fprintf(stderr, "Scan failed at address %d\n", address);
+            status = 1;
+        }
+
         /* check for more data (collision) */
         if (mbus_purge_frames(handle))
         {
@@ -155,6 +162,6 @@ main(int argc, char **argv)
 
     mbus_disconnect(handle);
     mbus_context_free(handle);
-    return 0;
+    return status;
 }
 
-- 
2.43.0

