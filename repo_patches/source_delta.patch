From b6ab77fcfa8fb3a02735c35c7de6895c740dd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:55 +0000
Subject: [PATCH 1/6] fix: check the output space before writing tile set and
 tile headers

The standard composer wrote the 22 + 5 * numQuants bytes of the tile set
header and the 19 or 21 bytes of every tile header without looking at the
space left, so a small output buffer was overrun.
---
 src/rfxencode_compose.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 94236bd..2b9535d 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -228,6 +228,10 @@ rfx_compose_message_tile_yuv(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -275,6 +279,10 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -320,6 +328,10 @@ rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
     int start_pos;
     int end_pos;
 
+    if (stream_get_left(s) < 19)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -366,6 +378,10 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     int end_pos;
 
     LLOGLN(10, ("rfx_compose_message_tile_argb:"));
+    if (stream_get_left(s) < 21)
+    {
+        return 1;
+    }
     start_pos = stream_get_pos(s);
     stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
     stream_seek_uint32(s); /* set BlockT.blockLen later */
@@ -438,6 +454,10 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
     }
     numTiles = num_tiles;
     size = 22 + numQuants * 5;
+    if (stream_get_left(s) < size)
+    {
+        return -1;
+    }
     start_pos = stream_get_pos(s);
     if (flags & RFX_FLAGS_ALPHAV1)
     {
@@ -614,6 +634,10 @@ rfx_compose_message_data(struct rfxencode *enc, STREAM *s,
     }
     tiles_written = rfx_compose_message_tileset(enc, s, buf, width, height, stride_bytes,
                    tiles, num_tiles, quants, num_quants, flags);
+    if (tiles_written < 0)
+    {
+        return -1;
+    }
     if (rfx_compose_message_frame_end(enc, s) != 0)
     {
         return -1;
-- 
2.43.0


From b256f30cc86816f0af33c47a657c0d78cc8f1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 2/6] fix: do not advance the stream state when a call writes
 no tile

A failing call left the frame counter advanced, the stream header marked as
sent and, in progressive mode, the tile history updated, although the caller
has nothing to send: the client then missed the header, saw a gap in the
frame numbers, or applied differences to coefficients it never got.
---
 src/rfxencode.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/rfxencode.c b/src/rfxencode.c
index 5e0e59d..47da101 100644
--- a/src/rfxencode.c
+++ b/src/rfxencode.c
@@ -378,6 +378,8 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
 {
     struct rfxencode *enc;
     int tiles_written;
+    int frame_idx;
+    int header_processed;
     STREAM s;
 
     enc = (struct rfxencode *) handle;
@@ -406,12 +408,17 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                          flags);
         if (tiles_written <= 0)
         {
+            /* nothing of this frame reaches the client, but the history may
+               already hold some of its tiles, so start over */
+            rfxencode_reset_encoder(handle);
             return -1;
         }
         *cdata_bytes = (int) (s.p - s.data);
         return tiles_written;
     }
 
+    frame_idx = enc->frame_idx;
+    header_processed = enc->header_processed;
     /* Only the first frame should send the RemoteFX header */
     if ((enc->frame_idx == 0) && (enc->header_processed == 0))
     {
@@ -424,6 +431,12 @@ rfxcodec_encode_ex(void *handle, char *cdata, int *cdata_bytes,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles,
                                             quants, num_quants, flags);
+    if (tiles_written <= 0)
+    {
+        /* nothing of this frame reaches the client */
+        enc->frame_idx = frame_idx;
+        enc->header_processed = header_processed;
+    }
     *cdata_bytes = (int) (s.p - s.data);
     return tiles_written;
 }
-- 
2.43.0


From 38a916d2ab2802590e037c89d2f6472bf708ad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 3/6] fix: state the true length of alpha tiles

The alpha length of a packed plane left out its flags byte (the raw form
counts it), and the tile block length was computed with the 19 byte header of
tiles without alpha although the header has the extra ALen field.
---
 src/rfxencode_alpha.c   | 1 +
 src/rfxencode_compose.c | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfxencode_alpha.c b/src/rfxencode_alpha.c
index 065a6c7..c739764 100644
--- a/src/rfxencode_alpha.c
+++ b/src/rfxencode_alpha.c
@@ -279,6 +279,7 @@ rfx_encode_plane(struct rfxencode *enc, const uint8 *plane, int cx, int cy,
     else
     {
         LLOGLN(10, ("rfx_encode_plane: ok bytes %d", bytes));
+        bytes++; /* flags */
     }
     return bytes;
 }
diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 2b9535d..7730a6f 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -303,7 +303,7 @@ rfx_compose_message_tile_yuva(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
@@ -403,7 +403,7 @@ rfx_compose_message_tile_argb(struct rfxencode *enc, STREAM *s,
     }
     end_pos = stream_get_pos(s);
     stream_set_pos(s, start_pos + 2);
-    stream_write_uint32(s, 19 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
+    stream_write_uint32(s, 21 + YLen + CbLen + CrLen + ALen); /* BlockT.blockLen */
     stream_set_pos(s, start_pos + 13);
     stream_write_uint16(s, YLen);
     stream_write_uint16(s, CbLen);
-- 
2.43.0


From a3c7fd2ccc1b74eb0cec8e19f183e435a10af12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 4/6] fix: do not read past the coefficients in
 rfx_encode_diff_rlgr3

When the last coefficient starts a pair in GR mode, coef[4096] was read and
encoded.
---
 src/rfxencode_diff_rlgr3.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_diff_rlgr3.c b/src/rfxencode_diff_rlgr3.c
index 1bb435e..e848890 100644
--- a/src/rfxencode_diff_rlgr3.c
+++ b/src/rfxencode_diff_rlgr3.c
@@ -249,7 +249,14 @@ rfx_encode_diff_rlgr3(sint16 *coef, uint8 *cdata, int cdata_size,
             y = input >> 15;
             twoMs1 = (((input ^ y) - y) << 1) + y;
 
-            GetNextInput;
+            if (coef_size > 0)
+            {
+                GetNextInput;
+            }
+            else
+            {
+                input = 0;
+            }
 
             y = input >> 15;
             twoMs2 = (((input ^ y) - y) << 1) + y;
-- 
2.43.0


From 1c7c0c362e0dd45d910bb2c8ff8ec7ae624089ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:24 +0000
Subject: [PATCH 5/6] fix: check progressive tile requests before narrowing
 them

The quantiser indices and the tile position were range checked only after
being stored in 8 and 16 bit variables, so that for example index 256 or
x = 64 * 65536 were taken for 0 and memory outside the picture was read.
---
 src/rfxencode_compose.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 7730a6f..6ea904f 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -829,21 +829,23 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
         }
         x = tiles[index].x;
         y = tiles[index].y;
+        if ((tiles[index].quant_y < 0) || (tiles[index].quant_y >= num_quants) ||
+            (tiles[index].quant_cb < 0) || (tiles[index].quant_cb >= num_quants) ||
+            (tiles[index].quant_cr < 0) || (tiles[index].quant_cr >= num_quants))
+        {
+            return -1;
+        }
         quantIdxY = tiles[index].quant_y;
         quantIdxCb = tiles[index].quant_cb;
         quantIdxCr = tiles[index].quant_cr;
-        if ((quantIdxY >= num_quants) || (quantIdxCb >= num_quants) ||
-            (quantIdxCr >= num_quants))
+        if ((x < 0) || (x / 64 >= RFX_MAX_RB_X) ||
+            (y < 0) || (y / 64 >= RFX_MAX_RB_Y))
         {
             return -1;
         }
-        tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         xIdx = x / 64;
         yIdx = y / 64;
-        if ((xIdx >= RFX_MAX_RB_X) || (yIdx >= RFX_MAX_RB_Y))
-        {
-            return -1;
-        }
+        tile_data = buf + (y << 8) * (stride_bytes >> 8) + (x << 8);
         tile_start_pos = stream_get_pos(s);
         stream_write_uint16(s, PRO_WBT_TILE_SIMPLE);
         stream_seek_uint32(s); /* set later */
-- 
2.43.0


From e7e7b8942740cf3cb763033647516a928b335c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:03 +0000
Subject: [PATCH 6/6] fix: do not write counts that do not fit the message

A message counts its rectangles and tiles in 16 bits and its quantiser
sets in 8: more of them were written, with the count cut short. Refuse
what can not be counted, and write at most 0xffff tiles in a message.
---
 src/rfxencode_compose.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/rfxencode_compose.c b/src/rfxencode_compose.c
index 6ea904f..e6f377b 100644
--- a/src/rfxencode_compose.c
+++ b/src/rfxencode_compose.c
@@ -190,6 +190,10 @@ rfx_compose_message_region(struct rfxencode *enc, STREAM *s,
     int size;
     int i;
 
+    if (num_regions > 0xffff)
+    {
+        return 1; /* numRects is 16 bits */
+    }
     size = 15 + num_regions * 8;
     if (stream_get_left(s) < size)
     {
@@ -452,7 +456,12 @@ rfx_compose_message_tileset(struct rfxencode *enc, STREAM *s,
         numQuants = num_quants;
         quantVals = quants;
     }
-    numTiles = num_tiles;
+    if (numQuants > 0xff)
+    {
+        return -1; /* numQuants is 8 bits */
+    }
+    /* the message can not count more than 0xffff tiles */
+    numTiles = num_tiles > 0xffff ? 0xffff : num_tiles;
     size = 22 + numQuants * 5;
     if (stream_get_left(s) < size)
     {
@@ -791,6 +800,14 @@ rfx_pro_compose_message_region(struct rfxencode *enc, STREAM *s,
     sint16 *dwt_buffer_u;
     sint16 *dwt_buffer_v;
 
+    if ((num_regions > 0xffff) || ((quants != NULL) && (num_quants > 0xff)))
+    {
+        return -1; /* numRects is 16 bits, numQuant is 8 bits */
+    }
+    if (num_tiles > 0xffff)
+    {
+        num_tiles = 0xffff; /* the message can not count more */
+    }
     if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)
     {
         return -1;
-- 
2.43.0

