From 9a6e09d32398b00eaffcfa6c7b49339644254c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 01/16] fix: libaac: keep the high bit of the channel
 configuration in ADTS headers

---
 libaac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..b8dcac6 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,7 +31,7 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | (ah.Channel>>2)&0x01,
 		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From d34e0acd0f0c6ca772cecd9eba7534bea5952fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:42 +0000
Subject: [PATCH 02/16] fix: libavc: copy only the PPS bytes the decoder
 configuration declares

---
 libavc/avc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..1c9c43c 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -98,7 +98,7 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	}
 
 	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
+	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
 	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
 	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
-- 
2.43.0


From f4a175e114a78c26de374c80921094b3ccfb95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 03/16] fix: libavc: a new decoder configuration replaces the
 previous parameter sets

---
 libavc/avc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 1c9c43c..e3a2727 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -100,8 +100,8 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 	pps = append(pps, startCode...)
 	pps = append(pps, tmpBuf[3:3+seq.ppsLen]...)
 
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
+	//A new sequence header replaces the previous parameter sets.
+	parser.SpecificInfo = append(sps, pps...)
 
 	return nil
 }
-- 
2.43.0


From 3eaf1eb1b1402502d6835ff98a00664e4ed0d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 04/16] fix: libsrt: keep the upper end of a NAK range within
 31 bits

---
 libsrt/control.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrt/control.go b/libsrt/control.go
index c14c12c..eb7ae66 100644
--- a/libsrt/control.go
+++ b/libsrt/control.go
@@ -71,7 +71,7 @@ func ParseNAK(body []byte) []LossRange {
 				return out
 			}
 			from := w & 0x7FFFFFFF
-			to := binary.BigEndian.Uint32(body[off+4 : off+8])
+			to := binary.BigEndian.Uint32(body[off+4:off+8]) & 0x7FFFFFFF
 			out = append(out, LossRange{From: from, To: to})
 			off += 4
 			continue
-- 
2.43.0


From 768b9b73a4e747428f8ea13f939ea7b960342c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:35 +0000
Subject: [PATCH 05/16] fix: librtmp: refuse WebSocket frames that announce an
 absurd length

---
 librtmp/websocket.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..ae49223 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -24,6 +24,10 @@ import (
 
 const wsGUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
 
+// wsMaxPayload is the largest client frame we accept. Clients only send
+// control frames and short messages.
+const wsMaxPayload = 16 << 20
+
 // wsOpcode names a control / data opcode from RFC 6455 §5.2.
 type wsOpcode byte
 
@@ -148,6 +152,12 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		plen = binary.BigEndian.Uint64(ext)
 	}
 
+	//The length is whatever the peer claims: bound it before allocating
+	//(make panics on lengths that do not fit the address space).
+	if plen > wsMaxPayload {
+		return 0, nil, fmt.Errorf("websocket frame of %d bytes exceeds limit", plen)
+	}
+
 	var maskKey [4]byte
 	if masked {
 		if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
-- 
2.43.0


From 23a9dcbae999e94bea81311e98ae0d66ca2ff9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 06/16] fix: libmpeg: write all five bits of the PAT version
 number

---
 libmpeg/psi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..cdb4547 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -102,7 +102,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
-- 
2.43.0


From 445c2f7348d3e7eef69d9cd68ae7c2d5722c04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 07/16] fix: libmpeg: stuff short transport packets in the
 adaptation field

---
 libmpeg/ts.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..f38ab07 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -126,8 +126,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
-	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+	if af.AdaptationFieldLength < 1 { //a single stuffing byte: no room for the flags
+		return 1, writer.WriteFull([]byte{0x00})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -270,7 +270,8 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			//the length byte itself is not counted
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - remain - 1)
 		}
 	}
 
-- 
2.43.0


From 35a57c2a918cb3150b44e09f705f51eddcd63082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 08/16] fix: libhls: compute 90 kHz timestamps in 64 bits

---
 libhls/hls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..a8d4a61 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -406,7 +406,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -448,7 +448,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -492,7 +492,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = uint64(tag.GetTagInfo().TimeStamp) * 90
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
-- 
2.43.0


From 44b458c44602b3c47f94e91f0536dbd256bc6fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 09/16] fix: libhls: composition times are signed

---
 libhls/hls.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index a8d4a61..ad79b32 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -472,7 +472,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts<<8)>>8)*90) //Cts is a signed 24-bit value
 			}
 			return pes, pid, videoKey, false
 
@@ -501,7 +501,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts<<8)>>8)*90) //Cts is a signed 24-bit value
 			}
 			return pes, pid, videoKey, false
 
-- 
2.43.0


From 03662d726a8700696a363075501abb042db78b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 10/16] fix: librtmp: chunk stream id 2 is legal

---
 librtmp/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..5ae6735 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -224,7 +224,7 @@ func NewChunk(messageType MessageType, messageLength uint32, messageTime uint32,
 
 func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	b := []byte{}
-	if chunk.CsID < 3 {
+	if chunk.CsID < 2 {
 		return errors.New("invalid csid")
 	} else if chunk.CsID < 64 {
 		b = append(b, byte(uint8(chunk.Fmt<<6)|uint8(chunk.CsID&0x3f)))
-- 
2.43.0


From 58772db40de6dd89a3e3915a5123775f1c572815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 11/16] fix: librtmp: three-byte chunk stream ids have the low
 byte first

---
 librtmp/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 5ae6735..37c7a80 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -234,7 +234,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
-- 
2.43.0


From 912ba111a4b442ac1b3d866412185791708883d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 12/16] fix: librtmp: refuse control payloads under four bytes

---
 librtmp/control_message.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..d2b4d27 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgeSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,6 +235,9 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
-- 
2.43.0


From 567ff09f8879319e2000bae3f7a1e907b9fa8e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 13/16] fix: librtmp: refuse chunk size zero, ignore the
 reserved bit

---
 librtmp/control_message.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index d2b4d27..f947b18 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -238,7 +238,12 @@ func (scsm *SetChunkSizeMessage) Parse() (err error) {
 	if len(scsm.messagePayload) < 4 {
 		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
 	}
-	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
+	//The most significant bit is reserved and the size must not be zero
+	//(RTMP 1.0 §5.4.1): with zero no message could ever make progress.
+	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload) & 0x7fffffff
+	if scsm.NewChunkSize == 0 {
+		return fmt.Errorf("invalid chunk size: 0")
+	}
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
-- 
2.43.0


From 27875cc73955c273ae6df384c4d2120a1b8de129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:10 +0000
Subject: [PATCH 14/16] fix: librtmp: do not act on a message that failed to
 parse

---
 librtmp/message.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..c78f58c 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -201,7 +200,11 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	//A message that does not parse must not be acted upon.
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From 7a467aa33ec858dbaa05cd2cc2cacce532f6b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 15/16] fix: librtmp: refuse commands with a wrong name or
 transaction type

---
 librtmp/command_message.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..6886035 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,8 +117,16 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	name, ok := array[0].(string)
+	if !ok {
+		return errors.New("invalid command name")
+	}
+	transcationID, ok := array[1].(float64)
+	if !ok {
+		return errors.New("invalid transaction id")
+	}
+	cm.CommandName = name
+	cm.TranscationID = int(transcationID)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
-- 
2.43.0


From facb6bb5cbb9f3c379b476c6f49f5215e0fd70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:05 +0000
Subject: [PATCH 16/16] fix: libdash: bound the picture-order-count cycle of a
 parameter set

---
 libdash/dash.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..79b10e1 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -615,6 +615,11 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
+		if n > 255 {
+			//num_ref_frames_in_pic_order_cnt_cycle is at most 255; a
+			//bogus count must not keep us looping over absent bits.
+			return 0, 0
+		}
 		for i := uint32(0); i < n; i++ {
 			_ = br.readSE()
 		}
-- 
2.43.0

