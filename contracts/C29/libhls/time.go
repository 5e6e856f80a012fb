package libhls

import (
	"bytes"

	"github.com/sbraveyoung/GGmpeg/libaac"
	"github.com/sbraveyoung/GGmpeg/libavc"
	"github.com/sbraveyoung/GGmpeg/libflv"
	"github.com/sbraveyoung/GGmpeg/libmpeg"
)

func vNear(a, b uint64) bool { return a-b <= 180 || b-a <= 180 }

// One step of audio alignment, from any state.
func vh_align(num, base, dts uint64, inc uint32) {
	a := &align{frameNum: num, frameBase: base}
	d := dts
	a.align(&d, inc)
	vEnsures("moved by at most 2 ms", vNear(d, dts))
	est := base + num*uint64(inc)
	dist := est - dts
	if est < dts {
		dist = dts - est
	}
	if dist <= 180 {
		vEnsures("on the grid", d == est && a.frameNum == num+1 && a.frameBase == base)
	} else {
		vEnsures("rebased to the source", d == dts && a.frameNum == 1 && a.frameBase == dts)
	}
}

// vSigned reads the 24-bit composition time as the signed number it is.
func vSigned(cts uint32) uint64 {
	if cts&0x800000 != 0 {
		return uint64(cts) - 1<<24
	}
	return uint64(cts)
}

func vHLS() *HLS { return &HLS{Pat: newPAT(0x1b), Cc: map[uint16]uint8{}, audioCache: newAudioCache()} }

// A video tag that is already in start-code form.
func vh_avc(ts, cts uint32, frame, packet uint8, data []byte) {
	vRequires(cts < 1<<24)
	vRequires(len(data) >= 4 && data[0] == 0 && data[1] == 0 && data[2] == 0 && data[3] == 1)
	h := vHLS()
	vt := &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts}, FrameType: frame,
		CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: packet, Cts: cts, VideoData: data}
	vRequires(!(frame == libflv.KEY_FRAME && packet == libflv.AVC_SEQUENCE_HEADER))
	pes, pid, key, skip := h.toPES(vt)
	vEnsures("produced", !skip && pes != nil && pid == libmpeg.VIDEO_PID)
	vEnsures("key", key == (frame == libflv.KEY_FRAME))
	vEnsures("decode time", pes.DTS == 90*uint64(ts))
	vEnsures("presentation time", pes.PTS == pes.DTS+90*vSigned(cts))
	vEnsures("payload", vBytesEq(pes.Data, data))
	vEnsures("from the start", pes.Index == 0 && pes.HeaderIndex == 0 && pes.StreamID == 0xe0)
}

// Video in length-prefixed form, either codec: the times, whatever the payload.
func vh_lengths_avc(ts, cts uint32, frame, packet uint8, info, data []byte) {
	vLengths(ts, cts, false, frame, packet, info, data)
}

func vh_lengths_hevc(ts, cts uint32, frame, packet uint8, data []byte) {
	vLengths(ts, cts, true, frame, packet, nil, data)
}

func vLengths(ts, cts uint32, hevc bool, frame, packet uint8, info, data []byte) {
	vRequires(cts < 1<<24)
	vRequires(!(frame == libflv.KEY_FRAME && packet == libflv.AVC_SEQUENCE_HEADER))
	h := vHLS()
	h.AvcParser = &libavc.Parser{SpecificInfo: info, Pps: bytes.NewBuffer(nil)}
	vt := &libflv.VideoTag{TagBase: libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: ts}, FrameType: frame,
		CodecID: libflv.FLV_VIDEO_AVC, AVCPacketType: packet, Cts: cts, VideoData: data}
	if hevc {
		vt.CodecID = libflv.FLV_VIDEO_HEVC
	}
	pes, pid, key, skip := h.toPES(vt)
	if skip {
		vEnsures("only AVC can be malformed", !hevc)
		return
	}
	vEnsures("produced", pes != nil && pid == libmpeg.VIDEO_PID && key == (frame == libflv.KEY_FRAME))
	vEnsures("decode time", pes.DTS == 90*uint64(ts))
	vEnsures("presentation time", pes.PTS == pes.DTS+90*vSigned(cts))
	vEnsures("from the start", pes.Index == 0 && pes.HeaderIndex == 0)
}

// An audio frame joins the up to five before it.
func vh_audio(ts uint32, num, base uint64, obj, rate, ch uint8, had uint8, first uint64, prev, data []byte) {
	vRequires(had < 6 && len(prev) < 1<<20 && len(data) < 8185)
	vRequires(obj >= 1 && obj <= 4 && rate <= 12 && ch <= 7)
	h := vHLS()
	h.Ah = &libaac.AACHeader{ObjectType: obj, SampleRate: rate, Channel: ch}
	h.align = &align{frameNum: num, frameBase: base}
	h.audioCache = &audioCache{num: had, offset: len(prev), pts: first, buf: bytes.NewBuffer(prev)}
	at := &libflv.AudioTag{TagBase: libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: ts}, SoundFormat: libflv.FLV_AUDIO_AAC,
		AACPacketType: 1, SoundData: data}
	var was []byte
	was = append(was, prev...)
	if had == 0 {
		was = nil
	}
	pes, pid, _, skip := h.toPES(at)
	adts := h.Ah.Adts(data)
	if had == 0 {
		first = h.audioCache.pts
		vEnsures("first frame's time", vNear(first, 90*uint64(ts)))
	}
	vEnsures("the group's time is its first frame's", h.audioCache.pts == first)
	got := h.audioCache.buf.Bytes()
	vEnsures("earlier frames kept", len(got) == len(was)+7+len(data) && vBytesEq(got[:len(was)], was))
	vEnsures("header, then the frame unchanged", vBytesEq(got[len(was):len(was)+7], adts[:7]) && vBytesEq(got[len(was)+7:], data))
	vEnsures("sent every six frames", skip == (had != 5))
	if !skip {
		vEnsures("times", pid == libmpeg.AUDIO_PID && pes.DTS == first && pes.PTS == first)
		vEnsures("all frames sent", vBytesEq(pes.Data, got) && pes.Index == 0 && h.audioCache.num == 0)
	} else {
		vEnsures("counted", h.audioCache.num == had+1)
	}
}
