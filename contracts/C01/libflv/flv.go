package libflv

// C01: FLV tag bodies and framing.

func vIsPacketTyped(f uint8) bool { return f == FLV_AUDIO_AAC || f == FLV_AUDIO_OPUS }
func vIsNALTyped(c uint8) bool {
	return c == FLV_VIDEO_AVC || c == FLV_VIDEO_HEVC || c == FLV_VIDEO_AV1
}

// Serialising an audio tag and parsing it back gives the same fields and payload.
func vh_audio_roundtrip(at AudioTag) {
	at.SoundFormat &= 15
	at.SoundRate &= 3
	at.SoundSize &= 1
	at.SoundType &= 1
	isPT := vIsPacketTyped(at.SoundFormat)
	vRequires(isPT || len(at.SoundData) > 0)
	b := at.Marshal()
	n := 1
	if isPT {
		n = 2
	}
	vEnsures("body length", len(b) == n+len(at.SoundData))
	vEnsures("first byte fields", b[0] == at.SoundFormat<<4|at.SoundRate<<2|at.SoundSize<<1|at.SoundType)
	if isPT {
		vEnsures("packet type byte", b[1] == at.AACPacketType)
	}
	vEnsures("payload", vBytesEq(b[n:], at.SoundData))
	got, err := ParseAudioTag(at.TagBase, b)
	vEnsures("parses", err == nil && got != nil)
	vEnsures("fields round trip", got.SoundFormat == at.SoundFormat && got.SoundRate == at.SoundRate && got.SoundSize == at.SoundSize && got.SoundType == at.SoundType)
	vEnsures("payload round trips", vBytesEq(got.SoundData, at.SoundData) && vBytesEq(got.Data(), at.SoundData))
	vEnsures("tag info kept", got.TagBase == at.TagBase)
	if isPT {
		vEnsures("packet type round trips", got.AACPacketType == at.AACPacketType)
	}
}

// Any audio body: rejected exactly when too short, otherwise its bytes survive.
func vh_audio_parse(tb TagBase, b []byte) {
	got, err := ParseAudioTag(tb, b)
	if len(b) < 2 {
		vEnsures("short body rejected", err != nil)
		return
	}
	vEnsures("accepted", err == nil && got != nil)
	vEnsures("tag info kept", got.TimeStamp == tb.TimeStamp && got.TagType == tb.TagType)
	out := got.Marshal()
	vEnsures("same bytes", vBytesEq(out, b))
}

// Serialising a video tag and parsing it back.
func vh_video_roundtrip(vt VideoTag) {
	vt.FrameType &= 15
	vt.CodecID &= 15
	vt.Cts &= 0xffffff
	n := 1
	if vIsNALTyped(vt.CodecID) {
		n = 5
	}
	b := vt.Marshal()
	vEnsures("body length", len(b) == n+len(vt.VideoData))
	vEnsures("first byte", b[0] == vt.FrameType<<4|vt.CodecID)
	if n == 5 {
		vEnsures("packet type byte", b[1] == vt.AVCPacketType)
		vEnsures("composition time bytes", uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]) == vt.Cts)
	}
	vEnsures("payload", vBytesEq(b[n:], vt.VideoData))
	got, err := ParseVideoTag(vt.TagBase, b)
	vEnsures("parses", err == nil && got != nil)
	vEnsures("fields round trip", got.FrameType == vt.FrameType && got.CodecID == vt.CodecID)
	vEnsures("payload round trips", vBytesEq(got.VideoData, vt.VideoData) && vBytesEq(got.Data(), vt.VideoData))
	vEnsures("tag info kept", got.TagBase == vt.TagBase)
	if n == 5 {
		vEnsures("packet type and composition time round trip", got.AVCPacketType == vt.AVCPacketType && got.Cts == vt.Cts)
	}
}

// Any video body.
func vh_video_parse(tb TagBase, b []byte) {
	got, err := ParseVideoTag(tb, b)
	if len(b) < 1 || vIsNALTyped(b[0]&15) && len(b) < 5 {
		vEnsures("short body rejected", err != nil)
		return
	}
	vEnsures("accepted", err == nil && got != nil)
	vEnsures("tag info kept", got.TimeStamp == tb.TimeStamp)
	if vIsNALTyped(b[0] & 15) {
		vEnsures("composition time", got.Cts == uint32(b[2])<<16|uint32(b[3])<<8|uint32(b[4]))
	}
	vEnsures("same bytes", vBytesEq(got.Marshal(), b))
}

func vFramed(out []byte, typ uint8, ts uint32, body []byte) {
	n := len(body)
	vEnsures("tag length", len(out) == 11+n+4)
	vEnsures("tag type", out[0] == typ)
	vEnsures("data size", int(out[1])<<16|int(out[2])<<8|int(out[3]) == n)
	vEnsures("timestamp", uint32(out[7])<<24|uint32(out[4])<<16|uint32(out[5])<<8|uint32(out[6]) == ts)
	vEnsures("stream id zero", out[8] == 0 && out[9] == 0 && out[10] == 0)
	vEnsures("body unchanged", vBytesEq(out[11:11+n], body))
	t := out[11+n:]
	vEnsures("previous tag size", int(t[0])<<24|int(t[1])<<16|int(t[2])<<8|int(t[3]) == 11+n)
}

// A tag written to a stream.
func vh_write_audio(at AudioTag) {
	vRequires(len(at.SoundData)+2 < 1<<24)
	vFramed(FLVWrite(&at), 8, at.TimeStamp, at.Marshal())
	vEnsures("audio tag framed", true)
}
func vh_write_video(vt VideoTag) {
	vRequires(len(vt.VideoData)+5 < 1<<24)
	vFramed(FLVWrite(&vt), 9, vt.TimeStamp, vt.Marshal())
	vEnsures("video tag framed", true)
}

// The body of a script tag is produced by reflection over the tag's fields
// (github.com/fatih/structs); its contents are arbitrary here, only the
// framing around them is decided.
//verif:trusted
func vc_MetaTag_Marshal(mt *MetaTag) (b []byte) {
	b = mt.Marshal()
	vEnsures("body fits a tag", len(b) < 1<<24)
	return b
}

//verif:use vc_MetaTag_Marshal
func vh_write_meta(mt MetaTag) {
	out := FLVWrite(&mt)
	vEnsures("long enough", len(out) >= 15)
	n := len(out) - 15
	vEnsures("script tag type", out[0] == 18)
	vEnsures("script data size", int(out[1])<<16|int(out[2])<<8|int(out[3]) == n)
	vEnsures("script timestamp", uint32(out[7])<<24|uint32(out[4])<<16|uint32(out[5])<<8|uint32(out[6]) == mt.TimeStamp)
	vEnsures("script stream id", out[8] == 0 && out[9] == 0 && out[10] == 0)
	t := out[11+n:]
	vEnsures("script previous size", int(t[0])<<24|int(t[1])<<16|int(t[2])<<8|int(t[3]) == 11+n)
}
