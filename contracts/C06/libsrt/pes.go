package libsrt

import "github.com/sbraveyoung/GGmpeg/libmpeg"

// What the muxer's header says is what the ingest demultiplexer reads back.
func vh_demux(id uint8, pts, dts uint64, data []byte) {
	vRequires(id>>4 == 0xc && len(data) < 1<<20 || id>>4 == 0xe && len(data) < 1<<20)
	p := libmpeg.NewPES()
	p.PacketStartCodePrefix = 1
	p.StreamID = id
	p.PTS, p.DTS = pts, dts
	p.Data = data
	p.Remain()
	b := append(append([]byte(nil), p.HeaderData...), data...)
	a, d, body, ok := parsePESHeader(b)
	vEnsures("accepted", ok)
	vEnsures("PTS", a == pts&(1<<33-1))
	vEnsures("DTS", d == dts&(1<<33-1))
	vEnsures("payload", vBytesEq(body, data))
}

func vStampOf(b []byte) uint64 {
	return uint64(b[0]>>1&7)<<30 | uint64(b[1])<<22 | uint64(b[2]>>1)<<15 | uint64(b[3])<<7 | uint64(b[4]>>1)
}

// Any elementary packet header, well-formed or not.
func vh_parse(b []byte) {
	n := len(b)
	pts, dts, body, ok := parsePESHeader(b)
	if n < 9 || b[0] != 0 || b[1] != 0 || b[2] != 1 || 9+int(b[8]) > n {
		vEnsures("not a packet header", !ok && body == nil)
		return
	}
	k := int(b[8])
	if b[7]>>6 == 2 && k < 5 || b[7]>>6 == 3 && k < 10 {
		vEnsures("time stamps do not fit", !ok)
		return
	}
	vEnsures("accepted", ok)
	vEnsures("payload", vBytesEq(body, b[9+k:]))
	switch b[7] >> 6 {
	case 2:
		vEnsures("PTS", pts == vStampOf(b[9:]) && dts == pts)
	case 3:
		vEnsures("PTS", pts == vStampOf(b[9:]))
		vEnsures("DTS", dts == vStampOf(b[14:]))
	default:
		vEnsures("none", pts == 0 && dts == 0)
	}
}
