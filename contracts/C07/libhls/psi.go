package libhls

import "github.com/sbraveyoung/GGmpeg/libmpeg"

//verif:include easy

func vWord(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// vPadded: every byte from k on is 0xff.
func vPadded(b []byte, k int) bool {
	return vForall(k, len(b), func(i int) bool { return b[i] == 0xff })
}

// The tables the HLS muxer writes, as whole transport packets.
//
//verif:unroll 200
func vh_tables(videoType, cc0, cc1 uint8) {
	vRequires(cc0 < 16 && cc1 < 16 && videoType != 0)
	h := &HLS{Pat: newPAT(videoType), Cc: map[uint16]uint8{libmpeg.PAT_PID: cc0, libmpeg.PMT_PID: cc1}}
	w := &vWriter{b: make([]byte, 376)}
	h.currentWriter = w
	err := h.writePSI()
	vEnsures("two packets", err == nil && w.n == 376 && !w.over)
	a, m := w.b[:188], w.b[188:]
	vEnsures("association packet header", a[0] == 0x47 && a[1] == 0x40 && a[2] == 0 && a[3] == 0x10|cc0)
	vEnsures("pointer", a[4] == 0)
	vEnsures("association section", a[5] == 0 && a[6] == 0xb0 && a[7] == 13)
	vEnsures("program 1 at the map PID", vWord(a[13:]) == 0x0001f001)
	vEnsures("association CRC", vWord(a[17:]) == libmpeg.CRC32(a[5:17]))
	vEnsures("association padding", vPadded(a, 21))
	vEnsures("map packet header", m[0] == 0x47 && m[1] == 0x50 && m[2] == 1 && m[3] == 0x10|cc1)
	vEnsures("map pointer", m[4] == 0)
	vEnsures("map section", m[5] == 2 && m[6] == 0xb0 && m[7] == 23)
	vEnsures("program number", m[8] == 0 && m[9] == 1)
	vEnsures("clock on video", m[13] == 0xe1 && m[14] == 0)
	x := uint32(m[17])<<16 | uint32(m[18])<<8 | uint32(m[19])
	y := uint32(m[22])<<16 | uint32(m[23])<<8 | uint32(m[24])
	au, vi := uint32(0x0fe101), uint32(videoType)<<16|0xe100
	vEnsures("audio and video streams", x == au && y == vi || x == vi && y == au)
	vEnsures("map CRC", vWord(m[27:]) == libmpeg.CRC32(m[5:27]))
	vEnsures("map padding", vPadded(m, 31))
	vEnsures("counters advance", h.Cc[libmpeg.PAT_PID] == (cc0+1)%16 && h.Cc[libmpeg.PMT_PID] == (cc1+1)%16)
}
