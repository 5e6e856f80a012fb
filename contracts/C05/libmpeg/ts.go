package libmpeg

//verif:include easy

// vPacket is a transport packet of the given stream: its header fields, an
// adaptation field that is consistent when there is one, and stuffing only
// inside it. vStart is where its payload starts.
func vPacket(b []byte, pid uint16, pusi bool, cc uint8) bool {
	u := uint8(0)
	if pusi {
		u = 0x40
	}
	return b[0] == 0x47 && b[1] == u|uint8(pid>>8) && b[2] == uint8(pid) &&
		b[3]&0xdf == 0x10|cc && vStart(b) <= 188
}

func vStart(b []byte) int {
	if b[3]&0x20 == 0 {
		return 4
	}
	return 5 + int(b[4])
}

// vStuffed: from byte k up to the payload there is only stuffing.
func vStuffed(b []byte, k int) bool {
	return vForall(k, vStart(b), func(i int) bool { return b[i] == 0xff })
}

// The clock reference: 33 bits, six reserved ones, extension 0.
func vPCR(b []byte, t uint64) bool {
	return b[0] == uint8(t>>25) && b[1] == uint8(t>>17) && b[2] == uint8(t>>9) && b[3] == uint8(t>>1) &&
		b[4] == uint8(t)<<7|0x7e && b[5] == 0
}

func vAV(pid uint16) bool { return pid == AUDIO_PID || pid == VIDEO_PID }

// The first packet of an elementary-stream packet.
func vh_first(pid uint16, c uint8, other uint16, oc uint8, pts, dts uint64, data []byte) {
	vFirst(pid, c, other, oc, false, pts, dts, data)
}

func vh_first_key(pid uint16, c uint8, other uint16, oc uint8, pts, dts uint64, data []byte) {
	vFirst(pid, c, other, oc, true, pts, dts, data)
}

func vFirst(pid uint16, c uint8, other uint16, oc uint8, key bool, pts, dts uint64, data []byte) {
	vRequires(vAV(pid) && c < 16 && other != pid)
	vRequires(len(data) < 1<<30)
	cc := map[uint16]uint8{pid: c, other: oc}
	p := NewPES()
	p.PacketStartCodePrefix = 1
	p.StreamID = 0xe0
	if pid == AUDIO_PID {
		p.StreamID = 0xc0
	}
	p.PTS, p.DTS = pts, dts
	p.Data = data
	w := &vWriter{b: make([]byte, 188)}
	finish, err := NewTs(pid, cc, true).Mux(p, key, dts, w)
	h := p.HeaderData
	vEnsures("no error", err == nil)
	vEnsures("188 bytes", w.n == 188 && !w.over)
	b := w.b
	vEnsures("packet header", vPacket(b, pid, true, c))
	vEnsures("counter advances by one modulo 16", cc[pid] == (c+1)&15 && cc[other] == oc)
	s := vStart(b)
	if key {
		vEnsures("random access and clock reference", b[3]&0x20 != 0 && b[4] >= 7 && b[5] == 0x50)
		vEnsures("clock reference", vPCR(b[6:12], dts))
		vEnsures("stuffing", vStuffed(b, 12))
	} else if b[3]&0x20 != 0 {
		vEnsures("no flags", b[4] == 0 || b[5] == 0)
		vEnsures("stuffing", vStuffed(b, 6))
	}
	n := 188 - s
	total := len(h) + len(data)
	vEnsures("only payload left is stuffed for", n <= total && vImplies(n < total && !key, s == 4) && vImplies(n < total && key, s == 12))
	vEnsures("stream header first", len(h) <= n && vBytesEq(b[s:s+len(h)], h) && p.HeaderIndex == len(h))
	vEnsures("then the data from the start", p.Index == n-len(h) && vBytesEq(b[s+len(h):188], data[:n-len(h)]))
	vEnsures("finished exactly when all is written", finish == (n == total))
}

// Every further packet, from any position inside the data.
func vh_next(pid uint16, c uint8, other uint16, oc uint8, h, data []byte, from int, dts uint64) {
	vRequires(vAV(pid) && c < 16 && other != pid)
	vRequires(0 < from && from < len(data) && len(data) < 1<<30)
	cc := map[uint16]uint8{pid: c, other: oc}
	p := NewPES()
	p.HeaderData = h
	p.HeaderIndex = len(h)
	p.Data = data
	p.Index = from
	w := &vWriter{b: make([]byte, 188)}
	finish, err := NewTs(pid, cc, false).Mux(p, false, dts, w)
	vEnsures("no error", err == nil)
	vEnsures("188 bytes", w.n == 188 && !w.over)
	b := w.b
	vEnsures("packet header", vPacket(b, pid, false, c))
	vEnsures("counter advances by one modulo 16", cc[pid] == (c+1)&15 && cc[other] == oc)
	if b[3]&0x20 != 0 {
		vEnsures("no flags", b[4] == 0 || b[5] == 0)
		vEnsures("stuffing", vStuffed(b, 6))
	}
	s := vStart(b)
	n := 188 - s
	vEnsures("only payload left is stuffed for", n <= len(data)-from && vImplies(n < len(data)-from, s == 4))
	vEnsures("the next data bytes", p.Index == from+n && p.HeaderIndex == len(h) && vBytesEq(b[s:188], data[from:from+n]))
	vEnsures("finished exactly when all is written", finish == (from+n == len(data)))
}

// A table packet: pointer, section, stuffing.
//
//verif:unroll 200
func vh_pat(c uint8, tsid, prog, pid uint16) {
	vRequires(c < 16 && pid < 0x2000 && pid != 0)
	cc := map[uint16]uint8{PAT_PID: c}
	p := NewPAT()
	p.SectionSyntaxIndicator = 1
	p.SectionLength = 13
	p.TransportStreamID = tsid
	p.PMTs[pid] = &PMT{ProgramNumber: prog}
	w := &vWriter{b: make([]byte, 188)}
	finish, err := NewTs(PAT_PID, cc, true).Mux(p, false, 0, w)
	b := w.b
	vEnsures("one packet", err == nil && finish && w.n == 188 && !w.over)
	vEnsures("packet header", vPacket(b, 0, true, c) && b[3]&0x20 == 0 && cc[0] == (c+1)&15)
	vEnsures("pointer", b[4] == 0)
	l := int(b[6])&0x0f<<8 | int(b[7])
	vEnsures("section fits", b[5] == 0 && l == 13)
	vEnsures("rest stuffed", vForall(8+l, 188, func(i int) bool { return b[i] == 0xff }))
}

//verif:scope Fill0XFF
func inv_fill(i, n int, w *vWriter) bool {
	return vImplies(n > 0, w.n == vWasInt(&w.n)+i) && vImplies(n <= 0, w.n == vWasInt(&w.n)) && !w.over && vImplies(n > 0, i <= n) && vImplies(n <= 0, i == 0) && vKept(w.b, 0, vWasInt(&w.n)) &&
		vForall(vWasInt(&w.n), w.n, func(k int) bool { return w.b[k] == 0xff })
}
