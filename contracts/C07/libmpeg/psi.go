package libmpeg

//verif:include easy

func vCrcAt(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// A section for one program, whatever its numbers.
func vh_pat_one(tsid, prog, pid uint16, ver uint8, cur bool) {
	vRequires(ver < 32 && pid < 0x2000)
	p := NewPAT()
	p.SectionSyntaxIndicator = 1
	p.SectionLength = 13
	p.TransportStreamID = tsid
	p.VersionNumber = ver
	var c uint8
	if cur {
		c = 1
	}
	p.CurrentNextIndicator = c
	p.PMTs[pid] = NewPMT(prog)
	w := &vWriter{b: make([]byte, 183)}
	n, fin, err := p.Marshal(w, 183)
	vEnsures("written at once", err == nil && fin && n == 16 && w.n == 16 && p.Remain() == 16)
	b := w.b
	vEnsures("table id", b[0] == 0)
	vEnsures("section syntax and length", b[1] == 0xb0 && b[2] == 13)
	vEnsures("length covers what follows", 3+int(b[2]) == n)
	vEnsures("transport stream id", uint16(b[3])<<8|uint16(b[4]) == tsid)
	vEnsures("version and current", b[5] == 0xc0|ver<<1|c)
	vEnsures("section numbers", b[6] == 0 && b[7] == 0)
	vEnsures("program", uint16(b[8])<<8|uint16(b[9]) == prog)
	vEnsures("map PID", uint16(b[10])<<8|uint16(b[11]) == 0xe000|pid)
	vEnsures("CRC", vCrcAt(b[12:]) == CRC32(b[:12]))
}

// Two programs: both are listed, once each, in either order.
func vh_pat_two(g1, pid1, g2, pid2 uint16) {
	vRequires(pid1 < 0x2000 && pid2 < 0x2000 && pid1 != pid2)
	p := NewPAT()
	p.SectionSyntaxIndicator = 1
	p.SectionLength = 17
	p.PMTs[pid1] = NewPMT(g1)
	p.PMTs[pid2] = NewPMT(g2)
	w := &vWriter{b: make([]byte, 183)}
	n, fin, err := p.Marshal(w, 183)
	vEnsures("written at once", err == nil && fin && n == 20 && w.n == 20 && p.Remain() == 20)
	b := w.b
	vEnsures("section length", b[1] == 0xb0 && b[2] == 17)
	x, y := vCrcAt(b[8:]), vCrcAt(b[12:])
	e1, e2 := uint32(g1)<<16|0xe000|uint32(pid1), uint32(g2)<<16|0xe000|uint32(pid2)
	vEnsures("both programs", x == e1 && y == e2 || x == e2 && y == e1)
	vEnsures("CRC", vCrcAt(b[16:]) == CRC32(b[:16]))
}

func vType(t, id uint8) uint8 {
	if t != 0 {
		return t
	}
	if id>>4 == 0xe {
		return 0x1b
	}
	if id>>4 == 0xc {
		return 0x0f
	}
	return 0
}

func vh_pmt(prog, pcr, pid1, pid2 uint16, ver, t1, id1, t2, id2 uint8) {
	vRequires(ver < 32 && pcr < 0x2000 && pid1 < 0x2000 && pid2 < 0x2000 && pid1 != pid2)
	p := NewPMT(prog)
	p.TableID = 2
	p.SectionSyntaxIndicator = 1
	p.SectionLength = 23
	p.VersionNumber = ver
	p.CurrentNextIndicator = 1
	p.PCR_PID = pcr
	p.Streams[pid1] = &PES{StreamID: id1, StreamType: t1}
	p.Streams[pid2] = &PES{StreamID: id2, StreamType: t2}
	w := &vWriter{b: make([]byte, 183)}
	n, fin, err := p.Marshal(w, 183)
	vEnsures("written at once", err == nil && fin && n == 26 && w.n == 26 && p.Remain() == 26)
	b := w.b
	vEnsures("table id", b[0] == 2)
	vEnsures("section length covers what follows", b[1] == 0xb0 && 3+int(b[2]) == n)
	vEnsures("program", uint16(b[3])<<8|uint16(b[4]) == prog)
	vEnsures("version", b[5] == 0xc1|ver<<1)
	vEnsures("section numbers", b[6] == 0 && b[7] == 0)
	vEnsures("clock PID", uint16(b[8])<<8|uint16(b[9]) == 0xe000|pcr)
	vEnsures("no program descriptors", b[10] == 0xf0 && b[11] == 0)
	vEnsures("no stream descriptors", b[15] == 0xf0 && b[16] == 0 && b[20] == 0xf0 && b[21] == 0)
	x := uint32(b[12])<<16 | uint32(b[13])<<8 | uint32(b[14])
	y := uint32(b[17])<<16 | uint32(b[18])<<8 | uint32(b[19])
	e1 := uint32(vType(t1, id1))<<16 | 0xe000 | uint32(pid1)
	e2 := uint32(vType(t2, id2))<<16 | 0xe000 | uint32(pid2)
	vEnsures("both streams", x == e1 && y == e2 || x == e2 && y == e1)
	vEnsures("CRC", vCrcAt(b[22:]) == CRC32(b[:22]))
}

// A section that does not fit is refused.
func vh_too_small(writable int) {
	p := NewPAT()
	p.PMTs[1] = NewPMT(1)
	w := &vWriter{b: make([]byte, 200)}
	vRequires(writable < 16)
	n, fin, err := p.Marshal(w, writable)
	vEnsures("refused", err != nil && !fin && n == 0 && w.n == 0)
}
