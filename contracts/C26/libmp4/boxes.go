package libmp4

func vU(b []byte, o, n int) uint64 {
	r := uint64(0)
	for vk := 0; vk < n; vk++ {
		r = r<<8 | uint64(b[o+vk])
	}
	return r
}

// vBox checks the box that starts at o and ends at e.
func vBox(b []byte, o, e int, typ string) {
	vEnsures("box size", vU(b, o, 4) == uint64(e-o))
	vEnsures("box type", vU(b, o+4, 4) == uint64(typ[0])<<24|uint64(typ[1])<<16|uint64(typ[2])<<8|uint64(typ[3]))
}

func vh_numbers(pre []byte, a uint8, b uint16, c, d uint32, e uint64) {
	n := len(pre)
	out := appendU64(appendU32(appendU24(appendU16(appendU8(append([]byte(nil), pre...), a), b), c), d), e)
	vEnsures("length", len(out) == n+18)
	if len(out) != n+18 {
		return
	}
	vEnsures("what was there is kept", vBytesEq(out[:n], pre))
	vEnsures("8", out[n] == a)
	vEnsures("16", vU(out, n+1, 2) == uint64(b))
	vEnsures("24", vU(out, n+3, 3) == uint64(c&0xffffff))
	vEnsures("32", vU(out, n+6, 4) == uint64(d))
	vEnsures("64", vU(out, n+10, 8) == e)
}

func vh_full_header(v uint8, f uint32) {
	b := FullBoxHeader(v, f)
	vEnsures("version and flags", len(b) == 4 && b[0] == v && vU(b, 1, 3) == uint64(f&0xffffff))
}

func vh_box(t0, t1, t2, t3 uint8, body []byte) {
	vRequires(len(body) < 1<<32-8)
	b := Box{Type: [4]byte{t0, t1, t2, t3}, Body: body}.Bytes()
	vEnsures("size", len(b) == 8+len(body) && vU(b, 0, 4) == uint64(len(b)))
	vEnsures("type", b[4] == t0 && b[5] == t1 && b[6] == t2 && b[7] == t3)
	vEnsures("body", vBytesEq(b[8:], body))
}

func vh_container(a, b, c []byte, n int) {
	vRequires(len(a)+len(b)+len(c) < 1<<31 && 0 <= n && n <= 3)
	var out []byte
	switch n {
	case 0:
		out = container("moof")
	case 1:
		out = container("moof", a)
	case 2:
		out = container("moof", a, b)
	default:
		out = container("moof", a, b, c)
	}
	l := 8
	if n > 0 {
		l += len(a)
	}
	if n > 1 {
		l += len(b)
	}
	if n > 2 {
		l += len(c)
	}
	vEnsures("size", len(out) == l && vU(out, 0, 4) == uint64(l) && vU(out, 4, 4) == 0x6d6f6f66)
	if len(out) != l {
		return
	}
	if n > 0 {
		vEnsures("first child", vBytesEq(out[8:8+len(a)], a))
	}
	if n > 1 {
		vEnsures("second child", vBytesEq(out[8+len(a):8+len(a)+len(b)], b))
	}
	if n > 2 {
		vEnsures("third child", vBytesEq(out[8+len(a)+len(b):l], c))
	}
}

// vMovie checks the boxes of an initialisation segment with a codec box of l
// bytes, down to that box, and gives where it starts. Every box tiles its parent.
func vMovie(b []byte, l int, entry, codec string, track, scale uint32, w, h uint16) int {
	const (
		moov = 28
		mvhd = moov + 8
		trak = mvhd + 120
		tkhd = trak + 8
		mdia = tkhd + 104
		mdhd = mdia + 8
		hdlr = mdhd + 44
		minf = hdlr + 45
		vmhd = minf + 8
		dinf = vmhd + 20
		dref = dinf + 8
		stbl = dref + 28
		stsd = stbl + 8
		code = stsd + 16
		last = code + 86
	)
	n := len(b)
	vEnsures("total size", n == last+l+16+16+20+16+8+32)
	if n != last+l+16+16+20+16+8+32 {
		return -1
	}
	stts := last + l
	stsc := stts + 16
	stsz := stsc + 16
	stco := stsz + 20
	mvex := stco + 16
	trex := mvex + 8
	vBox(b, 0, moov, "ftyp")
	vBox(b, moov, n, "moov")
	vBox(b, mvhd, trak, "mvhd")
	vBox(b, trak, mvex, "trak")
	vBox(b, tkhd, mdia, "tkhd")
	vBox(b, mdia, mvex, "mdia")
	vBox(b, mdhd, hdlr, "mdhd")
	vBox(b, hdlr, minf, "hdlr")
	vBox(b, minf, mvex, "minf")
	vBox(b, vmhd, dinf, "vmhd")
	vBox(b, dinf, stbl, "dinf")
	vBox(b, dref, stbl, "dref")
	vBox(b, dref+16, stbl, "url ")
	vBox(b, stbl, mvex, "stbl")
	vBox(b, stsd, stts, "stsd")
	vBox(b, code, stts, entry)
	vBox(b, last, stts, codec)
	vBox(b, stts, stsc, "stts")
	vBox(b, stsc, stsz, "stsc")
	vBox(b, stsz, stco, "stsz")
	vBox(b, stco, mvex, "stco")
	vBox(b, mvex, n, "mvex")
	vBox(b, trex, n, "trex")
	vEnsures("movie time scale", b[mvhd+8] == 1 && vU(b, mvhd+28, 4) == uint64(scale))
	vEnsures("track header", b[tkhd+8] == 1 && vU(b, tkhd+28, 4) == uint64(track))
	vEnsures("picture size", vU(b, tkhd+96, 4) == uint64(w)<<16 && vU(b, tkhd+100, 4) == uint64(h)<<16)
	vEnsures("media time scale", b[mdhd+8] == 1 && vU(b, mdhd+28, 4) == uint64(scale))
	vEnsures("video handler", vU(b, hdlr+16, 4) == 0x76696465)
	vEnsures("one reference", vU(b, dref+12, 4) == 1)
	vEnsures("one sample entry", vU(b, stsd+12, 4) == 1)
	vEnsures("entry fields", vU(b, code+14, 2) == 1 && vU(b, code+32, 2) == uint64(w) && vU(b, code+34, 2) == uint64(h))
	vEnsures("empty tables", vU(b, stts+12, 4) == 0 && vU(b, stsc+12, 4) == 0 && vU(b, stsz+12, 8) == 0 && vU(b, stco+12, 4) == 0)
	vEnsures("track of the defaults", vU(b, trex+12, 4) == uint64(track))
	return last
}

func vh_init_avc(track, scale uint32, w, h uint16, sps, pps []byte) {
	vRequires(len(sps) <= 65535 && len(pps) <= 65535)
	b := BuildInitSegment(InitSegmentParams{track, scale, w, h, sps, pps})
	l := 8 + 6 + 2 + len(sps) + 1 + 2 + len(pps)
	if len(sps) < 4 {
		l = 8
	}
	o := vMovie(b, l, "avc1", "avcC", track, scale, w, h)
	if len(sps) < 4 || o < 0 {
		return
	}
	o += 8
	vEnsures("configuration head", b[o] == 1 && b[o+1] == sps[1] && b[o+2] == sps[2] && b[o+3] == sps[3] && b[o+4] == 0xff && b[o+5] == 0xe1)
	vEnsures("sequence parameter set", vU(b, o+6, 2) == uint64(len(sps)) && vBytesEq(b[o+8:o+8+len(sps)], sps))
	o += 8 + len(sps)
	vEnsures("picture parameter set", b[o] == 1 && vU(b, o+1, 2) == uint64(len(pps)) && vBytesEq(b[o+3:o+3+len(pps)], pps))
}

func vh_init_hevc(track, scale uint32, w, h uint16, rec []byte) {
	vRequires(len(rec) < 1<<30)
	b := BuildHEVCInitSegment(HEVCInitParams{track, scale, w, h, rec})
	o := vMovie(b, 8+len(rec), "hev1", "hvcC", track, scale, w, h)
	vEnsures("configuration verbatim", o >= 0 && vBytesEq(b[o+8:o+8+len(rec)], rec))
}

func vh_segment_type() {
	b := BuildSegmentType()
	vEnsures("segment type box", len(b) == 24)
	vBox(b, 0, len(b), "styp")
}
