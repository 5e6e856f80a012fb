package libmpeg

//verif:include easy

func vPlain(id uint8) bool {
	return id != 0xbc && id != 0xbe && id != 0xbf && id != 0xf0 && id != 0xf1 && id != 0xff && id != 0xf2 && id != 0xf8
}

// vStamp is the five-byte time stamp field: prefix, 33 bits in three groups, marker bits.
func vStamp(b []byte, prefix uint8, t uint64) bool {
	return b[0] == prefix<<4|uint8(t>>30)&7<<1|1 &&
		b[1] == uint8(t>>22) && b[2] == uint8(t>>15)&0x7f<<1|1 &&
		b[3] == uint8(t>>7) && b[4] == uint8(t)&0x7f<<1|1
}

func vh_header(id uint8, pts, dts uint64, data []byte) {
	vRequires(vPlain(id))
	n := len(data)
	p := NewPES()
	p.PacketStartCodePrefix = 1
	p.StreamID = id
	p.PTS, p.DTS = pts, dts
	p.Data = data
	total := p.Remain()
	h := p.HeaderData
	k := 9 + 5
	if pts != dts {
		k = 9 + 10
	}
	vEnsures("remaining bytes", total == k+n)
	vEnsures("header bytes", len(h) == k)
	vEnsures("start code and stream id", h[0] == 0 && h[1] == 0 && h[2] == 1 && h[3] == id)
	want := k - 6 + n
	if want > 0xffff {
		want = 0
	}
	vEnsures("packet length", int(h[4])<<8|int(h[5]) == want)
	vEnsures("marker", h[6] == 0x80)
	vEnsures("header length", int(h[8]) == k-9)
	if pts == dts {
		vEnsures("flags: PTS only", h[7] == 0x80)
		vEnsures("PTS", vStamp(h[9:14], 2, pts))
	} else {
		vEnsures("flags: PTS and DTS", h[7] == 0xc0)
		vEnsures("PTS", vStamp(h[9:14], 3, pts))
		vEnsures("DTS", vStamp(h[14:19], 1, dts))
	}
}

func vh_roundtrip(id uint8, pts, dts uint64, data []byte) {
	vRequires(vPlain(id))
	p := NewPES()
	p.PacketStartCodePrefix = 1
	p.StreamID = id
	p.PTS, p.DTS = pts, dts
	p.Data = data
	p.Remain()
	q := NewPES()
	r := &vReader{b: p.HeaderData}
	err := q.Parse(r)
	vEnsures("accepted", err == nil)
	vEnsures("stream id", q.PacketStartCodePrefix == 1 && q.StreamID == id)
	vEnsures("PTS", q.PTS == pts&(1<<33-1))
	if pts != dts {
		vEnsures("DTS", q.PTS_DTSFlag == 3 && q.DTS == dts&(1<<33-1))
	} else {
		vEnsures("no DTS", q.PTS_DTSFlag == 2)
	}
	vEnsures("length", q.PESPacketLength == p.PESPacketLength && q.PESHeaderDataLength == uint8(len(p.HeaderData)-9))
	vEnsures("header consumed exactly", r.at == len(p.HeaderData))
}

// Any bytes without the optional fields the muxer never writes: rejected or
// read as they say, never a crash.
func vh_parse_any(in []byte) {
	vRequires(len(in) < 9 || in[7]&0x3f == 0)
	q := NewPES()
	r := &vReader{b: in}
	err := q.Parse(r)
	n := len(in)
	if n < 6 {
		vEnsures("truncated", err != nil)
		return
	}
	vEnsures("id", q.StreamID == in[3])
	vEnsures("length", int(q.PESPacketLength) == int(in[4])<<8|int(in[5]))
	if !vPlain(in[3]) {
		return
	}
	if n < 9 {
		vEnsures("truncated header", err != nil)
		return
	}
	switch in[7] >> 6 {
	case 2:
		vEnsures("PTS present iff complete", (err == nil) == (n >= 14))
		if err == nil {
			vEnsures("PTS", vImplies(in[9]&1 == 1 && in[11]&1 == 1 && in[13]&1 == 1, vStamp(in[9:14], in[9]>>4, q.PTS)))
			vEnsures("consumed", r.at == 14)
		}
	case 3:
		vEnsures("both present iff complete", (err == nil) == (n >= 19))
		if err == nil {
			vEnsures("PTS", vImplies(in[9]&1 == 1 && in[11]&1 == 1 && in[13]&1 == 1, vStamp(in[9:14], in[9]>>4, q.PTS)))
			vEnsures("DTS", vImplies(in[14]&1 == 1 && in[16]&1 == 1 && in[18]&1 == 1, vStamp(in[14:19], in[14]>>4, q.DTS)))
			vEnsures("consumed", r.at == 19)
		}
	default:
		vEnsures("no time stamps", err == nil && q.PTS == 0 && q.DTS == 0 && r.at == 9)
	}
}

// With clock reference, rate, trick mode, copy info or checksum fields: no crash.
func vh_parse_fields(in []byte) {
	vRequires(len(in) >= 9 && vPlain(in[3]) && in[7]&1 == 0)
	q := NewPES()
	r := &vReader{b: in}
	q.Parse(r)
	vEnsures("id", q.StreamID == in[3] && r.at <= len(in))
}

// With a header extension: no crash.
func vh_parse_extension(in []byte) {
	vRequires(len(in) >= 9 && vPlain(in[3]) && in[7]&0x3f == 1)
	q := NewPES()
	r := &vReader{b: in}
	q.Parse(r)
	vEnsures("id", q.StreamID == in[3] && r.at <= len(in))
}

// The header followed by the data is what Marshal writes when it fits.
func vh_marshal_all(id uint8, pts, dts uint64, data []byte) {
	vRequires(vPlain(id) && len(data) < 1<<20)
	p := NewPES()
	p.PacketStartCodePrefix = 1
	p.StreamID = id
	p.PTS, p.DTS = pts, dts
	p.Data = append([]byte(nil), data...)
	total := p.Remain()
	w := &vWriter{b: make([]byte, total)}
	n, fin, err := p.Marshal(w, total)
	vEnsures("written", err == nil && fin && n == total && w.n == total && !w.over)
	vEnsures("header", vBytesEq(w.b[:len(p.HeaderData)], p.HeaderData))
	vEnsures("data", vBytesEq(w.b[len(p.HeaderData):], data))
	vEnsures("nothing remains", p.Remain() == 0 || len(data) == 0)
}
