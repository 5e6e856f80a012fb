package librtsp

// Any unit of up to 65535 bytes and any MTU.
func vh_pack(nal []byte, mtu int) {
	vRequires(len(nal) <= 65535)
	in := append([]byte(nil), nal...)
	n := len(in)
	m := mtu
	if m <= 0 {
		m = DefaultMTU
	}
	if n == 0 || n <= m {
		out := PackNAL(nal, mtu)
		vEnsures("nothing for an empty unit", n > 0 || len(out) == 0)
		if n > 0 {
			vEnsures("one payload", len(out) == 1)
			if len(out) == 1 {
				vEnsures("the unit itself", vBytesEq(out[0], in))
			}
		}
		vEnsures("unit untouched", vBytesEq(nal, in))
		return
	}
	if m <= 2 {
		out := PackNAL(nal, mtu)
		vEnsures("nothing fits", len(out) == 0)
		return
	}
	// where each fragment starts in the data after the unit's header
	f, d := m-2, n-1
	pos := make([]int, d+2)
	for vi := 0; vi < d+1; vi++ {
		pos[vi+1] = pos[vi] + f
	}
	out := PackNAL(nal, mtu)
	vEnsures("unit untouched", vBytesEq(nal, in))
	c := len(out)
	vEnsures("at least two fragments", c >= 2 && c <= d)
	vEnsures("all data sent", c >= 2 && c <= d && pos[c-1] < d && pos[c] >= d)
	vEnsures("fits", vForall(0, c, func(k int) bool { return len(out[k]) <= m }))
	vEnsures("fragment header", vForall(0, c, func(k int) bool { return vHeader(in, out[k]) }))
	vEnsures("start and end", vForall(0, c, func(k int) bool {
		return (out[k][1]&0x80 != 0) == (k == 0) && (out[k][1]&0x40 != 0) == (k == c-1)
	}))
	vEnsures("data", vForall(0, c, func(k int) bool { return vData(in, out[k], pos[k], f, d) }))
}

func vHeader(in, p []byte) bool {
	return len(p) > 2 && p[0]&0x1f == 28 && p[0]&0x60 == in[0]&0x60 && p[0]&0x80&^in[0] == 0 && p[1]&0x1f == in[0]&0x1f
}

func vData(in, p []byte, at, f, d int) bool {
	if at < 0 || at >= d {
		return false
	}
	end := at + f
	if end > d {
		end = d
	}
	return len(p) == 2+end-at && vBytesEq(p[2:], in[1+at:1+end])
}

//verif:scope vh_pack
//verif:scope vh_roundtrip
func inv_pos(pos []int, f, d, vi int) bool {
	return vi >= 0 && vi <= d+1 && pos[0] == 0 && vForall(0, vi, func(k int) bool {
		return pos[k] >= k && pos[k] <= k*65535 && pos[k+1] == pos[k]+f
	}) && pos[vi] >= vi && pos[vi] <= vi*65535
}

//verif:scope PackNAL
func inv_frags(in []byte, pos []int, f, d, i int, out [][]byte) bool {
	c := len(out)
	return c <= d && i == pos[c] && i >= c && (c == 0 || pos[c-1] < d) && vForall(0, c, func(k int) bool {
		return vHeader(in, out[k]) && vData(in, out[k], pos[k], f, d) &&
			(out[k][1]&0x80 != 0) == (k == 0) && (out[k][1]&0x40 != 0) == (pos[k+1] >= d)
	})
}

// One fragment as vh_pack describes it, fed after the ones before it: the unit
// in progress grows by exactly its data, and the last one completes the unit.
func vh_feed(nal, old, p []byte, at, f int, ts uint32, marker bool) {
	vRequires(len(nal) > 1 && len(nal) <= 65535 && f > 0 && at >= 0)
	in := append([]byte(nil), nal...)
	d := len(in) - 1
	typ := in[0] & 0x1f
	vRequires(in[0]&0x80 == 0 && typ >= 1 && typ <= 23 && at < d && f < d)
	vRequires(vHeader(in, p) && vData(in, p, at, f, d))
	first, last := at == 0, at+f >= d
	vRequires((p[1]&0x80 != 0) == first && (p[1]&0x40 != 0) == last && !marker || last && (p[1]&0x80 != 0) == first && p[1]&0x40 != 0 && marker)
	vRequires(first || len(old) == 1+at && vBytesEq(old, in[:1+at]))
	r := &H264Reassembler{fuBuf: old}
	nals, t := r.Push(&RTPPacket{Timestamp: ts, Marker: marker, Payload: p})
	if !marker {
		vEnsures("nothing before the end", len(nals) == 0)
		vEnsures("unit in progress", vImplies(!last, len(r.pending) == 0 && len(r.fuBuf) == 1+at+f && vBytesEq(r.fuBuf, in[:1+at+f])))
		return
	}
	vEnsures("one unit", len(nals) == 1 && t == ts)
	if len(nals) == 1 {
		vEnsures("same unit", vBytesEq(nals[0], in))
	}
	vEnsures("nothing left", len(r.fuBuf) == 0 && len(r.pending) == 0)
}

// A unit that fits is sent as it is and comes back as it is.
func vh_single(nal []byte, ts uint32) {
	vRequires(len(nal) > 0 && len(nal) <= 65535)
	typ := nal[0] & 0x1f
	vRequires(typ >= 1 && typ <= 23)
	in := append([]byte(nil), nal...)
	r := &H264Reassembler{}
	nals, t := r.Push(&RTPPacket{Timestamp: ts, Marker: true, Payload: nal})
	vEnsures("one unit", len(nals) == 1 && t == ts)
	if len(nals) == 1 {
		vEnsures("same unit", vBytesEq(nals[0], in))
	}
}

// The two steps composed over any number of fragments (long: thorough tier).
// Fragments sent as vh_pack describes them, fed in order, give the unit back.
// A unit has a zero forbidden bit; types 24 to 31 belong to the RTP format.
//
//verif:thorough yes
//verif:time 620
func vh_roundtrip(nal []byte, mtu int, ts uint32) {
	vRequires(len(nal) > 0 && len(nal) <= 65535 && (mtu == 0 || mtu > 2))
	typ := nal[0] & 0x1f
	vRequires(nal[0]&0x80 == 0 && typ >= 1 && typ <= 23)
	in := append([]byte(nil), nal...)
	n := len(in)
	m := mtu
	if m <= 0 {
		m = DefaultMTU
	}
	f, d := m-2, n-1
	if n > m {
		pos := make([]int, d+2)
		for vi := 0; vi < d+1; vi++ {
			pos[vi+1] = pos[vi] + f
		}
		out := PackNAL(nal, mtu)
		c := len(out)
		r := &H264Reassembler{}
		early := false
		for j := 0; j < c-1; j++ {
			nals, _ := r.Push(&RTPPacket{Timestamp: ts, Payload: out[j]})
			if len(nals) > 0 {
				early = true
			}
		}
		vEnsures("nothing before the end", !early)
		if c > 0 {
			nals, t := r.Push(&RTPPacket{Timestamp: ts, Marker: true, Payload: out[c-1]})
			vEnsures("one unit", len(nals) == 1 && t == ts)
			if len(nals) == 1 {
				vEnsures("same unit", vBytesEq(nals[0], in))
			}
			vEnsures("nothing left", len(r.fuBuf) == 0 && len(r.pending) == 0)
		}
		return
	}
	out := PackNAL(nal, mtu)
	if len(out) == 1 {
		r := &H264Reassembler{}
		nals, t := r.Push(&RTPPacket{Timestamp: ts, Marker: true, Payload: out[0]})
		vEnsures("one unit", len(nals) == 1 && t == ts)
		if len(nals) == 1 {
			vEnsures("same unit", vBytesEq(nals[0], in))
		}
	}
}

//verif:scope vh_roundtrip
func inv_feed(in []byte, pos []int, f, d, c, j int, r *H264Reassembler, early bool, out [][]byte) bool {
	return !early && j >= 0 && j < c && c <= d && len(r.pending) == 0 && pos[c-1] < d && pos[c] >= d &&
		pos[j] < d && vImplies(j > 0, len(r.fuBuf) == 1+pos[j]) && vImplies(j > 0, vBytesEq(r.fuBuf, in[:1+pos[j]]))
}

// Any payload in any state: the state changes only as its first bytes say.
func vh_push(fu, old, payload []byte, ts uint32, marker bool) {
	vRequires(len(payload) <= 65535)
	in := append([]byte(nil), payload...)
	fu0 := append([]byte(nil), fu...)
	n := len(in)
	if n == 0 {
		r := &H264Reassembler{fuBuf: fu, pending: [][]byte{old}}
		nals, _ := r.Push(&RTPPacket{Timestamp: ts, Marker: marker, Payload: payload})
		vEnsures("empty payload ignored", nals == nil && len(r.pending) == 1 && len(r.fuBuf) == len(fu0))
		return
	}
	if in[0]&0x1f == 24 {
		return
	}
	r := &H264Reassembler{fuBuf: fu, pending: [][]byte{old}}
	nals, t := r.Push(&RTPPacket{Timestamp: ts, Marker: marker, Payload: payload})
	vEnsures("payload untouched", vBytesEq(payload, in))
	typ := in[0] & 0x1f
	if typ == 28 && n < 2 {
		vEnsures("truncated fragment ignored", nals == nil && len(r.pending) == 1 && len(r.fuBuf) == len(fu0))
		return
	}
	var done []byte // the unit this payload completes
	if typ >= 1 && typ <= 23 {
		done = in
	}
	if typ == 28 {
		frag := append(append([]byte(nil), fu0...), in[2:]...)
		if in[1]&0x80 != 0 {
			frag = append([]byte{in[0]&0xe0 | in[1]&0x1f}, in[2:]...)
		}
		if in[1]&0x40 != 0 {
			done = frag
			vEnsures("no unit in progress after the end", len(r.fuBuf) == 0)
		} else {
			vEnsures("unit in progress", vBytesEq(r.fuBuf, frag))
		}
	} else {
		vEnsures("unit in progress kept", vBytesEq(r.fuBuf, fu0))
	}
	got := r.pending
	if marker {
		got = nals
		vEnsures("all handed over", len(r.pending) == 0 && t == ts)
	} else {
		vEnsures("nothing handed over", nals == nil)
	}
	if len(done) > 0 {
		vEnsures("one more unit", len(got) == 2)
		if len(got) == 2 {
			vEnsures("the unit", vBytesEq(got[1], done))
		}
	} else if typ != 28 {
		vEnsures("no more units", len(got) == 1)
	}
	if len(got) > 0 {
		vEnsures("earlier unit kept", len(got[0]) == len(old))
	}
}

// An aggregation packet yields the units its size fields delimit, in order.
func vh_stap(payload []byte) {
	vRequires(len(payload) > 0 && len(payload) <= 65535 && payload[0]&0x1f == 24)
	in := append([]byte(nil), payload...)
	n := len(in)
	pos := make([]int, n+3)
	pos[0] = 1
	for vi := 0; vi < n+2; vi++ {
		pos[vi+1] = vNext(in, pos[vi])
	}
	r := &H264Reassembler{}
	nals, _ := r.Push(&RTPPacket{Payload: payload})
	vEnsures("not before the marker", nals == nil)
	vEnsures("payload untouched", vBytesEq(payload, in))
	out := r.pending
	c := len(out)
	vEnsures("units", vForall(0, c, func(k int) bool { return vUnit(in, pos, k, out[k]) }))
	vEnsures("none left out", c < n+2 && pos[c+1] == n+1)
}

// vNext is where the unit after the one at "at" starts; n+1 when that one is not complete.
func vNext(in []byte, at int) int {
	n := len(in)
	if at < 1 || at+2 > n {
		return n + 1
	}
	to := at + 2 + int(in[at])*256 + int(in[at+1])
	if to > n {
		return n + 1
	}
	return to
}

func vUnit(in []byte, pos []int, k int, u []byte) bool {
	a, b := pos[k], pos[k+1]
	return a >= 1 && a+2 <= b && b <= len(in) && vBytesEq(u, in[a+2:b])
}

//verif:scope vh_stap
func inv_next(in []byte, pos []int, vi int) bool {
	return vi >= 0 && vi <= len(in)+2 && pos[0] == 1 && vForall(0, vi, func(k int) bool {
		return pos[k+1] == vNext(in, pos[k])
	})
}

//verif:scope Push
func inv_units(in, payload []byte, pos []int, r *H264Reassembler, body []byte) bool {
	c := len(r.pending)
	return c <= len(in) && vSameBuf(body, payload) && vOff(body, payload) == pos[c] && pos[c] >= c && len(body) == len(in)-pos[c] &&
		vForall(0, c, func(k int) bool { return vUnit(in, pos, k, r.pending[k]) })
}
