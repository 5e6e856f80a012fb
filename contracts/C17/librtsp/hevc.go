package librtsp

// Any unit of up to 65535 bytes and any MTU.
func vh_pack(nal []byte, mtu int) {
	vRequires(len(nal) <= 65535)
	in := append([]byte(nil), nal...)
	n := len(in)
	m := mtu
	if m <= 0 {
		m = DefaultMTU
	}
	if n < 2 || n <= m {
		out := PackHEVCNAL(nal, mtu)
		vEnsures("nothing for a unit without its header", n >= 2 || len(out) == 0)
		if n >= 2 {
			vEnsures("one payload", len(out) == 1)
			if len(out) == 1 {
				vEnsures("the unit itself", vBytesEq(out[0], in))
			}
		}
		vEnsures("unit untouched", vBytesEq(nal, in))
		return
	}
	if m <= 3 {
		out := PackHEVCNAL(nal, mtu)
		vEnsures("nothing fits", len(out) == 0)
		return
	}
	// where each fragment starts in the data after the unit's header
	f, d := m-3, n-2
	pos := make([]int, d+2)
	for vi := 0; vi < d+1; vi++ {
		pos[vi+1] = pos[vi] + f
	}
	out := PackHEVCNAL(nal, mtu)
	vEnsures("unit untouched", vBytesEq(nal, in))
	c := len(out)
	vEnsures("at least two fragments", c >= 2 && c <= d)
	vEnsures("all data sent", c >= 2 && c <= d && pos[c-1] < d && pos[c] >= d)
	vEnsures("fits", vForall(0, c, func(k int) bool { return len(out[k]) <= m }))
	vEnsures("payload header", vForall(0, c, func(k int) bool { return vHeader(in, out[k]) }))
	vEnsures("start and end", vForall(0, c, func(k int) bool {
		return (out[k][2]&0x80 != 0) == (k == 0) && (out[k][2]&0x40 != 0) == (k == c-1)
	}))
	vEnsures("data", vForall(0, c, func(k int) bool { return vData(in, out[k], pos[k], f, d) }))
}

func vHeader(in, p []byte) bool {
	return len(p) > 3 && p[0]>>1&0x3f == 49 && p[0]&0x81 == in[0]&0x81 && p[1] == in[1] && p[2]&0x3f == in[0]>>1&0x3f
}

func vData(in, p []byte, at, f, d int) bool {
	if at < 0 || at >= d {
		return false
	}
	end := at + f
	if end > d {
		end = d
	}
	return len(p) == 3+end-at && vBytesEq(p[3:], in[2+at:2+end])
}

//verif:scope vh_pack
func inv_pos(pos []int, f, d, vi int) bool {
	return vi >= 0 && vi <= d+1 && pos[0] == 0 && vForall(0, vi, func(k int) bool {
		return pos[k] >= k && pos[k] <= k*65535 && pos[k+1] == pos[k]+f
	}) && pos[vi] >= vi && pos[vi] <= vi*65535
}

//verif:scope PackHEVCNAL
func inv_frags(in []byte, pos []int, f, d, i int, out [][]byte) bool {
	c := len(out)
	return c <= d && i == pos[c] && i >= c && (c == 0 || pos[c-1] < d) && vForall(0, c, func(k int) bool {
		return vHeader(in, out[k]) && vData(in, out[k], pos[k], f, d) &&
			(out[k][2]&0x80 != 0) == (k == 0) && (out[k][2]&0x40 != 0) == (pos[k+1] >= d)
	})
}
