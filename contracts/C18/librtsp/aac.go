package librtsp

func vh_pack_extract(frame []byte) {
	vRequires(len(frame) > 0)
	if len(frame) > 8191 {
		frame = frame[:8191]
	}
	in := append([]byte(nil), frame...)
	p := PackAACFrame(frame)
	vEnsures("length", len(p) == 4+len(in))
	vEnsures("one header of 16 bits", p[0] == 0 && p[1] == 16)
	vEnsures("size", int(p[2])<<5|int(p[3])>>3 == len(in))
	vEnsures("index 0", p[3]&7 == 0)
	vEnsures("frame", vBytesEq(p[4:], in))
	out := AACAUExtract(p)
	vEnsures("one unit", len(out) == 1)
	if len(out) == 1 {
		vEnsures("same unit", vBytesEq(out[0], in))
	}
}

// Larger frames do not fit the 13-bit size: nothing but a frame that
// declares its own length may be produced.
func vh_pack_large(frame []byte) {
	p := PackAACFrame(frame)
	if len(p) > 0 {
		vEnsures("declares its own length", len(p) >= 4 && int(p[2])<<5|int(p[3])>>3 == len(p)-4)
	}
}

// Any received payload: the units it declares that are present, in order.
func vh_extract(payload []byte) {
	if len(payload) > 70000 {
		payload = payload[:70000]
	}
	in := append([]byte(nil), payload...)
	n := len(in)
	// the sizes the headers declare and where each unit starts
	cnt, body := 0, 0
	if n >= 2 {
		h := (int(in[0])*256 + int(in[1]) + 7) / 8
		if 2+h <= n {
			cnt, body = h/2, 2+h
		}
	}
	pos := make([]int, cnt+1)
	pos[0] = body
	for vi := 0; vi < cnt; vi++ {
		pos[vi+1] = pos[vi] + vSize(in, vi)
	}
	out := AACAUExtract(payload)
	vEnsures("payload untouched", vBytesEq(payload, in))
	vEnsures("no more units than headers", len(out) <= cnt)
	vEnsures("units", vForall(0, len(out), func(k int) bool {
		return pos[k+1] <= n && vSize(in, k) > 0 && vBytesEq(out[k], in[pos[k]:pos[k+1]])
	}))
	vEnsures("none left out", len(out) == cnt || vSize(in, len(out)) == 0 || pos[len(out)+1] > n)
}
func vSize(in []byte, k int) int { return (int(in[2+2*k])*256 + int(in[3+2*k])) / 8 }

//verif:scope vh_extract
func inv_pos(in []byte, pos []int, cnt, body, vi int) bool {
	return vi >= 0 && vi <= cnt && len(pos) == cnt+1 && pos[0] == body && vForall(0, vi, func(k int) bool {
		return pos[k] >= body && pos[k] <= body+k*8192 && pos[k+1] == pos[k]+vSize(in, k)
	})
}

//verif:scope AACAUExtract
func inv_sizes(headers []byte, off int, auSizes []int) bool {
	return off >= 0 && off&1 == 0 && off <= len(headers) && 2*len(auSizes) == off &&
		vForall(0, len(auSizes), func(k int) bool { return auSizes[k] == (int(headers[2*k])*256+int(headers[2*k+1]))/8 })
}

//verif:scope AACAUExtract
func inv_units(payload, in []byte, pos []int, cnt, n int, auSizes []int, body []byte, out [][]byte, ri int) bool {
	return ri >= -1 && ri < len(auSizes) && len(auSizes) == cnt && len(out) == ri+1 &&
		vSameBuf(body, payload) && vOff(body, payload) == pos[ri+1] && len(body) == n-pos[ri+1] &&
		vForall(0, len(out), func(k int) bool {
			return pos[k+1] <= n && vSize(in, k) > 0 && vBytesEq(out[k], in[pos[k]:pos[k+1]])
		})
}
