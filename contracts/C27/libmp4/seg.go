package libmp4

// Where each sample's bytes start in buf; the last entry is where they all end.
var (
	vPos []int
	vBuf []byte
	vSam []Sample
	vW   int // any one sample
	vOut []byte
)

func vU(b []byte, o, n int) uint64 {
	r := uint64(0)
	for vk := 0; vk < n; vk++ {
		r = r<<8 | uint64(b[o+vk])
	}
	return r
}

// vBox checks the box that starts at o and ends at e.
func vBox(b []byte, o, e int, typ string) {
	vEnsures("box size", vU(b, o, 4) == uint64(e-o))
	vEnsures("box type", vU(b, o+4, 4) == uint64(typ[0])<<24|uint64(typ[1])<<16|uint64(typ[2])<<8|uint64(typ[3]))
}

// vEntry: the 16 bytes at o are the run table's entry for sample s.
func vEntry(b []byte, o int, s Sample) bool {
	f := uint64(0x01010000)
	if s.IsKey {
		f = 0x02000000
	}
	return vU(b, o, 4) == uint64(s.Duration) && vU(b, o+4, 4) == uint64(s.Size) &&
		vU(b, o+8, 4) == f && vU(b, o+12, 4) == uint64(uint32(s.CompositionTimeOffset))
}

// The samples are consecutive pieces of buf, of any sizes and with any other fields.
func vSetUp(buf []byte, samples []Sample, cuts []uint16, w int) {
	n := len(samples)
	vRequires(len(buf) < 1<<30 && n < 1<<26 && len(cuts) >= n && w < n)
	vBuf, vSam, vW = buf, samples, w
	vPos = make([]int, n+1)
	for vi := 0; vi < n; vi++ {
		p := vPos[vi]
		q := p + int(cuts[vi])
		if q > len(buf) {
			q = len(buf)
		}
		vPos[vi+1] = q
		samples[vi].Data = buf[p:q]
		samples[vi].Size = uint32(q - p)
	}
}

//verif:scope vSetUp
func inv_setup(buf []byte, samples []Sample, vi int) bool {
	return 0 <= vi && vi <= len(samples) && vPos[0] == 0 && len(vPos) == len(samples)+1 &&
		vForall(0, vi+1, func(k int) bool { return 0 <= vPos[k] && vPos[k] <= vPos[vi] && vPos[k] <= len(buf) }) &&
		vForall(0, vi, func(k int) bool { return vPiece(k) })
}

func vPiece(k int) bool {
	return vPos[k] <= vPos[k+1] && len(vSam[k].Data) == vPos[k+1]-vPos[k] && vSam[k].Size == uint32(vPos[k+1]-vPos[k]) &&
		vImplies(vPos[k] < vPos[k+1], vSameBuf(vSam[k].Data, vBuf) && vOff(vSam[k].Data, vBuf) == vPos[k])
}

//verif:scope BuildMediaSegment
func inv_mdat(mdatBody []byte, ri int) bool {
	return ri < len(vSam) && len(mdatBody) == vPos[ri+1] && vBytesEq(mdatBody, vBuf[:vPos[ri+1]])
}

//verif:scope trun
func inv_trun(body []byte, dataOffset int32, ri int) bool {
	return ri < len(vSam) && len(body) == 28+16*ri && vU(body, 0, 4) == 0x1000f01 && vU(body, 4, 4) == uint64(len(vSam)) && vU(body, 8, 4) == uint64(uint32(dataOffset)) && vImplies(vW <= ri, vEntry(body, 12+16*vW, vSam[vW]))
}

func vc_trun(samples []Sample, off int32) []byte {
	n := len(samples)
	vRequires(0 <= vW && vW < n && n < 1<<26)
	b := trun(samples, off)
	vEnsures("its own memory", vFresh(b))
	vEnsures("size", len(b) == 20+16*n)
	if len(b) == 20+16*n {
		vBox(b, 0, len(b), "trun")
		vEnsures("what it lists", vU(b, 8, 4) == 0x1000f01)
		vEnsures("one entry per sample", vU(b, 12, 4) == uint64(n))
		vEnsures("data offset", vU(b, 16, 4) == uint64(uint32(off)))
		vEnsures("each sample's entry", vEntry(b, 20+16*vW, samples[vW]))
	}
	return b
}

func vc_buildMoof(p MediaSegmentParams, off int32) []byte {
	n := len(p.Samples)
	vRequires(0 <= vW && vW < n && n < 1<<26)
	out := buildMoof(p, off)
	vEnsures("its own memory", vFresh(out))
	m := 88 + 16*n
	vEnsures("size", len(out) == m)
	if len(out) == m {
		vBox(out, 0, m, "moof")
		vBox(out, 8, 24, "mfhd")
		vEnsures("sequence number", vU(out, 16, 4) == 0 && vU(out, 20, 4) == uint64(p.SequenceNumber))
		vBox(out, 24, m, "traf")
		vBox(out, 32, 48, "tfhd")
		vEnsures("offsets are from the fragment's start", vU(out, 40, 4) == 0x20000)
		vEnsures("track", vU(out, 44, 4) == uint64(p.TrackID))
		vBox(out, 48, 68, "tfdt")
		vEnsures("base decode time", vU(out, 56, 4) == 0x1000000 && vU(out, 60, 8) == p.BaseDecodeTime)
		vBox(out, 68, m, "trun")
		vEnsures("what the run table lists", vU(out, 76, 4) == 0x1000f01)
		vEnsures("one entry per sample", vU(out, 80, 4) == uint64(n))
		vEnsures("data offset", vU(out, 84, 4) == uint64(uint32(off)))
		vEnsures("each sample's entry", vEntry(out, 88+16*vW, p.Samples[vW]))
	}
	return out
}

func vh_trun(samples []Sample, w uint32, off int32) {
	vRequires(int(w) < len(samples) && len(samples) < 1<<26)
	vSam, vW = samples, int(w)
	vc_trun(samples, off)
}

//verif:use vc_trun
func vh_moof(p MediaSegmentParams, w uint32, off int32) {
	vRequires(int(w) < len(p.Samples) && len(p.Samples) < 1<<26)
	vSam, vW = p.Samples, int(w)
	vc_buildMoof(p, off)
}

//verif:use vc_buildMoof
func vh_segment(buf []byte, samples []Sample, cuts []uint16, w0 uint32, id, seq uint32, base uint64) {
	w := int(w0)
	vSetUp(buf, samples, cuts, w)
	n := len(samples)
	out := BuildMediaSegment(MediaSegmentParams{TrackID: id, SequenceNumber: seq, BaseDecodeTime: base, Samples: samples})
	m := 88 + 16*n
	e := m + 8 + vPos[n]
	vEnsures("the media data ends the segment", len(out) == e)
	if len(out) != e {
		return
	}
	vBox(out, 0, m, "moof")
	vEnsures("sequence number", vU(out, 16, 4) == 0 && vU(out, 20, 4) == uint64(seq))
	vEnsures("offsets are from the fragment's start", vU(out, 40, 4) == 0x20000)
	vEnsures("track", vU(out, 44, 4) == uint64(id))
	vEnsures("base decode time", vU(out, 56, 4) == 0x1000000 && vU(out, 60, 8) == base)
	vBox(out, 68, m, "trun")
	vEnsures("one entry per sample", vU(out, 80, 4) == uint64(n))
	vEnsures("the data offset leads to the first sample", vU(out, 84, 4) == uint64(m+8))
	vEnsures("each sample's entry", vEntry(out, 88+16*w, samples[w]))
}

//verif:use vc_buildMoof
func vh_media(buf []byte, samples []Sample, cuts []uint16, w0 uint32, id, seq uint32, base uint64) {
	w := int(w0)
	vSetUp(buf, samples, cuts, w)
	n := len(samples)
	out := BuildMediaSegment(MediaSegmentParams{TrackID: id, SequenceNumber: seq, BaseDecodeTime: base, Samples: samples})
	m := 88 + 16*n
	e := m + 8 + vPos[n]
	vEnsures("the media data ends the segment", len(out) == e)
	if len(out) != e {
		return
	}
	vBox(out, m, e, "mdat")
	vEnsures("the samples in order", vBytesEq(out[m+8:e], buf[:vPos[n]]))
	vEnsures("each sample's bytes are where the table says", vBytesEq(out[m+8+vPos[w]:m+8+vPos[w+1]], samples[w].Data))
}

func vh_empty(id, seq uint32, base uint64) {
	vEnsures("nothing for no samples", len(BuildMediaSegment(MediaSegmentParams{TrackID: id, SequenceNumber: seq, BaseDecodeTime: base})) == 0)
}
