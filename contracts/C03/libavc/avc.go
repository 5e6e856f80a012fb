package libavc

// C03: parameter sets extracted from a decoder configuration record.
func vh_specific_info(p Parser, src []byte) {
	old := p.SpecificInfo
	_ = old
	err := p.ParseSpecificInfo(src)
	if err != nil {
		return
	}
	vCover("accepted")
	vEnsures("long enough", len(src) >= 11)
	n := int(src[6])<<8 | int(src[7])
	vEnsures("sps inside the record", n > 0 && 8+n+3 <= len(src))
	m := int(src[8+n+1])<<8 | int(src[8+n+2])
	vEnsures("pps inside the record", m > 0 && 8+n+3+m <= len(src))
	o := p.SpecificInfo
	vEnsures("only the two parameter sets", len(o) == 4+n+4+m)
	vEnsures("sps start code", o[0] == 0 && o[1] == 0 && o[2] == 0 && o[3] == 1)
	vEnsures("sps bytes", vBytesEq(o[4:4+n], src[8:8+n]))
	vEnsures("pps start code", o[4+n] == 0 && o[5+n] == 0 && o[6+n] == 0 && o[7+n] == 1)
	vEnsures("pps bytes", vBytesEq(o[8+n:], src[11+n:11+n+m]))
}

// A well-formed record (one SPS, one PPS, anything after them) is accepted.
func vh_specific_info_ok(p Parser, head [5]byte, sps, pps, tail []byte) {
	vRequires(len(sps) > 0 && len(sps) < 1<<16 && len(pps) > 0 && len(pps) < 1<<16)
	src := append([]byte{}, head[:]...)
	src = append(src, 0xe1, byte(len(sps)>>8), byte(len(sps)))
	src = append(src, sps...)
	src = append(src, 1, byte(len(pps)>>8), byte(len(pps)))
	src = append(src, pps...)
	src = append(src, tail...)
	vEnsures("accepted", p.ParseSpecificInfo(src) == nil)
}
