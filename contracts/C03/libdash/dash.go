package libdash

// The dimension parser is verified on its own (check C28).
//verif:trusted
func vc_parseSPSDimensions(sps []byte) (width, height uint16) {
	return parseSPSDimensions(sps)
}

//verif:use vc_parseSPSDimensions
func vh_dash_dcr(src []byte) {
	sps, pps, _, _, err := parseAVCDCR(src)
	if err != nil {
		return
	}
	vRequires(src[5]&0x1f == 1)
	vCover("accepted")
	vEnsures("long enough", len(src) >= 11)
	n := int(src[6])<<8 | int(src[7])
	vEnsures("sps inside the record", 8+n+3 <= len(src))
	m := int(src[8+n+1])<<8 | int(src[8+n+2])
	vEnsures("pps inside the record", 8+n+3+m <= len(src))
	vEnsures("sps bytes", vBytesEq(sps, src[8:8+n]))
	vEnsures("pps bytes", vBytesEq(pps, src[11+n:11+n+m]))
}

//verif:use vc_parseSPSDimensions
func vh_dash_dcr_ok(head [5]byte, sps, pps, tail []byte) {
	vRequires(len(sps) > 0 && len(sps) < 1<<16 && len(pps) > 0 && len(pps) < 1<<16)
	src := append([]byte{}, head[:]...)
	src = append(src, 0xe1, byte(len(sps)>>8), byte(len(sps)))
	src = append(src, sps...)
	src = append(src, 1, byte(len(pps)>>8), byte(len(pps)))
	src = append(src, pps...)
	src = append(src, tail...)
	s, p, _, _, err := parseAVCDCR(src)
	vEnsures("accepted", err == nil)
	vEnsures("sps bytes", vBytesEq(s, sps))
	vEnsures("pps bytes", vBytesEq(p, pps))
}
