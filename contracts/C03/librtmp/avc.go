package librtmp

func vh_rtsp_dcr(src []byte) {
	sps, pps, _, _, err := parseAVCDCRForRTSP(src)
	if err != nil {
		return
	}
	vRequires(src[5]&0x1f == 1)
	vCover("accepted")
	vEnsures("long enough", len(src) >= 11)
	n := int(src[6])<<8 | int(src[7])
	vEnsures("sps inside the record", 8+n+3 <= len(src))
	m := int(src[8+n+1])<<8 | int(src[8+n+2])
	vEnsures("pps inside the record", 8+n+3+m <= len(src))
	vEnsures("sps bytes", vBytesEq(sps, src[8:8+n]))
	vEnsures("pps bytes", vBytesEq(pps, src[11+n:11+n+m]))
}

// A record built for a publisher's parameter sets parses back to them.
func vh_build_parse(sps, pps []byte) {
	vRequires(len(sps) >= 4 && len(sps) < 1<<16 && len(pps) > 0 && len(pps) < 1<<16)
	b := buildAVCSequenceHeader(sps, pps)
	vEnsures("length", len(b) == 11+len(sps)+len(pps))
	vEnsures("fixed fields", b[0] == 1 && b[1] == sps[1] && b[2] == sps[2] && b[3] == sps[3] && b[4] == 0xff && b[5] == 0xe1)
	s, p, _, _, err := parseAVCDCRForRTSP(b)
	vEnsures("parses", err == nil)
	vEnsures("sps round trips", vBytesEq(s, sps))
	vEnsures("pps round trips", vBytesEq(p, pps))
}

// Short parameter sets never crash the builder.
func vh_build_any(sps, pps []byte) {
	b := buildAVCSequenceHeader(sps, pps)
	vEnsures("no record from a truncated sps", len(sps) >= 4 || len(b) == 0)
}
