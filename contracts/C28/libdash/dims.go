package libdash

// The work a parameter set can ask for is bounded.
func vc_parseSPSDimensions(sps []byte) (w, h uint16) {
	vSEs = 0
	vModifies(&vSEs, &vP, &vUE, &vStart)
	w, h = parseSPSDimensions(sps)
	vEnsures("no more signed codes than the standard allows", vSEs <= 257)
	return w, h
}

//verif:use vc_any_readBits vc_readUE vc_readSE
func vh_avc(sps []byte) {
	vc_parseSPSDimensions(sps)
}

//verif:use vc_any_readBits vc_readUE vc_readSE
func vh_hevc(sps []byte) {
	parseHEVCSPSDimensions(sps)
	vEnsures("returns", true)
}

//verif:use vc_parseSPSDimensions
func vh_avc_record(src []byte) {
	sps, pps, _, _, err := parseAVCDCR(src)
	vEnsures("both sets or an error", err != nil || len(src) > len(sps)+len(pps))
}

//verif:use vc_any_readBits vc_readUE vc_readSE
func vh_hevc_record(src []byte) {
	w, h, _, err := parseHEVCDCRDimensions(src)
	vEnsures("an error for short records", vImplies(len(src) < 23, err != nil && w == 0 && h == 0))
}

//verif:scope parseSPSDimensions
func inv_cycle(i uint32, n uint32) bool { return vSEs == 2+int(i) && i <= n }

//verif:scope parseSPSDimensions
func inv_avc(br *bitReader) bool { return vGood(br) }

//verif:scope parseHEVCSPSDimensions
func inv_hevc(br *bitReader) bool { return vGood(br) }

//verif:scope parseSPSDimensions
func inv_strip_avc(rbsp, sps []byte, i int) bool { return 0 <= i && 2*i <= 3*len(rbsp) && len(rbsp) <= i && i <= len(sps) }

//verif:scope parseHEVCSPSDimensions
func inv_strip_hevc(rbsp, sps []byte, i int) bool { return 0 <= i && 2*i <= 3*len(rbsp) && len(rbsp) <= i && i <= len(sps) }
