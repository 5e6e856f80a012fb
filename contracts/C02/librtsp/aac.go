package librtsp

// C02: removing an ADTS header leaves exactly the raw frame.
func vh_adts_strip(hdr [7]byte, raw []byte) {
	hdr[0] = 0xff
	hdr[1] |= 0xf0
	f := append(append([]byte{}, hdr[:]...), raw...)
	vEnsures("raw frame", vBytesEq(AdtsToRaw(f), raw))
}

// Anything without a header passes unchanged.
func vh_no_adts(b []byte) {
	vRequires(len(b) < 7 || b[0] != 0xff || b[1]&0xf0 != 0xf0)
	vEnsures("unchanged", vBytesEq(AdtsToRaw(b), b))
}
