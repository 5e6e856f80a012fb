package libmp4

// The avcC box of an init segment is a record holding exactly the given sets.
func vh_avcc(sps, pps []byte) {
	vRequires(len(sps) >= 4 && len(sps) < 1<<16 && len(pps) < 1<<16)
	b := avcC(sps, pps)
	n, m := len(sps), len(pps)
	vEnsures("box length", len(b) == 8+11+n+m)
	vEnsures("box size field", int(b[0])<<24|int(b[1])<<16|int(b[2])<<8|int(b[3]) == len(b))
	vEnsures("box type", b[4] == 'a' && b[5] == 'v' && b[6] == 'c' && b[7] == 'C')
	r := b[8:]
	vEnsures("profile fields", r[0] == 1 && r[1] == sps[1] && r[2] == sps[2] && r[3] == sps[3])
	vEnsures("length size", r[4]&3 == 3)
	vEnsures("one sps", r[5]&0x1f == 1 && int(r[6])<<8|int(r[7]) == n && vBytesEq(r[8:8+n], sps))
	vEnsures("one pps", r[8+n] == 1 && int(r[9+n])<<8|int(r[10+n]) == m && vBytesEq(r[11+n:], pps))
}
func vh_avcc_short(sps, pps []byte) {
	vRequires(len(sps) < 4)
	b := avcC(sps, pps)
	vEnsures("still a box", len(b) >= 8 && int(b[0])<<24|int(b[1])<<16|int(b[2])<<8|int(b[3]) == len(b))
}
