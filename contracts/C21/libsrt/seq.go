package libsrt

// C21: signed distance between 31-bit sequence numbers.
func vh_seqdiff(a, b uint32) {
	a, b = a&0x7fffffff, b&0x7fffffff
	d := int64(SeqDiff(a, b))
	vEnsures("range", d > -(1<<30) && d <= 1<<30)
	vEnsures("difference modulo 2^31", (int64(b)+d-int64(a))&0x7fffffff == 0)
	vEnsures("zero only for equal", (d == 0) == (a == b))
	r := int64(SeqDiff(b, a))
	vEnsures("antisymmetric", d == -r || (d == 1<<30 && r == 1<<30))
}

// Moving k steps ahead, up to half the space, is reported as k.
func vh_seqdiff_ahead(a, k uint32) {
	a, k = a&0x7fffffff, k&0x3fffffff
	b := (a + k) & 0x7fffffff
	vEnsures("ahead", SeqDiff(b, a) == int32(k))
	vEnsures("behind", SeqDiff(a, b) == -int32(k))
}

// Upper bits outside the sequence space do not influence the distance.
func vh_seqdiff_masked(a, b uint32) {
	vEnsures("31-bit arithmetic", SeqDiff(a, b) == SeqDiff(a&0x7fffffff, b&0x7fffffff))
}
