package libaac

// C02: the ADTS header written in front of a raw AAC frame describes it.
func vh_adts(asc []byte, frame []byte) {
	var h AACHeader
	err := h.Parse(asc)
	if len(asc) < 2 {
		vEnsures("short configuration rejected", err != nil)
		return
	}
	vEnsures("configuration accepted", err == nil)
	objectType := asc[0] >> 3
	rate := asc[0]&7<<1 | asc[1]>>7
	channels := asc[1] >> 3 & 15
	vEnsures("object type parsed", h.ObjectType == objectType)
	vEnsures("rate index parsed", h.SampleRate == rate)
	vEnsures("channel configuration parsed", h.Channel == channels)
	// what an ADTS header can express
	vRequires(objectType >= 1 && objectType <= 4 && channels <= 7 && len(frame)+7 < 1<<13)
	a := h.Adts(frame)
	vEnsures("seven bytes", len(a) == 7)
	vEnsures("sync word", a[0] == 0xff && a[1]>>4 == 15)
	vEnsures("layer zero", a[1]>>1&3 == 0)
	vEnsures("no CRC", a[1]&1 == 1)
	vEnsures("profile", a[2]>>6 == objectType-1)
	vEnsures("sampling frequency index", a[2]>>2&15 == rate)
	vEnsures("channel configuration", a[2]&1<<2|a[3]>>6 == channels)
	vEnsures("frame length", int(a[3]&3)<<11|int(a[4])<<3|int(a[5]>>5) == len(frame)+7)
	vEnsures("one raw data block", a[6]&3 == 0)
	// the configuration is not consumed by writing a header
	b := h.Adts(frame)
	vEnsures("headers are reproducible", vBytesEq(a, b))
}
