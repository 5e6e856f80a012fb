package libmpeg

// vStep is one bit of MPEG-2 CRC-32 division (x^32 + 0x04c11db7).
func vStep(r uint32) uint32 {
	return r<<1 ^ 0x04c11db7*(r>>31)
}

func vStep8(r uint32) uint32 {
	return vStep(vStep(vStep(vStep(vStep(vStep(vStep(vStep(r))))))))
}

// vByte is the remainder after one more message byte, bit by bit.
func vByte(crc uint32, b byte) uint32 { return vStep8(crc ^ uint32(b)<<24) }

// vTab is the same, split into a shift and a function of eight bits.
func vTab(crc uint32, b byte) uint32 { return crc<<8 ^ vStep8(uint32(byte(crc>>24)^b)<<24) }

func vh_table(j uint8) {
	vEnsures("table entry", crcTable[j] == vStep8(uint32(j)<<24))
}

func vh_split(crc uint32, b byte) {
	vEnsures("byte-wise division", vByte(crc, b) == vTab(crc, b))
}

// CRC32 is the remainder of the whole message: vRem[i] is the remainder after
// i bytes, by definition bit by bit (vByte), which vh_split shows to be vTab.
func vh_crc(msg []byte) {
	m := len(msg)
	vRem := make([]uint32, m+1)
	vRem[0] = 0xffffffff
	for vi := 0; vi < m; vi++ {
		vRem[vi+1] = vTab(vRem[vi], msg[vi])
	}
	got := CRC32(msg)
	vEnsures("remainder", got == vRem[m])
}

//verif:scope CRC32
func inv_crc(vRem []uint32, msg []byte, src []byte, crc32 uint32, i int) bool {
	return 0 <= i && i <= len(src) && crc32 == vRem[i] &&
		vForall(0, len(msg), func(k int) bool { return vRem[k+1] == vTab(vRem[k], msg[k]) })
}

//verif:scope vh_crc
func inv_rem(vRem []uint32, msg []byte, vi int) bool {
	return 0 <= vi && vi <= len(msg) && vRem[0] == 0xffffffff &&
		vForall(0, vi, func(k int) bool { return vRem[k+1] == vTab(vRem[k], msg[k]) })
}
