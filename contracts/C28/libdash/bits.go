package libdash

var (
	vSEs   int    // how many signed codes were asked for
	vP     int    // where the bits being read start
	vZ     int    // the leading zeros of the code being read, or -1
	vStart int    // where it starts
	vUE    uint32 // the unsigned code read last
)

func vByte(b []byte, i int) uint64 {
	if i < len(b) {
		return uint64(b[i])
	}
	return 0
}

// vBits: the n <= 32 bits of b from bit position p, most significant first.
func vBits(b []byte, p, n int) uint32 {
	o := p / 8
	w := vByte(b, o)<<56 | vByte(b, o+1)<<48 | vByte(b, o+2)<<40 | vByte(b, o+3)<<32 | vByte(b, o+4)<<24
	return uint32(w << uint(p%8) >> uint(64-n))
}

func vGood(b *bitReader) bool { return b != nil && 0 <= b.pos && b.pos <= 8*len(b.buf) }

func vc_readBits(b *bitReader, n int) (uint32, bool) {
	vRequires(b != nil)
	vRequires(0 <= b.pos)
	vRequires(b.pos <= 8*len(b.buf))
	vRequires(0 <= n)
	vRequires(n <= 32)
	p, buf := b.pos, b.buf
	vP = p
	vModifies(&b.pos)
	v, ok := b.readBits(n)
	vEnsures("it fails exactly when there are not enough bits", ok == (p+n <= 8*len(buf)))
	vEnsures("stays inside", b.pos <= 8*len(buf))
	vEnsures("never goes back", p <= b.pos)
	vEnsures("reads as many as asked", vImplies(ok, b.pos == p+n))
	w := v
	vEnsures("the bits, most significant first", vImplies(ok, vPure(func() bool { return w == vBits(buf, p, n) })))
	vEnsures("one bit", vImplies(ok && n == 1, v == vBit(buf, p)))
	vEnsures("nothing on failure", vImplies(!ok, v == 0))
	return v, ok
}

// What else uses the reader needs only that it stays inside.
func vc_any_readBits(b *bitReader, n int) (uint32, bool) {
	vRequires(b != nil)
	vRequires(0 <= b.pos)
	vRequires(b.pos <= 8*len(b.buf))
	vRequires(0 <= n)
	vRequires(n <= 32)
	p, buf := b.pos, b.buf
	vP = p
	vModifies(&b.pos)
	v, ok := b.readBits(n)
	vEnsures("stays inside", b.pos <= 8*len(buf))
	vEnsures("never goes back", p <= b.pos)
	vEnsures("no more bits than asked", v>>uint(n) == 0)
	return v, ok
}

//verif:scope readBits
func inv_bits(b *bitReader, v uint32, i, n int) bool {
	return 0 <= i && i <= n && b.pos == vP+i && b.pos <= 8*len(b.buf) && v == vBits(b.buf, vP, i)
}

//verif:scope readUE
func inv_zeros(b *bitReader, zeros int) bool {
	return 0 <= zeros && zeros <= 32 && vGood(b) && vStart <= b.pos &&
		vImplies(vZ >= 0, zeros <= vZ && b.pos == vStart+zeros)
}

// vBit is one bit of b.
func vBit(b []byte, p int) uint32 { return uint32(vByte(b, p/8)>>uint(7-p%8)) & 1 }

func vh_bits(buf []byte, p, n int) {
	vRequires(0 <= p && p <= 8*len(buf) && 0 <= n && n <= 32)
	br := newBitReader(buf)
	vEnsures("starts at the first bit", br.pos == 0)
	br.pos = p
	vc_readBits(br, n)
	vEnsures("the data is not touched", len(br.buf) == len(buf) && vSameBuf(br.buf, buf))
}

func vh_bits_any(buf []byte, p, n int) {
	vRequires(0 <= p && p <= 8*len(buf) && 0 <= n && n <= 32)
	vc_any_readBits(&bitReader{buf: buf, pos: p}, n)
}

// An unsigned code.
//
//verif:use vc_readBits
func vh_ue(buf []byte, p int, z uint8) {
	n := int(z)
	vRequires(n <= 31 && 0 <= p && p <= 8*len(buf) && p+2*n+1 <= 8*len(buf) && vPure(func() bool { return vBits(buf, p, n) == 0 }) && vPure(func() bool { return vBit(buf, p+n) == 1 }))
	vZ, vStart = n, p
	br := &bitReader{buf: buf, pos: p}
	v := br.readUE()
	vEnsures("consumed exactly", br.pos == p+2*n+1)
	vEnsures("its value", vPure(func() bool { return v == uint32(1)<<uint(n)-1+vBits(buf, p+n+1, n) }))
}

// A signed one.
//
//verif:use vc_readBits
func vh_se(buf []byte, p int, z uint8) {
	n := int(z)
	vRequires(n <= 31 && 0 <= p && p <= 8*len(buf) && p+2*n+1 <= 8*len(buf) && vPure(func() bool { return vBits(buf, p, n) == 0 }) && vPure(func() bool { return vBit(buf, p+n) == 1 }))
	vZ, vStart = n, p
	br := &bitReader{buf: buf, pos: p}
	v := br.readSE()
	vEnsures("consumed exactly", br.pos == p+2*n+1)
	vEnsures("positive for odd codes, negative for even ones", vPure(func() bool { return v == vSigned(uint32(1)<<uint(n)-1+vBits(buf, p+n+1, n)) }))
}

func vSigned(k uint32) int32 {
	if k&1 == 1 {
		return int32((int64(k) + 1) / 2)
	}
	return int32(-(int64(k) / 2))
}

// Any bits at all, complete code or not.
//
//verif:use vc_any_readBits
func vh_ue_any(buf []byte, p int) {
	vZ = -1
	vRequires(0 <= p && p <= 8*len(buf))
	vc_readUE(&bitReader{buf: buf, pos: p})
}

func vc_readUE(b *bitReader) uint32 {
	vRequires(b != nil)
	vRequires(0 <= b.pos)
	vRequires(b.pos <= 8*len(b.buf))
	p, buf := b.pos, b.buf
	vStart = p
	vModifies(&b.pos, &vP, &vUE)
	v := b.readUE()
	vUE = v
	vEnsures("stays inside", b.pos <= 8*len(buf))
	vEnsures("never goes back", p <= b.pos)
	return v
}

func vc_readSE(b *bitReader) int32 {
	vRequires(b != nil)
	vRequires(0 <= b.pos)
	vRequires(b.pos <= 8*len(b.buf))
	p, buf := b.pos, b.buf
	vSEs++
	vModifies(&b.pos, &vP, &vUE, &vStart)
	v := b.readSE()
	vEnsures("stays inside", b.pos <= 8*len(buf))
	vEnsures("never goes back", p <= b.pos)
	return v
}

//verif:use vc_readUE
func vh_se_any(buf []byte, p int) {
	vZ = -1
	vRequires(0 <= p && p <= 8*len(buf))
	vc_readSE(&bitReader{buf: buf, pos: p})
}
