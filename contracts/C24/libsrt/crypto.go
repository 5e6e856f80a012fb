package libsrt

import (
	"crypto/aes"
	"crypto/cipher"
	"encoding/binary"
)

// Assumed contract of the dependency crypto/aes + crypto/cipher: byte i of
// AES-CTR's key stream is a function of the key, the initial counter and i,
// and XORKeyStream sets dst[i] = src[i] ^ stream[i].

//verif:uf
func vKeyStream(k0, k1, iv0, iv1 uint64, i int) byte {
	var key, iv [16]byte
	binary.BigEndian.PutUint64(key[0:], k0)
	binary.BigEndian.PutUint64(key[8:], k1)
	binary.BigEndian.PutUint64(iv[0:], iv0)
	binary.BigEndian.PutUint64(iv[8:], iv1)
	b, _ := aes.NewCipher(key[:])
	out := make([]byte, i+1)
	cipher.NewCTR(b, iv[:]).XORKeyStream(out, out)
	return out[i]
}

type vmBlock struct{ k0, k1 uint64 }

func (b *vmBlock) BlockSize() int          { return 16 }
func (b *vmBlock) Encrypt(dst, src []byte) {}
func (b *vmBlock) Decrypt(dst, src []byte) {}

type vmStream struct {
	k0, k1, iv0, iv1 uint64
	pos              int
}

//verif:model crypto/aes.NewCipher
func vmNewCipher(key []byte) (cipher.Block, error) {
	switch len(key) {
	case 16:
		return &vmBlock{binary.BigEndian.Uint64(key), binary.BigEndian.Uint64(key[8:])}, nil
	case 24, 32:
		panic("key size not modelled")
	}
	return nil, aes.KeySizeError(len(key))
}

//verif:model crypto/cipher.NewCTR
func vmNewCTR(b cipher.Block, iv []byte) cipher.Stream {
	if len(iv) != 16 {
		panic("cipher.NewCTR: IV length must equal block size")
	}
	k := b.(*vmBlock)
	return &vmStream{k0: k.k0, k1: k.k1, iv0: binary.BigEndian.Uint64(iv), iv1: binary.BigEndian.Uint64(iv[8:])}
}

func (s *vmStream) XORKeyStream(dst, src []byte) {
	if len(dst) < len(src) {
		panic("crypto/cipher: output smaller than input")
	}
	for vmi := 0; vmi < len(src); vmi++ {
		dst[vmi] = src[vmi] ^ vKeyStream(s.k0, s.k1, s.iv0, s.iv1, s.pos+vmi)
	}
	s.pos += len(src)
}
func inv_xor(s *vmStream, dst, src []byte, vmi int) bool {
	return vmi >= 0 && vmi <= len(src) && vForall(0, vmi, func(k int) bool {
		return dst[k] == src[k]^vKeyStream(s.k0, s.k1, s.iv0, s.iv1, s.pos+k)
	})
}

// The packet's key flags pick the key; salt and sequence number make the counter.
func vh_decrypt(even0, even1, odd0, odd1, salt0, salt1 uint64, active bool, kk uint8, seq uint32, payload []byte) {
	cs := &CryptoState{Active: active}
	binary.BigEndian.PutUint64(cs.EvenSEK[0:], even0)
	binary.BigEndian.PutUint64(cs.EvenSEK[8:], even1)
	binary.BigEndian.PutUint64(cs.OddSEK[0:], odd0)
	binary.BigEndian.PutUint64(cs.OddSEK[8:], odd1)
	binary.BigEndian.PutUint64(cs.Salt[0:], salt0)
	binary.BigEndian.PutUint64(cs.Salt[8:], salt1)
	kk &= 3 // a two-bit field
	if len(payload) > 1500 {
		payload = payload[:1500]
	}
	in := append([]byte(nil), payload...)
	out, err := cs.DecryptDataPayload(kk, seq, payload)
	vEnsures("input untouched", vBytesEq(payload, in))
	if !active || kk == 0 {
		vEnsures("plain passes through", err == nil && vBytesEq(out, in))
		return
	}
	if kk == 3 {
		vEnsures("unknown key is an error", err != nil)
		return
	}
	vEnsures("accepted", err == nil && len(out) == len(in))
	if err != nil {
		return
	}
	k0, k1 := even0, even1
	if kk == 2 {
		k0, k1 = odd0, odd1
	}
	iv0 := salt0 ^ uint64(seq)<<32
	iv1 := salt1 &^ 0xffff
	vEnsures("AES-CTR", vForall(0, len(in), func(k int) bool {
		return out[k] == in[k]^vKeyStream(k0, k1, iv0, iv1, k)
	}))
}
