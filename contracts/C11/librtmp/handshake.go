package librtmp

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"hash"
)

//verif:include easy

// Assumed contract of crypto/hmac over crypto/sha256: 32 bytes which depend on
// the key and on everything written, and on nothing else (the same key and data
// give the same 32 bytes; different ones give any).
type vmMac struct{ key, data []byte }

var (
	vDig  []byte // what fresh computations yield, 32 bytes each
	vMacs [12]*vmMac
	vMacN int
)

func (m *vmMac) Write(p []byte) (int, error) {
	m.data = append(m.data, p...)
	return len(p), nil
}
func (m *vmMac) Reset()         { m.data = nil }
func (m *vmMac) Size() int      { return 32 }
func (m *vmMac) BlockSize() int { return 64 }

// Sum looks the computation up.
//
//verif:unroll 20
func (m *vmMac) Sum(b []byte) []byte {
	for vmj := 0; vmj < vMacN; vmj++ {
		if len(vMacs[vmj].key) == len(m.key) && vBytesEq(vMacs[vmj].key, m.key) && vBytesEq(vMacs[vmj].data, m.data) {
			return append(b, vDig[32*vmj:32*vmj+32]...)
		}
	}
	j := vMacN
	vMacs[j] = &vmMac{m.key, append([]byte(nil), m.data...)}
	vMacN++
	return append(b, vDig[32*j:32*j+32]...)
}

//verif:model crypto/hmac.New
func vmHmac(h func() hash.Hash, key []byte) hash.Hash {
	return &vmMac{key: append([]byte(nil), key...)}
}

var vRnd []byte

//verif:model crypto/rand.Read
func vmRand(b []byte) (int, error) {
	copy(b, vRnd)
	return len(b), nil
}

// vMac is the digest the peer computes.
func vMac(key, a, b []byte) []byte {
	m := hmac.New(sha256.New, key)
	m.Write(a)
	m.Write(b)
	return m.Sum(nil)
}

// vDigestAt is where the packet declares its digest to be, for a digest block at o.
func vDigestAt(p []byte, o int) int {
	return o + 4 + (int(p[o])+int(p[o+1])+int(p[o+2])+int(p[o+3]))%728
}

// vHolds tells whether the packet carries the digest of the rest of it there.
func vHolds(p []byte, at int, key []byte) bool {
	return vBytesEq(vMac(key, p[:at], p[at+32:]), p[at:at+32])
}

// A first packet with a valid digest, in either place, gets the digest handshake,
// any other the simple one.
//
//verif:peel 3
func vh_first_packet(c1, dig []byte) {
	vRequires(len(c1) == 1536 && len(dig) == 384)
	vDig, vMacN = dig, 0
	in := append([]byte(nil), c1...)
	a, b := vDigestAt(c1, 772), vDigestAt(c1, 8)
	okA, okB := vHolds(c1, a, FPkey[:30]), vHolds(c1, b, FPkey[:30])
	p := &Peer{}
	p.parseC1(c1)
	vEnsures("packet untouched", vBytesEq(c1, in))
	if okA {
		vEnsures("digest in the second block", p.handshakeMode == COMPLEX1 && vBytesEq(p.clientDigest, c1[a:a+32]))
	} else if okB {
		vEnsures("digest in the first block", p.handshakeMode == COMPLEX2 && vBytesEq(p.clientDigest, c1[b:b+32]))
	} else {
		vEnsures("no digest", p.handshakeMode == SIMPLE)
		vEnsures("echo kept", p.clientTimeStamp == binary.BigEndian.Uint32(c1) && p.clientZero == binary.BigEndian.Uint32(c1[4:]) && vBytesEq(p.clientRandom, c1[8:]))
	}
}

// The server's first packet carries a digest of itself.
func vh_reply_one(mode bool, rnd, dig []byte) {
	vRequires(len(rnd) == 1536 && len(dig) == 384)
	vDig, vMacN, vRnd = dig, 0, rnd
	p := &Peer{handshakeMode: COMPLEX2}
	o := 8
	if mode {
		p.handshakeMode = COMPLEX1
		o = 772
	}
	s1 := p.makeS1()
	vEnsures("size", len(s1) == 1536)
	if len(s1) != 1536 {
		return
	}
	at := vDigestAt(s1, o)
	vEnsures("digest verifies", vHolds(s1, at, FMSKey[:36]))
	vEnsures("digest remembered", vBytesEq(p.serverDigest, s1[at:at+32]))
	vEnsures("version", s1[4] != 0)
}

// The simple one has a time, four zero bytes and random data.
func vh_reply_one_simple(rnd []byte) {
	vRequires(len(rnd) == 1536)
	vRnd = rnd
	p := &Peer{handshakeMode: SIMPLE}
	s1 := p.makeS1()
	vEnsures("size", len(s1) == 1536)
	if len(s1) != 1536 {
		return
	}
	vEnsures("time and zero", binary.BigEndian.Uint32(s1) == p.serverTimeStamp && binary.BigEndian.Uint32(s1[4:]) == 0)
	vEnsures("random remembered", vBytesEq(p.serverRandom, s1[8:]))
}

// The second packet answers the peer's digest.
func vh_reply_two(mode bool, cd, rnd, dig []byte) {
	vRequires(len(rnd) == 1536 && len(dig) == 384 && len(cd) == 32)
	vDig, vMacN, vRnd = dig, 0, rnd
	p := &Peer{handshakeMode: COMPLEX2, clientDigest: cd}
	if mode {
		p.handshakeMode = COMPLEX1
	}
	s2 := p.makeS2()
	vEnsures("size", len(s2) == 1536)
	if len(s2) != 1536 {
		return
	}
	k := vMac(FMSKey, cd, nil)
	vEnsures("answers the digest", vBytesEq(vMac(k, s2[:1504], nil), s2[1504:]))
}

// Without a digest, it is the peer's packet again.
//
//verif:peel 3
func vh_echo(c1, dig []byte) {
	vRequires(len(c1) == 1536 && len(dig) == 384)
	vDig, vMacN = dig, 0
	p := &Peer{}
	p.parseC1(c1)
	if p.handshakeMode != SIMPLE {
		return
	}
	s2 := p.makeS2()
	vEnsures("echo", vBytesEq(s2, c1))
}

func vh_version(v uint8) {
	p := &Peer{serverVersion: 3}
	p.parseC0([]byte{v})
	vEnsures("version read", p.clientVersion == v)
	s0 := p.makeS0()
	vEnsures("version sent", len(s0) == 1 && s0[0] == 3)
}

// The peer's second packet is checked against what was sent, whatever its length.
func vh_second_packet(c2, sd, sr, dig []byte, mode int) {
	vRequires(len(dig) == 384 && (len(sd) == 0 || len(sd) == 32) && len(sr) <= 4096 && 0 <= mode && mode <= 2)
	vDig, vMacN = dig, 0
	p := &Peer{handshakeMode: HandshakeMode(mode), serverDigest: sd, serverRandom: sr}
	err := p.parseC2(c2)
	if len(c2) != 1536 {
		vEnsures("refused", err != nil)
		return
	}
	if mode != 0 && len(sd) == 32 {
		k := vMac(FPkey, sd, nil)
		vEnsures("digest checked", (err == nil) == vBytesEq(vMac(k, c2[:1504], nil), c2[1504:]))
	}
	if mode == 0 && len(sr) == 1528 {
		vEnsures("echo checked", (err == nil) == vBytesEq(c2[8:], sr))
	}
}

// The whole exchange: whatever the peer sends, the replies have their sizes.
//
//verif:peel 3
func vh_server(in, rnd, dig []byte) {
	vRequires(len(rnd) == 1536 && len(dig) == 384)
	vDig, vMacN, vRnd = dig, 0, rnd
	w := &vWriter{b: make([]byte, 4000)}
	err := HandshakeServer(&RTMP{readerConn: &vReader{b: in}, writerConn: w})
	if len(in) < 1537 || in[0] != 3 {
		vEnsures("refused", err != nil && w.n == 0)
		return
	}
	vEnsures("one byte and two packets", w.n == 3073 && !w.over && w.b[0] == 3)
	vEnsures("done when the peer has answered", (err == nil) == (len(in) >= 3073))
}

// The client's side: C0, C1 and the echo of S1.
func vh_client(in, rnd []byte) {
	vRequires(len(rnd) == 1536)
	vRnd = rnd
	w := &vWriter{b: make([]byte, 4000)}
	err := HandshakeClient(&RTMP{readerConn: &vReader{b: in}, writerConn: w})
	if len(in) < 3073 || in[0] != 3 {
		vEnsures("refused", err != nil && w.n == 1537)
		return
	}
	vEnsures("accepted", err == nil && w.n == 3073 && !w.over)
	if w.n != 3073 {
		return
	}
	vEnsures("first packet", w.b[0] == 3 && binary.BigEndian.Uint32(w.b[5:]) == 0)
	vEnsures("echo", vBytesEq(w.b[1537:1541], in[1:5]) && vBytesEq(w.b[1545:3073], in[9:1537]))
}
