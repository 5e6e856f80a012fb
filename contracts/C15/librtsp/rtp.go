package librtsp

import "encoding/binary"

// One packet: exact header, then the payload; the next number follows.
func vh_pack(pt uint8, ssrc uint32, seq uint16, marker bool, ts uint32, payload []byte) {
	pt &= 0x7f
	p := &RTPPacker{PayloadType: pt, SSRC: ssrc}
	p.SetSeq(seq)
	in := append([]byte(nil), payload...)
	out := p.Pack(marker, ts, payload)
	vEnsures("length", len(out) == 12+len(in))
	vEnsures("version 2, no padding, extension or sources", out[0] == 0x80)
	vEnsures("marker", out[1]&0x80 != 0 == marker)
	vEnsures("payload type", out[1]&0x7f == pt)
	vEnsures("sequence number", binary.BigEndian.Uint16(out[2:4]) == seq)
	vEnsures("timestamp", binary.BigEndian.Uint32(out[4:8]) == ts)
	vEnsures("source", binary.BigEndian.Uint32(out[8:12]) == ssrc)
	vEnsures("payload", vBytesEq(out[12:], in))
	vEnsures("payload untouched", vBytesEq(payload, in))
	vEnsures("next number", p.Seq() == seq+1)
	vEnsures("packer unchanged", p.PayloadType == pt && p.SSRC == ssrc)
}

// Two packets in a row are numbered consecutively; with the above, any history is.
func vh_pack_twice(pt uint8, ssrc uint32, m1, m2 bool, t1, t2 uint32, a, b []byte) {
	p := NewRTPPacker(pt&0x7f, ssrc)
	first := p.Seq()
	x := p.Pack(m1, t1, a)
	y := p.Pack(m2, t2, b)
	vEnsures("numbers", binary.BigEndian.Uint16(x[2:4]) == first && binary.BigEndian.Uint16(y[2:4]) == first+1)
	vEnsures("first packet survives", vBytesEq(x[12:], a))
	vEnsures("second packet", vBytesEq(y[12:], b))
}

func vh_roundtrip(pt uint8, ssrc uint32, seq uint16, marker bool, ts uint32, payload []byte) {
	pt &= 0x7f
	p := &RTPPacker{PayloadType: pt, SSRC: ssrc}
	p.SetSeq(seq)
	in := append([]byte(nil), payload...)
	pkt, err := ParseRTP(p.Pack(marker, ts, payload))
	vEnsures("accepted", err == nil && pkt != nil)
	if err != nil || pkt == nil {
		return
	}
	vEnsures("fields", pkt.PayloadType == pt && pkt.SequenceNum == seq && pkt.Timestamp == ts && pkt.SSRC == ssrc && pkt.Marker == marker)
	vEnsures("payload", vBytesEq(pkt.Payload, in))
}

// Any datagram: rejected, or split exactly as its header says.
func vh_parse(buf []byte) {
	if len(buf) > 70000 {
		buf = buf[:70000]
	}
	in := append([]byte(nil), buf...)
	n := len(in)
	pkt, err := ParseRTP(buf)
	vEnsures("datagram untouched", vBytesEq(buf, in))
	if n < 12 || in[0]>>6 != 2 {
		vEnsures("rejected", err != nil)
		return
	}
	off := 12 + 4*int(in[0]&15)
	ok := off <= n
	if ok && in[0]&0x10 != 0 {
		if off+4 > n {
			ok = false
		} else {
			off += 4 + 4*(int(in[off+2])<<8|int(in[off+3]))
			ok = off <= n
		}
	}
	end := n
	if ok && in[0]&0x20 != 0 {
		if off == n {
			ok = false
		} else {
			end -= int(in[n-1])
			ok = end >= off
		}
	}
	if !ok {
		vEnsures("inconsistent header rejected", err != nil)
		return
	}
	vEnsures("accepted", err == nil && pkt != nil)
	if err != nil || pkt == nil {
		return
	}
	vEnsures("header fields", pkt.PayloadType == in[1]&0x7f && pkt.Marker == (in[1]&0x80 != 0) &&
		pkt.SequenceNum == binary.BigEndian.Uint16(in[2:4]) && pkt.Timestamp == binary.BigEndian.Uint32(in[4:8]) && pkt.SSRC == binary.BigEndian.Uint32(in[8:12]))
	vEnsures("payload", vBytesEq(pkt.Payload, in[off:end]))
}

func vh_interleave(ch uint8, payload []byte) {
	if len(payload) > 65535 {
		payload = payload[:65535]
	}
	in := append([]byte(nil), payload...)
	out := InterleaveFrame(ch, payload)
	vEnsures("length", len(out) == 4+len(in))
	vEnsures("magic and channel", out[0] == '$' && out[1] == ch)
	vEnsures("declared length", int(out[2])<<8|int(out[3]) == len(in))
	vEnsures("packet", vBytesEq(out[4:], in))
}
