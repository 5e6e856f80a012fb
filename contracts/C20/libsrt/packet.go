package libsrt

func vU32(b []byte, o int) uint32 {
	return uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3])
}

// C20: headers.
func vh_parse_header(b []byte) {
	h, body, err := ParseHeader(b)
	if len(b) < 16 {
		vEnsures("short packet rejected", err != nil)
		return
	}
	vEnsures("accepted", err == nil)
	vEnsures("body", vBytesEq(body, b[16:]))
	vEnsures("timestamp", h.Timestamp == vU32(b, 8))
	vEnsures("destination", h.DestSocketID == vU32(b, 12))
	if b[0]&0x80 == 0 {
		vEnsures("data kind", h.Kind == KindData)
		vEnsures("sequence number", h.SeqNumber == vU32(b, 0))
		vEnsures("message info", h.MessageInfo == vU32(b, 4))
	} else {
		vEnsures("control kind", h.Kind == KindControl)
		vEnsures("control type", uint16(h.ControlType) == uint16(b[0]&0x7f)<<8|uint16(b[1]))
		vEnsures("subtype", h.SubType == uint16(b[2])<<8|uint16(b[3]))
		vEnsures("type info", h.TypeInfo == vU32(b, 4))
	}
}

func vh_data_roundtrip(dst []byte, seq, info, ts, id uint32) {
	if len(dst) < 16 {
		MarshalDataHeader(dst, seq, info, ts, id)
		return
	}
	body := append([]byte{}, dst[16:]...)
	MarshalDataHeader(dst, seq, info, ts, id)
	h, rest, err := ParseHeader(dst)
	vEnsures("parses", err == nil)
	vEnsures("fields", h.Kind == KindData && h.SeqNumber == seq&0x7fffffff && h.MessageInfo == info && h.Timestamp == ts && h.DestSocketID == id)
	vEnsures("body untouched", vBytesEq(rest, body))
}

func vh_control_roundtrip(dst []byte, typ, sub uint16, info, ts, id uint32) {
	if len(dst) < 16 {
		MarshalControlHeader(dst, ControlType(typ), sub, info, ts, id)
		return
	}
	body := append([]byte{}, dst[16:]...)
	MarshalControlHeader(dst, ControlType(typ), sub, info, ts, id)
	h, rest, err := ParseHeader(dst)
	vEnsures("parses", err == nil)
	vEnsures("fields", h.Kind == KindControl && uint16(h.ControlType) == typ&0x7fff && h.SubType == sub && h.TypeInfo == info && h.Timestamp == ts && h.DestSocketID == id)
	vEnsures("body untouched", vBytesEq(rest, body))
}

func vh_ack(a ACKBody) {
	b := a.Marshal()
	vEnsures("length", len(b) == 28)
	vEnsures("acknowledged sequence", vU32(b, 0) == a.LastAckedSeq)
	vEnsures("statistics", vU32(b, 4) == a.RTT && vU32(b, 8) == a.RTTVariance && vU32(b, 12) == a.AvailableBuffer &&
		vU32(b, 16) == a.ReceivingRate && vU32(b, 20) == a.LinkCapacity && vU32(b, 24) == a.ReceivingBytes)
}

// Loss reports.
func vh_parse_nak(body []byte) {
	out := ParseNAK(body)
	vEnsures("31-bit sequence numbers", vForall(0, len(out), func(k int) bool { return out[k].From < 1<<31 && out[k].To < 1<<31 }))
	vEnsures("no more ranges than words", len(out) <= len(body)/4)
}
func inv_parse_nak(body []byte, off int, out []LossRange) bool {
	return off >= 0 && 4*len(out) <= off && off&3 == 0 && off <= len(body) &&
		vForall(0, len(out), func(k int) bool { return out[k].From < 1<<31 && out[k].To < 1<<31 })
}

// vRange normalises the two ends to sequence numbers.
func vh_nak_write(losses []LossRange) {
	pos := make([]int, len(losses)+1)
	for i := 0; i < len(losses); i++ {
		losses[i].From &= 0x7fffffff
		losses[i].To &= 0x7fffffff
		if losses[i].From == losses[i].To {
			pos[i+1] = pos[i] + 4
		} else {
			pos[i+1] = pos[i] + 8
		}
	}
	body := MarshalNAK(losses)
	vEnsures("length", len(body) == pos[len(losses)])
	vEnsures("words", vWords(losses, pos, body, len(losses)))
}

// The other half of the round trip: a body made of these words reads back as
// exactly the ranges.
//verif:noreplay
func vh_nak_read(losses []LossRange, pos []int, body []byte) {
	vRequires(len(pos) == len(losses)+1 && vPos(losses, pos, len(losses)))
	vRequires(len(body) == pos[len(losses)] && vWords(losses, pos, body, len(losses)))
	got := ParseNAK(body)
	vEnsures("same count", len(got) == len(losses))
	vEnsures("same ranges", vForall(0, len(got), func(k int) bool { return got[k] == losses[k] }))
}
func vPos(losses []LossRange, pos []int, n int) bool {
	return pos[0] == 0 && vForall(0, n, func(k int) bool {
		return losses[k].From < 1<<31 && losses[k].To < 1<<31 && pos[k] >= 0 && pos[k] <= 8*k && pos[k+1] <= pos[n] &&
			(losses[k].From == losses[k].To && pos[k+1] == pos[k]+4 || losses[k].From != losses[k].To && pos[k+1] == pos[k]+8)
	})
}
//verif:scope vh_nak_write
func inv_pos(losses []LossRange, pos []int, i int) bool {
	return len(pos) == len(losses)+1 && i >= 0 && i <= len(losses) && vPos(losses, pos, i)
}
func vWords(losses []LossRange, pos []int, b []byte, n int) bool {
	return vForall(0, n, func(k int) bool {
		if pos[k+1] > pos[n] {
			return false
		}
		if losses[k].From == losses[k].To {
			return vU32(b, pos[k]) == losses[k].From
		}
		return vU32(b, pos[k]) == losses[k].From|0x80000000 && vU32(b, pos[k]+4) == losses[k].To
	})
}
func inv_marshal_nak(losses []LossRange, out []byte, ri int, pos []int) bool {
	return ri >= -1 && ri < len(losses) && len(out) == pos[ri+1] && vWords(losses, pos, out, ri+1)
}
//verif:scope ParseNAK
func inv_parse_nak_back(losses []LossRange, pos []int, off int, out []LossRange) bool {
	return len(out) <= len(losses) && off == pos[len(out)] && vForall(0, len(out), func(k int) bool { return out[k] == losses[k] })
}
