package librtmp

// Ghost record of what the aggregate delivered.
var (
	vPay  []byte // the aggregate's payload
	vNext []int  // vNext[o]: where the next deliverable sub-message at or after o starts, or -1
	vAt   int    // where the next undelivered sub-message is looked for
	vTime uint32 // the aggregate's time
	vMsg  uint32 // its message stream
)

func vLen(b []byte, o int) int { return int(b[o+1])<<16 | int(b[o+2])<<8 | int(b[o+3]) }

func vStamp(b []byte, o int) uint32 {
	return uint32(b[o+7])<<24 | uint32(b[o+4])<<16 | uint32(b[o+5])<<8 | uint32(b[o+6])
}

func vKind(t uint8) bool { return t == 8 || t == 9 || t == 15 || t == 18 }

// vFind gives the next deliverable sub-message from offset o, from those further on.
func vFind(b []byte, next []int, o int) int {
	if o+11 > len(b) {
		return -1
	}
	e := o + 11 + vLen(b, o)
	if e > len(b) {
		return -1
	}
	if vKind(b[o]) {
		return o
	}
	if e+4 >= len(b) {
		return -1
	}
	return next[e+4]
}

// vNextAt is vNext beyond the end too.
func vNextAt(o int) int {
	if o >= len(vPay) {
		return -1
	}
	return vNext[o]
}

// vDeliver stands for handing one sub-message over.
func vDeliver(m *MessageBase, kind int) {
	n := vNextAt(vAt)
	vEnsures("nothing is delivered beyond the last complete sub-message", n >= 0)
	if n < 0 {
		return
	}
	l := vLen(vPay, n)
	vEnsures("exactly its own payload bytes", len(m.messagePayload) == l)
	vEnsures("its declared length", int(m.messageLength) == l)
	if len(m.messagePayload) > 0 {
		vEnsures("the bytes of the next sub-message", vOff(m.messagePayload, vPay) == n+11)
	}
	t := vPay[n]
	vEnsures("its declared type", uint8(m.messageType) == t)
	vEnsures("handled as its type", vImplies(kind == 8, t == 8) && vImplies(kind == 9, t == 9) && vImplies(kind == 18, t == 15 || t == 18))
	vEnsures("rebased timestamp", m.messageTime == vTime+(vStamp(vPay, n)-vStamp(vPay, 0)))
	vEnsures("the aggregate's stream", m.messageStreamID == vMsg)
	vAt = n + 15 + l
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.AudioMessage).Parse
func vAudioParse(m *AudioMessage) error { return nil }

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.VideoMessage).Parse
func vVideoParse(m *VideoMessage) error { return nil }

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.DataMessage).Parse
func vDataParse(m *DataMessage) error { return nil }

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.AudioMessage).Do
func vAudioDo(m *AudioMessage) error {
	vDeliver(m.GetInfo(), 8)
	return nil
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.VideoMessage).Do
func vVideoDo(m *VideoMessage) error {
	vDeliver(m.GetInfo(), 9)
	return nil
}

//verif:model (*github.com/sbraveyoung/GGmpeg/librtmp.DataMessage).Do
func vDataDo(m *DataMessage) error {
	vDeliver(m.GetInfo(), 18)
	return nil
}

// vBroken: the walk from 0 ends in an incomplete sub-message whose header is there.
//
//verif:noreplay
//verif:note AudioMessage, VideoMessage and DataMessage Parse and Do are replaced by a recorder of what they are given
func vh_unpack(payload []byte, at, msid uint32) {
	vPay = payload
	vTime, vMsg = at, msid
	vNext = make([]int, len(payload)+1)
	for vi := len(payload) - 1; vi >= 0; vi-- {
		vNext[vi] = vFind(payload, vNext, vi)
	}
	vAt = 0
	am := NewAggregateMessage(MessageBase{messageTime: at, messageStreamID: msid, messagePayload: payload})
	err := am.Do()
	vEnsures("none left out", vNextAt(vAt) == -1)
	_ = err
}

//verif:scope vh_unpack
func inv_next(payload []byte, vi int) bool {
	return -1 <= vi && vi < len(payload)+1 && vForallOn(vi+1, len(payload), func(o int) int { return vNext[o] }, func(o int) bool { return vNext[o] == vFind(payload, vNext, o) })
}

//verif:scope Do
func inv_do(payload []byte, off int, gotFirst bool, firstSubTS uint32) bool {
	return off >= 0 && vAt >= 0 && vNextAt(vAt) == vNextAt(off) && gotFirst == (off > 0) && vImplies(gotFirst, firstSubTS == vStamp(vPay, 0)) &&
		vForallOn(0, len(vPay), func(o int) int { return vNext[o] }, func(o int) bool { return vNext[o] == vFind(vPay, vNext, o) })
}
