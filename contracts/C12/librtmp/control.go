package librtmp

import (
	"encoding/binary"
	"sync"
)

//verif:include easy

func vConn(in []byte) *RTMP {
	return &RTMP{readerConn: &vReader{b: in}, writerConn: &vWriter{b: make([]byte, 64)}, lastChunk: map[uint32]*Chunk{},
		peerMaxChunkSize: 128, ownMaxChunkSize: 128, peerWindowAckSize: 7, peerBandwidth: 9, server: &server{apps: map[string]*App{}}}
}

// Too short is an error.
func vh_short(kind uint8, payload []byte) {
	r := vConn(nil)
	mb := MessageBase{rtmp: r, messagePayload: payload}
	var m Message
	n := 4
	switch kind {
	case 0:
		m = NewSetChunkSizeMessage(mb)
	case 1:
		m = NewAbortMessage(mb)
	case 2:
		m = NewAcknowledgeMessage(mb)
	case 3:
		m = NewUserControlMessage(mb)
		n = 2
	case 4:
		m = NewWindowAcknowledgeSizeMessage(mb)
	case 5:
		m = NewSetPeerBandWidthMessage(mb)
		n = 5
	default:
		return
	}
	err := m.Parse()
	if len(payload) < n {
		vEnsures("too short is an error", err != nil)
	} else if kind != 0 {
		vEnsures("long enough is not", err == nil)
	}
	if err == nil {
		m.Do()
	}
}

func vh_chunk_size(v uint32, rest []byte) {
	vRequires(len(rest) <= 64)
	r := vConn(nil)
	m := NewSetChunkSizeMessage(MessageBase{rtmp: r, messagePayload: append(vU32(v), rest...)})
	err := m.Parse()
	vEnsures("zero refused", (err != nil) == (v&0x7fffffff == 0))
	if err == nil {
		vEnsures("31-bit size", m.Do() == nil && r.peerMaxChunkSize == v&0x7fffffff && r.ownMaxChunkSize == 128)
	}
}

func vU32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

func vh_window(v uint32) {
	r := vConn(nil)
	m := NewWindowAcknowledgeSizeMessage(MessageBase{rtmp: r, messagePayload: vU32(v)})
	vEnsures("window", m.Parse() == nil && m.Do() == nil && r.peerWindowAckSize == v && r.peerMaxChunkSize == 128)
}

func vh_bandwidth(v uint32, l uint8) {
	r := vConn(nil)
	m := NewSetPeerBandWidthMessage(MessageBase{rtmp: r, messagePayload: append(vU32(v), l)})
	vEnsures("bandwidth", m.Parse() == nil && m.Do() == nil && r.peerBandwidth == v && r.peerBandwidthLimit == LimitType(l) && r.peerWindowAckSize == 7)
}

func vh_abort(v, other uint32) {
	r := vConn(nil)
	r.lastChunk[v] = &Chunk{}
	r.lastChunk[other] = &Chunk{}
	m := NewAbortMessage(MessageBase{rtmp: r, messagePayload: vU32(v)})
	vEnsures("handled", m.Parse() == nil && m.Do() == nil && m.ChunkStreamID == v)
	vEnsures("that chunk stream is dropped", r.lastChunk[v] == nil)
	vEnsures("no other", other == v || r.lastChunk[other] != nil)
}

func vh_acknowledge(v uint32) {
	m := NewAcknowledgeMessage(MessageBase{rtmp: vConn(nil), messagePayload: vU32(v)})
	vEnsures("sequence number", m.Parse() == nil && m.SequenceNumber == v && m.Do() == nil)
}

// A ping is answered with its own time.
func vh_ping(t uint16, data []byte) {
	vRequires(len(data) <= 64)
	r := vConn(nil)
	w := r.writerConn.(*vWriter)
	m := NewUserControlMessage(MessageBase{rtmp: r, messageTime: 1, messagePayload: append([]byte{byte(t >> 8), byte(t)}, data...)})
	vEnsures("parsed", m.Parse() == nil && uint16(m.EventType) == t)
	err := m.Do()
	if t != 6 || len(data) < 4 {
		vEnsures("nothing sent", err == nil && w.n == 0)
		return
	}
	vEnsures("answered", err == nil && w.n == 18 && w.b[12] == 0 && w.b[13] == 7 && vBytesEq(w.b[14:18], data[:4]))
}

// A message in one chunk, as it comes over the connection: control, audio and
// video messages with any content, and every unknown type.
//
//verif:peel 2
func vh_message(h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10 uint8, payload []byte) {
	vRequires(h6 != 15 && h6 != 17 && h6 != 18 && h6 != 20 && h6 != 22 && h0 != 255)
	in := append([]byte{3, h0, h1, h2, h3, h4, h5, h6, h7, h8, h9, h10}, payload...)
	r := vConn(in)
	r.peerMaxChunkSize = 1 << 24
	r.peerWindowAckSize = 0
	l := int(h3)<<16 | int(h4)<<8 | int(h5)
	err := ParseMessage(r)
	known := h6 >= 1 && h6 <= 6 || h6 == 8 || h6 == 9 || h6 == 16 || h6 == 19
	if len(payload) < l || !known {
		vEnsures("incomplete or unknown is an error", err != nil)
		vEnsures("and changes nothing", r.peerMaxChunkSize == 1<<24 && r.peerWindowAckSize == 0 && r.peerBandwidth == 9)
		return
	}
	need := 4
	switch h6 {
	case 1:
		size := uint32(0)
		if l >= 4 {
			size = binary.BigEndian.Uint32(payload) & 0x7fffffff
		}
		if size == 0 {
			vEnsures("no size, no change", err != nil && r.peerMaxChunkSize == 1<<24)
		} else {
			vEnsures("size taken", err == nil && r.peerMaxChunkSize == size)
		}
		return
	case 3, 4:
		need = 2
		if h6 == 3 {
			need = 4
		}
		if h6 == 4 {
			return
		}
	case 6:
		need = 5
	case 8:
		need = 2
	case 9:
		need = 1
	case 16, 19:
		need = 0
	}
	if l < need {
		vEnsures("too short is an error", err != nil)
		vEnsures("and changes nothing", r.peerMaxChunkSize == 1<<24 && r.peerWindowAckSize == 0 && r.peerBandwidth == 9)
	}
}

// The same for a publisher, whose audio and video are passed on.
func vh_media(kind bool, payload []byte) {
	r := vConn(nil)
	r.room = NewRoom(r, "x")
	mb := MessageBase{rtmp: r, messageTime: 5, messageLength: uint32(len(payload)), messagePayload: payload}
	var m Message
	if kind {
		m = NewAudioMessage(mb)
	} else {
		m = NewVideoMessage(mb)
	}
	if m.Parse() == nil {
		m.Do()
	}
}

//verif:model sync.NewCond
func vmNewCond(l sync.Locker) *sync.Cond { return &sync.Cond{L: l} }
