package librtmp

//verif:include easy

// vTrip sends a chunk and parses the bytes that were written.
func vTrip(c *Chunk, last *Chunk, max uint32, room int) (got *Chunk, w *vWriter, r *vReader, serr, perr error) {
	w = &vWriter{b: make([]byte, 18+room)}
	serr = c.Send(&RTMP{writerConn: w})
	r = &vReader{b: w.b[:w.n]}
	p := &RTMP{readerConn: r, peerMaxChunkSize: max, lastChunk: map[uint32]*Chunk{}}
	if last != nil {
		p.lastChunk[c.CsID] = last
	}
	got, perr = ParseChunk(p, nil)
	if perr == nil {
		vEnsures("remembered for the stream", p.lastChunk[c.CsID] == got)
	}
	return
}

func vCsidLen(csid uint32) int {
	if csid < 64 {
		return 1
	}
	if csid < 320 {
		return 2
	}
	return 3
}

func vExtLen(t uint32) int {
	if t >= 0xffffff {
		return 4
	}
	return 0
}

func vLegal(csid, length uint32, n int, max uint32) bool {
	if csid < 2 || csid > 65599 || length >= 1<<24 || max == 0 {
		return false
	}
	if length > max {
		return n == int(max)
	}
	return n == int(length)
}

func vSame(got *Chunk, csid, length uint32, typ uint8, msid uint32) bool {
	return got.CsID == csid && got.MessageLength == length && uint8(got.MessageType) == typ && got.MessageStreamID == msid
}

// A full header.
func vh_fmt0(csid, ts, length uint32, typ uint8, msid, max uint32, payload []byte) {
	vRequires(vLegal(csid, length, len(payload), max))
	c := &Chunk{ChunkBasicHeader{FMT0, csid}, ChunkMessageHeader{MessageTimeStamp: ts, MessageLength: length, MessageType: MessageType(typ), MessageStreamID: msid}, payload}
	got, w, r, serr, perr := vTrip(c, nil, max, len(payload))
	vEnsures("sent", serr == nil && w.n == vCsidLen(csid)+11+vExtLen(ts)+len(payload))
	vEnsures("parsed", perr == nil)
	vEnsures("all bytes consumed", r.at == w.n)
	vEnsures("format", got.Fmt == FMT0)
	vEnsures("stream, length, type, message stream", vSame(got, csid, length, typ, msid))
	vEnsures("timestamp", got.MessageTimeStamp == ts && got.ExtendedTimestamp == (ts >= 0xffffff))
	vEnsures("payload", vBytesEq(got.Payload, payload))
}

// Same message stream as before, new length and type.
func vh_fmt1(csid, delta, length uint32, typ uint8, max uint32, lts, llen uint32, ltyp uint8, lmsid uint32, lext bool, payload []byte) {
	vRequires(vLegal(csid, length, len(payload), max))
	last := &Chunk{ChunkBasicHeader{FMT0, csid}, ChunkMessageHeader{MessageTimeStamp: lts, MessageLength: llen, MessageType: MessageType(ltyp), MessageStreamID: lmsid, ExtendedTimestamp: lext}, nil}
	c := &Chunk{ChunkBasicHeader{FMT1, csid}, ChunkMessageHeader{MessageTimeDelta: delta, MessageLength: length, MessageType: MessageType(typ)}, payload}
	got, w, r, serr, perr := vTrip(c, last, max, len(payload))
	vEnsures("sent", serr == nil && w.n == vCsidLen(csid)+7+vExtLen(delta)+len(payload))
	vEnsures("parsed", perr == nil)
	vEnsures("all bytes consumed", r.at == w.n)
	vEnsures("format", got.Fmt == FMT1)
	vEnsures("stream, length, type, message stream", vSame(got, csid, length, typ, lmsid))
	vEnsures("delta", got.MessageTimeDelta == delta && got.MessageTimeStamp == lts+delta && got.ExtendedTimestamp == (delta >= 0xffffff))
	vEnsures("payload", vBytesEq(got.Payload, payload))
}

// Only the time differs from the previous message.
func vh_fmt2(csid, delta uint32, max uint32, lts, length uint32, typ uint8, msid uint32, lext bool, payload []byte) {
	vRequires(vLegal(csid, length, len(payload), max))
	last := &Chunk{ChunkBasicHeader{FMT0, csid}, ChunkMessageHeader{MessageTimeStamp: lts, MessageLength: length, MessageType: MessageType(typ), MessageStreamID: msid, ExtendedTimestamp: lext}, nil}
	c := &Chunk{ChunkBasicHeader{FMT2, csid}, ChunkMessageHeader{MessageTimeDelta: delta}, payload}
	got, w, r, serr, perr := vTrip(c, last, max, len(payload))
	vEnsures("sent", serr == nil && w.n == vCsidLen(csid)+3+vExtLen(delta)+len(payload))
	vEnsures("parsed", perr == nil)
	vEnsures("all bytes consumed", r.at == w.n)
	vEnsures("format", got.Fmt == FMT2)
	vEnsures("stream, length, type, message stream", vSame(got, csid, length, typ, msid))
	vEnsures("delta", got.MessageTimeDelta == delta && got.MessageTimeStamp == lts+delta && got.ExtendedTimestamp == (delta >= 0xffffff))
	vEnsures("payload", vBytesEq(got.Payload, payload))
}

// Everything as before: a new message of the same shape.
func vh_fmt3(csid, max uint32, lts, ldelta, length uint32, typ uint8, msid uint32, payload []byte) {
	vRequires(vLegal(csid, length, len(payload), max))
	ext := lts >= 0xffffff
	last := &Chunk{ChunkBasicHeader{FMT0, csid}, ChunkMessageHeader{MessageTimeStamp: lts, MessageTimeDelta: ldelta, MessageLength: length, MessageType: MessageType(typ), MessageStreamID: msid, ExtendedTimestamp: ext}, nil}
	c := &Chunk{ChunkBasicHeader{FMT3, csid}, ChunkMessageHeader{MessageTimeStamp: lts, ExtendedTimestamp: ext}, payload}
	got, w, r, serr, perr := vTrip(c, last, max, len(payload))
	vEnsures("sent", serr == nil && w.n == vCsidLen(csid)+vExtLen(lts)+len(payload))
	vEnsures("parsed", perr == nil)
	vEnsures("all bytes consumed", r.at == w.n)
	vEnsures("format", got.Fmt == FMT3)
	vEnsures("stream, length, type, message stream", vSame(got, csid, length, typ, msid))
	vEnsures("timestamp", got.MessageTimeStamp == lts+ldelta && got.MessageTimeDelta == ldelta)
	vEnsures("payload", vBytesEq(got.Payload, payload))
}

// A continuation as the server sends it, read inside its message.
func vh_continue(csid, ts uint32, typ uint8, max, length uint32, had, payload []byte) {
	vRequires(csid >= 2 && csid <= 65599 && length < 1<<24 && max > 0)
	vRequires(len(had) < int(length) && len(payload) <= int(max) && len(payload) <= int(length)-len(had))
	vRequires(len(payload) == int(max) || len(payload) == int(length)-len(had))
	w := &vWriter{b: make([]byte, 18+len(payload))}
	serr := NewChunk(MessageType(typ), length, ts, FMT3, csid, payload).Send(&RTMP{writerConn: w})
	r := &vReader{b: w.b[:w.n]}
	first := NewChunk(MessageType(typ), length, ts, FMT0, csid, nil)
	p := &RTMP{readerConn: r, peerMaxChunkSize: max, lastChunk: map[uint32]*Chunk{csid: first}}
	got, perr := ParseChunk(p, NewSetChunkSizeMessage(MessageBase{messageLength: length, messagePayload: had}))
	vEnsures("sent", serr == nil && w.n == vCsidLen(csid)+vExtLen(ts)+len(payload))
	vEnsures("parsed", perr == nil && r.at == w.n)
	vEnsures("same message", vSame(got, csid, length, typ, 0) && got.MessageTimeStamp == ts)
	vEnsures("payload", vBytesEq(got.Payload, payload))
}

// Any bytes at all: an error or a chunk no larger than allowed, never a crash.
func vh_any(in []byte, max, lcsid uint32, l *Chunk) {
	vRequires(l != nil)
	r := &vReader{b: in}
	p := &RTMP{readerConn: r, peerMaxChunkSize: max, lastChunk: map[uint32]*Chunk{lcsid: l}}
	got, err := ParseChunk(p, nil)
	if err == nil {
		vEnsures("within limits", len(got.Payload) <= int(max) && len(got.Payload) <= int(got.MessageLength) && r.at <= len(in))
	}
}
