#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","FLV audio/video tags survive parse and serialise, framed exactly",
  "Parsing any well-formed audio or video tag body and serialising it again yields the same bytes, and serialising any tag and parsing it yields the same fields and payload. A tag written to an FLV stream carries the right type, a 24-bit body size equal to the body, the full 32-bit timestamp (low 24 bits then the extension byte), stream id 0, the body unchanged, and a trailing size of 11 plus the body. Bodies too short to hold their tag header are rejected with an error, never a crash.",
  ["inputs"],"every tag body and every tag value (codec, flags, composition time, timestamp, payload of any length below 2^24)",
  "The tests check two hand-made audio tags; the codec branch, composition time, payload bytes and size fields are unconstrained by them.",
  ["libflv/audio.go","libflv/video.go","libflv/flv.go","libflv/tag.go"],
  [("ParseAudioTag / AudioTag.Marshal","libflv/audio.go"),("ParseVideoTag / VideoTag.Marshal","libflv/video.go"),("FLVWrite","libflv/flv.go")],
  observe=["return values of the tag parsers and serialisers","bytes written to HTTP-FLV clients"])
p("C02","ADTS headers describe the AAC frame they precede",
  "For every AudioSpecificConfig of two or more bytes and every raw AAC frame that fits in an ADTS frame, the 7-byte ADTS header carries sync word 0xFFF with no CRC, the profile, sampling-frequency index and channel configuration of that configuration, and a frame length equal to 7 plus the frame size. Configurations shorter than two bytes are rejected. Removing an ADTS header from a frame yields exactly the raw AAC bytes.",
  ["inputs"],"every 2-byte AudioSpecificConfig (object type 1..4, 16 rates, channel configurations 0..7) and every frame size 0..8184",
  "Tests cover one or two configurations with a fixed size; each header field straddles byte boundaries, so other channel counts, rates and sizes are unobserved.",
  ["libaac/aac.go","librtsp/aac.go"],
  [("AACHeader.Parse","libaac/aac.go"),("AACHeader.Adts","libaac/aac.go"),("AdtsToRaw","librtsp/aac.go")],
  observe=["bytes of the ADTS header","raw frame returned"])
p("C03","AVC decoder configuration yields exactly the declared SPS and PPS",
  "Given any AVC decoder configuration record, the remuxers extract exactly the bytes of the first SPS and PPS that the record's length fields delimit, or reject the record with an error when a length runs past the end. No record, however truncated or inconsistent, makes any of the configuration parsers crash. A configuration record rebuilt from one SPS and one PPS parses back to exactly those parameter sets.",
  ["inputs"],"every byte string given as an AVCDecoderConfigurationRecord; every SPS/PPS pair of legal length",
  "Tests parse one or two canned records; length fields are attacker-controlled and trailing profile-extension bytes vary between encoders.",
  ["libavc/avc.go","libdash/dash.go","librtmp/rtsp_server.go","librtmp/rtsp_ingest.go","libmp4/init_segment.go"],
  [("Parser.ParseSpecificInfo","libavc/avc.go"),("parseAVCDCR","libdash/dash.go"),("parseAVCDCRForRTSP","librtmp/rtsp_server.go"),("buildAVCSequenceHeader","librtmp/rtsp_ingest.go"),("avcC","libmp4/init_segment.go")])
p("C04","NAL unit framing conversions lose, add and reorder nothing",
  "Splitting a length-prefixed access unit gives exactly the NAL units it contains, in order and byte for byte; joining NAL units and splitting the result gives back the same list; converting length-prefixed units to start-code form keeps every NAL byte in order, each preceded by a start code. Truncated or inconsistent length prefixes never cause a crash or bytes from outside the buffer.",
  ["inputs"],"every byte buffer and every list of non-empty NAL units",
  "Tests use two-NAL buffers with fixed contents; the guarantee ranges over all lists, lengths and truncations.",
  ["librtsp/h264.go","librtsp/rtp_unpack.go","libhls/hls.go","libavc/avc.go","librtmp/srt_server.go"],
  [("SplitAVCC","librtsp/h264.go"),("AVCCFromNALs","librtsp/rtp_unpack.go"),("avccToAnnexB","libhls/hls.go"),("Parser.GetAnnexbH264","libavc/avc.go"),("splitAnnexB","librtmp/srt_server.go")])
p("C05","Every MPEG-TS packet is 188 bytes and carries the payload in order",
  "Every transport packet the muxer writes is exactly 188 bytes, starts with the sync byte, carries the requested PID and unit-start flag, and its continuity counter advances by one modulo 16 per packet of that PID. Concatenating the payloads of the packets produced for one elementary-stream packet reproduces its header and data exactly, with stuffing only inside adaptation fields, and the muxer reports completion exactly when the last byte has been written. Key-frame packets carry the random-access flag and the clock reference.",
  ["inputs","histories"],"every payload length, PID, timestamp, key-frame flag and starting offset; every sequence of packets",
  "The tests mux a few fixed sizes; the stuffing arithmetic changes behaviour at particular remainders (e.g. one byte short of a packet) that no test hits.",
  ["libmpeg/ts.go","libmpeg/pes.go"],
  [("TS.Mux / NewTs","libmpeg/ts.go"),("AdaptationField.Marshal","libmpeg/ts.go"),("PES.Remain / PES.Marshal","libmpeg/pes.go")],
  observe=["bytes written to the segment file"])
p("C06","PES headers carry the exact 33-bit PTS and DTS",
  "For every presentation and decode timestamp, the packetised elementary stream header the muxer builds encodes both timestamps modulo 2^33 with the correct prefixes and marker bits, omits the decode timestamp exactly when the two are equal, declares its own header length correctly, and sets the packet length to the remaining byte count or to zero when it does not fit in 16 bits. Parsing such a header gives back the same stream id and timestamps, and the ingest demultiplexer reads back the same timestamps and payload.",
  ["inputs"],"all stream ids used for media, all 64-bit PTS/DTS values, all payload lengths",
  "Tests use small timestamps; the high bits and the equal/unequal split appear only after hours of streaming.",
  ["libmpeg/pes.go","libsrt/tsdemux.go"],
  [("PES.Remain","libmpeg/pes.go"),("PES.Parse","libmpeg/pes.go"),("parsePESHeader / readPTS","libsrt/tsdemux.go")])
p("C07","PAT and PMT sections are self-consistent and CRC-protected",
  "Every program association and program map section written declares a section length that matches the bytes that follow, lists the configured program and stream types and PIDs, and ends with the MPEG-2 CRC-32 of all preceding section bytes. The CRC function equals the MPEG-2 polynomial division for every input.",
  ["inputs"],"every program table with up to the number of streams that fits one packet; every byte string for the CRC",
  "Tests compare one PAT and one PMT; the CRC and length must hold for every table and every field value.",
  ["libmpeg/psi.go","libmpeg/crc32.go","libhls/hls.go"],
  [("PAT.Marshal / PMT.Marshal","libmpeg/psi.go"),("CRC32","libmpeg/crc32.go"),("newPAT","libhls/hls.go")])
p("C08","AMF0 values round-trip and hostile AMF0 never crashes the decoder",
  "Numbers, booleans and strings encoded as AMF0 decode to the same value with every byte consumed, and strings longer than 65535 bytes use the long form. Decoding any byte string of any AMF0 type either returns values or an error; it never crashes, and each scalar decodes to the value its bytes denote.",
  ["inputs"],"every float64 bit pattern, boolean and string; every byte string fed to the decoder",
  "Tests decode a handful of captured commands; bytes come from unauthenticated peers.",
  ["libamf/amf0.go"],
  [("encodeamf0 and scalar encoders","libamf/amf0.go"),("decodeamf0 and scalar decoders","libamf/amf0.go")])
p("C09","RTMP chunk headers round-trip for every stream id, format and time",
  "A chunk written with any legal chunk stream id (2..65599), any header format and any timestamp is read back by the chunk parser with the same stream id, message length, type, message stream id and timestamp (or delta), including the extended timestamp used from 0xFFFFFF upward. The number of bytes consumed equals the number of bytes written.",
  ["inputs"],"all chunk stream ids, header formats 0-3, 32-bit timestamps and lengths",
  "Tests use small stream ids and timestamps; the 2- and 3-byte id forms and the extended timestamp are boundary encodings.",
  ["librtmp/chunk.go"],
  [("parseChunkBasicHeader / parseChunkMessageHeader","librtmp/chunk.go"),("Chunk.Send","librtmp/chunk.go")])
p("C10","RTMP messages fragment and reassemble to the identical payload",
  "A message of any length sent with any negotiated chunk size is split into chunks of at most that size whose payloads concatenate to the message, and a receiver using the same chunk size reassembles exactly the original payload, type and timestamp. No chunk carries more than the negotiated size and no bytes are read beyond the message.",
  ["inputs","histories"],"all payload lengths, chunk sizes >= 1 and chunk stream ids",
  "Tests send messages of a few sizes at the default chunk size 128; exact multiples and renegotiated sizes are not covered.",
  ["librtmp/message.go","librtmp/chunk.go","librtmp/video.go","librtmp/audio.go"],
  [("ParseMessage","librtmp/message.go"),("ParseChunk / NewChunk / Chunk.Send","librtmp/chunk.go"),("MessageBase.Append/Remain/Done","librtmp/message.go")])
p("C11","RTMP handshake accepts conforming peers and never reads out of range",
  "For every first handshake packet a peer can send, digest and key offsets computed from it lie inside the packet and handling it never crashes. The packets produced in reply have the protocol sizes, embed a digest that verifies over the rest of the packet under the server key at the offset the packet itself declares, and answer the peer's digest; a peer without a valid digest gets the simple handshake echo.",
  ["inputs"],"every 1536-byte C1/S1 content, including those whose four offset bytes sum to the extremes",
  "Tests run the handshake with one or two random packets; 728 offsets in two schemas exist and random data rarely hits the extremes.",
  ["librtmp/handshake.go"],
  [("Peer.parseC1 / parseC2","librtmp/handshake.go"),("Peer.makeS1 / makeS2","librtmp/handshake.go")])
p("C12","Hostile or truncated RTMP messages cannot crash the server",
  "Whatever bytes a peer sends as the payload of a control, command, audio, video, data or aggregate message, parsing and handling it never crashes the process; a payload too short or of the wrong shape is reported as an error and is not acted upon. Control values are read as the protocol defines them: 31-bit chunk size, 32-bit window, sequence and stream numbers, big-endian, and a chunk size of zero is refused.",
  ["inputs"],"every payload of every message type",
  "Tests send well-formed messages only; a panic in a session goroutine kills every stream in the process.",
  ["librtmp/control_message.go","librtmp/command_message.go","librtmp/audio.go","librtmp/video.go","librtmp/data_message.go","librtmp/message.go"],
  [("*Message.Parse / Do","librtmp/control_message.go, command_message.go, audio.go, video.go, data_message.go"),("ParseMessage dispatch","librtmp/message.go")])
p("C13","RTMP aggregate messages are unpacked exactly",
  "Each sub-message of an aggregate is delivered in order with exactly its own payload bytes, its declared type and a timestamp rebased so that the first sub-message takes the aggregate's time and the others keep their relative spacing. A truncated aggregate stops cleanly after the last complete sub-message without crashing.",
  ["inputs"],"every aggregate payload",
  "No test builds an aggregate with more than trivial content; lengths come from the peer.",
  ["librtmp/aggregate_message.go"],[("AggregateMessage.Do","librtmp/aggregate_message.go")])
p("C14","WebSocket frames round-trip for every length and mask",
  "Every payload written as a WebSocket frame (up to the reader's 16 MiB limit) uses the shortest legal length form, has the final bit set, carries the payload unmodified and unmasked, and reads back identically; every masked client frame of any length is unmasked to exactly the client's payload with its opcode. A frame header announcing an absurd length is refused without crashing.",
  ["inputs"],"all payload lengths (below, at and above 125, 65535), masks and opcodes; all incoming byte strings",
  "Tests exercise one size per length class; boundary lengths and hostile 64-bit lengths are not covered.",
  ["librtmp/websocket.go"],[("wsConn.writeFrame","librtmp/websocket.go"),("wsConn.readFrame","librtmp/websocket.go")])
p("C15","RTP packets are numbered consecutively and round-trip through the parser",
  "Every RTP packet produced has version 2, the configured payload type and source id, the given marker, timestamp and payload, and a sequence number one greater (modulo 2^16) than the previous. Parsing a produced packet gives back all of these, and parsing any received datagram either yields a payload that lies inside it after header, contributing sources, extension and padding are removed, or an error; it never crashes. Interleaved framing declares the exact packet length.",
  ["inputs","histories"],"all field values, payloads and received datagrams",
  "Tests pack one or two packets; sequence wrap and header extension/padding combinations are not covered.",
  ["librtsp/rtp.go","librtsp/rtp_unpack.go"],
  [("RTPPacker.Pack","librtsp/rtp.go"),("InterleaveFrame","librtsp/rtp.go"),("ParseRTP","librtsp/rtp_unpack.go")])
p("C16","H.264 over RTP: fragments fit the MTU and reassemble to the same NAL",
  "Packetising any H.264 NAL unit (forbidden bit clear) yields payloads no larger than the MTU: the unit itself when it fits, otherwise fragments whose first has only the start bit, last only the end bit, all others neither, that carry the unit's type and reference bits and whose data concatenate to the unit's bytes after the first. Feeding the payloads of a unit of type 1-23 in order to the depacketiser gives back exactly that unit; arbitrary received payloads never crash it.",
  ["inputs","histories"],"every NAL unit and MTU above the fragment header size; every received payload sequence",
  "Tests fragment one NAL at one MTU; exact multiples of the fragment size and depacketiser state after loss are not covered.",
  ["librtsp/h264.go","librtsp/rtp_unpack.go"],
  [("PackNAL","librtsp/h264.go"),("H264Reassembler.Push","librtsp/rtp_unpack.go")])
p("C17","HEVC over RTP: fragments fit the MTU and preserve the NAL",
  "Packetising any HEVC NAL unit yields payloads no larger than the MTU: the unit itself when it fits, otherwise fragmentation units with the original layer and temporal ids, type 49 in the payload header, the original type in the fragment header, start and end bits on the first and last fragments only, and data that concatenate to the unit after its two header bytes.",
  ["inputs"],"every HEVC NAL unit and MTU above the fragment header size",
  "One NAL size and MTU are tested; header bits and boundary sizes are not.",
  ["librtsp/hevc.go"],[("PackHEVCNAL","librtsp/hevc.go")])
p("C18","AAC over RTP: access units round-trip with correct AU headers",
  "Packing any AAC frame of up to 8191 bytes gives an RTP payload whose AU-header section declares one 16-bit header with the frame's size and index 0, and extracting access units from it gives back exactly that frame. Extracting from any received payload never crashes, never returns bytes outside the payload, and returns units in order with their declared sizes.",
  ["inputs"],"every frame below 8192 bytes; every received payload",
  "Tests cover a few sizes; the size field is split across two bytes and received headers are untrusted.",
  ["librtsp/aac.go","librtsp/rtp_unpack.go"],[("PackAACFrame","librtsp/aac.go"),("AACAUExtract","librtsp/rtp_unpack.go")])
p("C19","RTSP interleaved media and port negotiation parse safely and exactly",
  "For every Transport header value, client ports and interleaved channels are either rejected or returned as the in-range numbers the header states, and a malformed or negative content length in a request is rejected instead of crashing the session. Responses announce a content length equal to their body.",
  ["inputs"],"every header string and request byte stream",
  "Tests use well-formed headers; header text is peer-controlled.",
  ["librtsp/message.go","librtmp/rtsp_server.go"],
  [("ReadRequest / Response.Bytes","librtsp/message.go"),("parseClientPorts / parseInterleavedChannels","librtmp/rtsp_server.go")])
p("C20","SRT packet, acknowledgement and loss-report encodings are exact",
  "A data or control header built by the stack parses back to the same sequence number, flags, type, timestamp and destination, with the body being exactly the bytes after the 16-byte header; shorter packets are rejected. A loss report built from any list of ranges parses back to the same ranges, and parsing any received loss report never crashes and never yields sequence numbers wider than 31 bits.",
  ["inputs"],"all field values; all packets and reports",
  "Tests cover single examples; bit packing of flags and range markers must hold for all values.",
  ["libsrt/packet.go","libsrt/control.go"],
  [("ParseHeader / MarshalDataHeader / MarshalControlHeader","libsrt/packet.go"),("MarshalNAK / ParseNAK / ACKBody.Marshal","libsrt/control.go")])
p("C21","SRT sequence comparison is correct across 31-bit wrap-around",
  "The signed distance between two 31-bit sequence numbers is their difference modulo 2^31 taken in the half-open range around zero: zero only for equal numbers, antisymmetric except at the exact half distance, and positive exactly for the numbers up to half the space ahead.",
  ["inputs"],"all pairs of 31-bit sequence numbers",
  "Tests compare a few pairs; errors show only near the wrap.",
  ["libsrt/control.go"],[("SeqDiff","libsrt/control.go")])
p("C22","SRT receive delivers in order, never twice, and reports each gap exactly",
  "For every arrival order of data packets, the receiver hands each packet's payload to the application at most once and with strictly increasing sequence numbers (modulo 2^31), drops late duplicates, asks for retransmission of exactly the missing range when a gap opens, and acknowledges the next expected number within 31 bits.",
  ["histories","inputs"],"every sequence of arriving sequence numbers, including wrap-around",
  "The end-to-end test sends packets in order from zero; gaps, duplicates and wrap are not explored.",
  ["libsrt/listener.go"],[("Listener.handleDataPacket / maybeSendACK / sendNAK","libsrt/listener.go")],
  state=[("expectedSeq","next sequence number to deliver","libsrt/listener.go")])
p("C23","SRT handshakes round-trip and media flows only after a cookie check",
  "A handshake packet serialises and parses back to the same fields and packets that are too short are rejected. An induction request is answered with a cookie and leaves no session; a conclusion request establishes a session only when it echoes the cookie issued to that peer.",
  ["inputs","histories"],"all handshake contents; all orders of induction and conclusion requests",
  "Tests perform the happy path only; the cookie exists to resist spoofed peers.",
  ["libsrt/handshake.go","libsrt/listener.go"],[("ParseHandshake / Handshake.Marshal","libsrt/handshake.go"),("Listener.handleHandshake","libsrt/listener.go")])
p("C24","SRT payload decryption uses the packet's key and counter",
  "An encrypted data payload is decrypted with AES-CTR under the even or odd key selected by the packet's key flags, with the counter derived from the salt and the packet's sequence number; unencrypted payloads (or all, while encryption is inactive) pass through unchanged, and a packet whose key flags name neither key is an error. The ciphertext buffer is not modified and output length equals input length.",
  ["inputs"],"all key flags, sequence numbers, salts and payloads",
  "Tests use one key and sequence number.",
  ["libsrt/crypto.go"],[("CryptoState.DecryptDataPayload / buildIV","libsrt/crypto.go")])
p("C25","SRT transport-stream ingest never crashes and extracts media exactly",
  "Any byte string fed as transport stream data is processed without a crash or an access outside it. For a well-formed stream, program tables select the video and audio streams by stream type, and each elementary packet is delivered once, complete and in order, with its timestamps, when the next one on that stream starts.",
  ["inputs","histories"],"every byte string; every sequence of packets",
  "Tests feed one synthetic stream; section pointers, adaptation lengths and PES header lengths are untrusted.",
  ["libsrt/tsdemux.go"],[("Demuxer.Feed / parsePAT / parsePMT / feedVideo / feedAudio","libsrt/tsdemux.go")])
p("C26","MP4 boxes declare exactly the bytes they contain",
  "Every box written for initialisation and media segments starts with a 32-bit size equal to its own total length followed by its type, containers are exactly the concatenation of their children, and big-endian field writers emit the value's bytes in order. The AVC configuration in the init segment embeds the given SPS and PPS with their lengths, and the HEVC configuration is embedded verbatim.",
  ["inputs"],"all track parameters, parameter sets and child boxes",
  "Tests check a few boxes by example; a size error at any nesting depth makes the file unplayable.",
  ["libmp4/box.go","libmp4/init_segment.go","libmp4/init_segment_hevc.go"],
  [("Box.Bytes / container / append helpers","libmp4/box.go"),("BuildInitSegment","libmp4/init_segment.go"),("BuildHEVCInitSegment","libmp4/init_segment_hevc.go")])
p("C27","Fragmented MP4 segments point each sample at its own bytes",
  "In every media segment, the run table lists one entry per sample with that sample's duration, size, flags and composition offset, the data offset leads exactly to the first sample byte in the media data box, and the media data is the concatenation of the samples in order, so that offsets and sizes locate every sample. The base decode time and sequence number are those requested.",
  ["inputs"],"all sample lists, sizes, flags and times",
  "Tests use one or two samples; offset arithmetic depends on the number of samples.",
  ["libmp4/media_segment.go"],[("BuildMediaSegment / trun / traf / tfdt","libmp4/media_segment.go")])
p("C28","Parameter-set bit parsing is exact and never reads out of range",
  "Reading bits and Exp-Golomb codes from a parameter set returns the values those bits denote, most significant bit first, and fails rather than reads past the end. Extracting picture dimensions from any byte string given as an AVC or HEVC configuration or SPS terminates without crashing.",
  ["inputs"],"every byte string and bit width",
  "Tests parse a couple of real parameter sets; contents are publisher-controlled.",
  ["libdash/dash.go","librtmp/rtsp_server.go"],
  [("bitReader.readBits/readUE/readSE","libdash/dash.go"),("parseSPSDimensions / parseHEVCDCRDimensions / parseHEVCSPSDimensions","libdash/dash.go"),("parseHEVCDCRForRTSP","librtmp/rtsp_server.go")])
p("C29","HLS timestamps follow the source clock at 90 kHz",
  "Every elementary packet produced for HLS from a media tag has a decode timestamp of 90 times the tag's millisecond time and a presentation timestamp later by 90 times its composition offset, for every 32-bit time. Audio alignment moves a timestamp by at most 2 ms (180 ticks) and otherwise rebases to the source, and payload bytes are carried unchanged.",
  ["inputs","histories"],"all 32-bit timestamps and composition offsets; all alignment histories",
  "Tests run for seconds; 32-bit arithmetic problems appear after hours.",
  ["libhls/hls.go","libhls/align.go","libhls/audio_cache.go"],
  [("HLS.toPES","libhls/hls.go"),("align.align","libhls/align.go"),("audioCache","libhls/audio_cache.go")])
p("C30","HLS playlists list a contiguous window of finished segments",
  "Closing a segment appends exactly it to the segment list with the duration between its first and the next segment's first timestamp, the list never exceeds its window and drops only the oldest entries, and sequence numbers are consecutive. Low-latency parts of a segment cover its bytes contiguously from offset zero without gap or overlap.",
  ["histories","inputs"],"all sequences of open, part and close events and timestamps",
  "The integration test produces a few segments; window eviction and part accounting over long histories are not covered.",
  ["libhls/hls.go","libhls/m3u8.go"],[("HLS.openSegment / closeCurrentPart / finaliseCurrent / rotate","libhls/hls.go")])
p("C31","DASH segments are contiguous in number and time",
  "Each flushed DASH segment takes the next segment number, its base time equals the previous segment's base time plus the sum of its sample durations as recorded in the timeline, contains the buffered samples in order, and empty buffers produce no segment. The timeline keeps at most its window of entries and the manifest numbering matches the oldest retained entry.",
  ["histories","inputs"],"all sample sequences and flush points",
  "Tests flush one or two segments; continuity over long histories is not covered.",
  ["libdash/dash.go","libdash/mpd.go"],[("DASH.flushCurrent","libdash/dash.go"),("buildMPD","libdash/mpd.go")])
p("C32","Every subscriber sees the published frames in order under any schedule",
  "A player that joins a live stream receives metadata and codec headers first, then starts at a group-of-pictures boundary and sees frames in publish order, whatever the interleaving of publisher and players.",
  ["schedules","histories"],"all interleavings of publisher and subscriber goroutines",
  "Tests run one schedule each.",
  ["librtmp/room.go","librtmp/video.go","librtmp/audio.go"],[("Room.RTMPJoin / FLVJoin","librtmp/room.go"),("snapshotHeaders","librtmp/room.go")])
p("C33","Blocking playlist requests return when the asked part exists or time out",
  "A low-latency playlist request for a given segment and part returns a playlist containing it as soon as it exists, and otherwise returns within the timeout.",
  ["schedules"],"all interleavings of requests and part completions","Tests exercise one wake-up order.",
  ["libhls/hls.go"],[("HLS.WaitForPlaylist","libhls/hls.go")])
p("C34","Stream teardown releases every session exactly once",
  "When a publisher or player disconnects at any moment, its room, HLS and DASH workers are stopped exactly once, no goroutine keeps waiting on a dead stream, and a republish under the same name starts from a clean state.",
  ["schedules","crash_points"],"all disconnect points and interleavings","Tests disconnect cleanly.",
  ["librtmp/rtmp.go","librtmp/room.go","librtmp/app.go"],[("RTMP.cleanup / Room.Close","librtmp/rtmp.go, librtmp/room.go")])
p("C35","Session descriptions survive build and parse",
  "A session description built for any codec parameters parses back to the same codecs, payload types, clock rates and parameter sets, and any received description is parsed or rejected without crashing.",
  ["inputs"],"all parameter sets and received texts","Tests parse a few captured descriptions.",
  ["librtsp/sdp.go","librtsp/sdp_parse.go"],[("BuildSDP","librtsp/sdp.go"),("ParseSDP","librtsp/sdp_parse.go")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
