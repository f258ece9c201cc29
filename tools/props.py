#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one line per property).  Edit the table here, then run it."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

H = "net/h264/"
R = "net/rtsp/"
props = [
P("C01", "Bit reader returns exactly the bits of its buffer, in order",
  "For every buffer and every sequence of reads and skips, each successful call returns the value of the next bits of the buffer (fixed width 0 to 32, flag, unsigned and signed Exp-Golomb, 0xFF-coded SEI parameter, scaling list), skipping an element moves exactly as far as reading it, and the number of available bits is always the total (less trailing bits dropped on request) minus what was consumed. A fixed-width request for more bits than remain, or for more than 32, returns an error and consumes nothing. No call panics or returns bits that are not in the buffer.",
  ["inputs", "histories"], "all buffers, all sequences of reader calls, all bit alignments",
  "The three bit-reader tests read one 2-byte buffer with five widths below 9 and five one-byte Golomb codes; wide reads at every alignment, long codes, skips and interleavings of calls are never run.",
  [H+"bits.go"], [("ReadBits shift/mask window", H+"bits.go"), ("Exp-Golomb decoding", H+"bits.go")],
  [("byten/bitn", "read position", H+"bits.go BitReader")], ["BitReader methods", "Available"]),
P("C02", "Emulation prevention is reversible and hides start codes",
  "Encapsulating any byte string and removing emulation prevention from the result yields the original bytes. The encapsulated form never contains the sequences 00 00 00, 00 00 01 or 00 00 02, and 00 00 03 occurs in it only where an emulation prevention byte was inserted. Neither direction panics on any input, including inputs that end in zero bytes, and neither modifies its input.",
  ["inputs"], "all byte strings", "The tests check one 23-byte SPS in each direction, with isolated zero pairs only; runs of zeros and zeros at the end of the payload are not sampled.",
  [H+"annexb.go"], [("zero-run tracking", H+"annexb.go RBSPToEncapsulated, EBSPToRaw")], None, ["RBSPToEncapsulated", "EBSPToRaw"]),
P("C03", "Annex B splitting recovers exactly the NAL units of the stream",
  "For every list of non-empty NAL units (emulation-prevented, not ending in a zero byte) joined with any mixture of 3-byte and 4-byte start codes, with or without a start code before the first unit, splitting returns exactly those units in order, each with emulation prevention removed and none empty, merged or cut. The input is not modified.",
  ["inputs"], "all unit lists and all start code placements", "One test splits one stream of three units, all with 4-byte start codes and no zero bytes near the boundaries.",
  [H+"annexb.go"], [("start code scan", H+"annexb.go SplitAnnexB")], None, ["SplitAnnexB"]),
P("C04", "Depacketized NAL units do not depend on how they were packetized",
  "Whatever way a sequence of NAL units is carried in RTP payloads (single unit, STAP-A, STAP-B, MTAP16, MTAP24, FU-A or FU-B with any cut points, or an Annex B byte stream), after each payload the sink holds exactly the units completed by it, in order, each with its original header byte and its payload with emulation prevention removed. Each unit carries the timestamp RFC 6184 gives it (packet timestamp, plus the offset for MTAP, modulo 2^32) and its decoding order number: the one signalled by STAP-B (counting up per unit), by MTAP (base plus difference) or by the FU-B that starts the unit, and otherwise one more than the preceding unit, all modulo 2^16.",
  ["inputs", "histories"], "all sequences of NAL units, all packetizations of them, all DON and timestamp values including wrap-around",
  "No test covers packet.go at all.",
  [H+"packet.go"], [("NALSink.Push/parseNAL", H+"packet.go"), ("parseSTAP/parseMTAP", H+"packet.go"), ("AddFragment", H+"packet.go")],
  [("Units", "units completed by the last payload", H+"packet.go NALSink"), ("Don", "next decoding order number", H+"packet.go NALSink")], ["NALSink.Push", "NALSink.Units"]),
P("C05", "Fragmented units are rebuilt only from one complete series",
  "For every sequence of received fragments (any losses, repetitions and restarts, and whatever payloads of other kinds arrive between them), a unit is emitted exactly when a fragment with the end flag arrives after a start fragment of a series not yet completed, and its payload is the concatenation of the fragments from the most recent start fragment to that end fragment, in arrival order. Fragments that arrive without a start fragment, including after a series was completed, produce nothing and never leak into a later unit.",
  ["histories", "fault_sequences"], "all sequences of start, middle, end and start+end fragments of any type and content, any length, with other payloads anywhere in between",
  "No test pushes a fragment.", [H+"packet.go"], [("fragment queue reset on start", H+"packet.go AddFragment")],
  [("Fragments", "fragments of the series in progress", H+"packet.go NALSink")], ["NALSink.Push", "NALSink.Units"]),
P("C06", "Delivered units and pending fragments own their bytes",
  "Once a payload has been pushed, overwriting or reusing the caller's buffer changes neither the units delivered for it nor fragments still waiting to be combined. Pushing further payloads never changes the data of units a caller copied out of the sink earlier, and pushing never modifies the caller's buffer.",
  ["inputs", "histories"], "all sequences of pushes of all packet kinds with the same reused buffer", "No test pushes two payloads or reuses a buffer.",
  [H+"packet.go", H+"annexb.go"], [("copy on emulation removal and reassembly", H+"packet.go, "+H+"annexb.go")], None, ["NALSink.Units[i].Data"]),
P("C07", "Malformed H.264 payloads are rejected without crashing or inventing data",
  "Pushing any byte string at all never panics: it yields an error or units whose payload bytes all come from that payload (or from fragments pending before it). An aggregation packet whose declared unit size is zero or exceeds the packet is reported as an error. After any malformed payload the sink still depacketizes subsequent valid payloads correctly.",
  ["inputs", "fault_sequences"], "all payload byte strings, then a valid payload", "No test pushes malformed input.",
  [H+"packet.go"], [("size checks", H+"packet.go parseSTAP, parseMTAP, parseNAL")], None, ["NALSink.Push"]),
P("C08", "Decoding order number distance follows RFC 6184 modulo arithmetic",
  "For every pair of 16-bit decoding order numbers the reported distance is the one defined by RFC 6184 don_diff: congruent to second minus first modulo 65536, positive exactly when the second follows the first by at most 32767 or (being smaller) wraps around by at most 32768, and zero exactly when they are equal.",
  ["inputs"], "all 2^32 pairs", "No test calls DonDiff.", [H+"packet.go"], [("DonDiff", H+"packet.go")], None, ["DonDiff"]),
P("C09", "SPS parsing recovers every syntax element and the picture size",
  "For every sequence parameter set written according to the H.264 syntax (profiles with and without chroma information, all chroma formats, scaling lists, picture order count types 0, 1 and 2, frame or field coding, cropping), parsing succeeds and the stored information holds exactly the coded values. Width and height are the cropped luma dimensions given by the standard.",
  ["inputs", "configurations"], "all combinations of SPS syntax element values", "Two tests parse one 1280x720 SPS and compare only width and height.",
  [H+"spspps.go", H+"bits.go"], [("ParseSPS", H+"spspps.go"), ("dimension formula", H+"spspps.go")], None, ["ParameterSets.ParseSPS", "GetSPS"]),
P("C10", "PPS parsing recovers every syntax element",
  "For every picture parameter set written according to the H.264 syntax (all slice group map types 0 to 6 with up to 8 groups, all optional transform and scaling list extensions, with chroma format taken from the referenced SPS), with its stop bit and any trailing zero bytes, parsing succeeds and the stored information holds exactly the coded values; the optional extension is read exactly when it is present.",
  ["inputs", "configurations"], "all combinations of PPS syntax element values", "Two tests parse one 4-byte PPS and compare only its id.",
  [H+"spspps.go", H+"bits.go"], [("ParsePPS", H+"spspps.go")], None, ["ParameterSets.ParsePPS", "GetPPS"]),
P("C11", "Parameter sets are stored by id and change only on a successful parse",
  "After any sequence of SPS and PPS arrivals, looking up an id returns the last successfully parsed set with that id, or nothing if there was none; a parse that returns an error leaves every stored set as it was, and sets of different ids, kinds or stores never affect each other. Out-of-band sets given as whole NAL units are dispatched on their type with emulation prevention removed; empty ones and other types are ignored without error.",
  ["histories", "inputs"], "all sequences of valid, truncated and foreign parameter sets", "Each test parses a single set into a fresh store.",
  [H+"spspps.go"], [("indexed maps written at the end of a parse", H+"spspps.go")], [("spset/ppset", "current sets by id", H+"spspps.go ParameterSets")], ["GetSPS", "GetPPS", "ParseSprop"]),
P("C12", "Malformed parameter sets never crash the parser or exhaust memory",
  "Parsing any byte string as an SPS, a PPS or an out-of-band parameter set returns (with or without an error) without panicking and with memory use bounded by a small multiple of the input plus a constant. A set cut short before the end of its mandatory syntax is reported as an error, and so is a PPS that declares more than 8 slice groups.",
  ["inputs"], "all byte strings; all truncations of valid sets", "Only two valid sets are parsed.",
  [H+"spspps.go", H+"bits.go"], [("range checks and end-of-buffer errors", H+"spspps.go, "+H+"bits.go")], None, ["ParseSPS", "ParsePPS", "ParseSprop"]),
P("C13", "HLS playlist always shows the latest segments with contiguous ranges",
  "After any number of added segments, the rendered playlist has the playlist header and the end marker and lists exactly the most recent ones, up to the configured capacity, oldest first, each with the duration and length it was added with and the media URI. The byte ranges are contiguous in order of addition and start at 0 for the first segment ever added, and rendering does not change the playlist. A playlist is refused with an error if its URI is malformed, and only then.",
  ["histories", "configurations"], "all capacities of at least 1 and all sequences of additions and renderings", "The one test adds 6 segments to a ring of 5 and renders once, so the ring wraps by one position only.",
  ["net/hls/playlist.go"], [("ring indices", "net/hls/playlist.go AddSegment")], [("First/Last", "ring window", "net/hls/playlist.go Playlist")], ["Playlist.String"]),
P("C14", "RTP packets are decoded exactly or rejected",
  "For every well-formed RTP packet (any flags, contributing sources, header extension and padding) unpacking returns every header field as encoded and exactly the payload bytes, with padding removed. A packet of another version, or one too short for the header, sources, extension or padding it declares, is rejected with an error; no byte string causes a panic.",
  ["inputs"], "all packets and all truncations of them", "net/rtp has no tests.",
  ["net/rtp/packet.go"], [("Unpack", "net/rtp/packet.go")], None, ["rtp.Unpack", "Packet accessors"]),
P("C15", "RTCP packets are decoded exactly or rejected",
  "For every RTCP packet, unpacking returns the version, padding and count bits, packet type and length as encoded, and for a sender report all sender information fields. A packet of another version, one shorter than the fixed header, or a sender report too short for its declared number of report blocks is rejected with an error; no byte string causes a panic.",
  ["inputs"], "all packets and all truncations of them", "net/rtcp has no tests.",
  ["net/rtcp/packet.go"], [("Unpack", "net/rtcp/packet.go")], None, ["rtcp.Unpack", "Packet accessors"]),
P("C16", "SDP parsing yields exactly the video streams and their own attributes",
  "For every session description, parsing returns one feed per video media section, in order, holding that section's payload type, control URL, rtpmap payload number, codec and clock rate, and format parameters (parameter sets, config, size and index length), whatever the order of attributes, line endings, number of parameters or characters in control URLs and base64 data. Session-level attributes and those of other media sections never affect a video feed.",
  ["inputs", "configurations"], "all session descriptions built from video, audio and application sections with attributes in any order", "The only test parses one document and asserts nothing.",
  ["net/sdp/packet.go"], [("line oriented parser", "net/sdp/packet.go Parse")], None, ["sdp.Parse"]),
P("C17", "SDP parsing never fails on malformed input",
  "Parsing any byte string as a session description returns without panicking. Damaged or unknown lines do not affect how the other lines are understood: cutting a description short at a line boundary yields the same feeds and attributes as the lines before the cut define.",
  ["inputs"], "all byte strings; all truncations and line deletions of valid descriptions", "The only test parses one well-formed document.",
  ["net/sdp/packet.go"], [("field count checks", "net/sdp/packet.go Parse")], None, ["sdp.Parse"]),
P("C18", "Every authorization value verifies at an RFC 2617 server",
  "For every Basic or Digest challenge (no qop, auth, auth-int; MD5 and, with a qop, MD5-sess) and every sequence of authorizations produced from it for any methods and bodies, a server applying RFC 2617 accepts each value: the echoed parameters match the challenge, the response hash is correct for the user, password, method, declared URI and body, and the nonce count is 8 hexadecimal digits starting at 1 and increasing by one with each use of the nonce.",
  ["inputs", "histories"], "all challenges, credentials and sequences of methods", "Two tests compute a single response each for one challenge.",
  [R+"digest.go"], [("Authenticate/response/Next", R+"digest.go")], [("count/nc/cnonce/ha1", "per-nonce digest state", R+"digest.go Digest")], ["DigestAuth return value"]),
P("C19", "Authentication challenges are understood or refused, never misread",
  "Any Basic or Digest challenge with parameters in any order, quoted or not, with any spacing around commas, with commas, equal signs or spaces inside quoted values and with unknown parameters, is parsed so that the resulting authorization echoes realm, nonce and opaque unchanged. A challenge of another scheme or a Digest challenge with an algorithm other than MD5 or MD5-sess is refused with an error, and no challenge string causes a panic.",
  ["inputs"], "all challenge header values", "Two well-formed challenges are parsed by the tests.",
  [R+"digest.go"], [("NewDigest", R+"digest.go")], None, ["NewDigest", "DigestAuth return value"]),
P("C20", "Transport headers survive formatting and parsing",
  "The transport offered for stream i asks for the selected lower protocol with the channel or port pair 2i, 2i+1 (offset by the first UDP port for UDP). Formatting any transport and parsing the result into a transport of the same kind reproduces every parameter, and parsing a server's value sets exactly the parameters it names, in any order and letter case, leaving the others untouched. A missing or non-numeric value of a numeric parameter is reported as an error; no value causes a panic.",
  ["inputs"], "all parameter combinations, orders and values", "transport.go has no tests.",
  [R+"transport.go"], [("String/Parse/ParsePair", R+"transport.go")], None, ["NewTransport", "Transport.String", "Transport.Parse", "ParsePair"]),
P("C21", "Requests are well-formed RTSP messages carrying exactly what was asked",
  "Every packed request is one complete RTSP/1.0 message: request line with method and URI, CRLF-terminated headers, CSeq, every given header once, User-Agent, Content-Length 0 and an empty line, with Authorization present exactly when given. The Session header is present exactly when a session is set and the method is neither OPTIONS nor SETUP, unless given explicitly. Packing leaves the request as it is, so that it can be packed again.",
  ["inputs"], "all methods, URIs, sequence numbers, header sets, session and authorization values", "message.go has no tests.",
  [R+"message.go"], [("Request.Pack", R+"message.go")], None, ["Request.Pack"]),
P("C22", "Responses are parsed exactly and consume exactly their own bytes",
  "For every well-formed RTSP response on the connection, with CRLF or LF line ends, any header name case and spacing, any reason phrase and a body of any declared length up to 64 KiB, unpacking returns the status with its reason phrase, CSeq, headers (looked up without regard to case) and the exact body, and leaves the connection positioned at the first byte after it. Bytes that are not a response of that version with a three digit status and well-formed headers yield an error, never a panic.",
  ["inputs"], "all responses and malformed variations of them, followed by further bytes", "message.go has no tests.",
  [R+"message.go", R+"connection.go"], [("Unpack", R+"message.go"), ("ReadLine/ReadBytes", R+"connection.go")], None, ["rtsp.Unpack", "Conn.Peek"]),
P("C23", "Opening a session sets up every video stream before reporting ready",
  "For every description with one or more video streams and every order in which the server answers, an opened session sends OPTIONS, then DESCRIBE, then exactly one SETUP per video stream to that stream's control URL (resolved against the presentation URL when relative) with that stream's own transport, each only after the answer it depends on. It reports ready exactly once, after all SETUP requests have been answered and not before, and a refused SETUP does not prevent the other streams from becoming ready; a DESCRIBE refused by the server leads to no SETUP.",
  ["histories", "configurations"], "all response orders and status codes, numbers of streams, control URL forms, lower protocols", "session_test.go is empty.",
  [R+"session.go", R+"feed.go"], [("handleRtsp/handleSetup", R+"session.go")], [("stage/feedidx/queue", "protocol progress", R+"session.go Session")], ["bytes written to the connection", "Session.State"]),
P("C24", "Stage changes are reported only for confirmed commands",
  "After ready, for every sequence of PLAY, PAUSE and TEARDOWN commands, each sent to the presentation URL exactly once, and for every order and status of the server's answers, the session reports the playing, paused or done stage exactly once for each command answered with 200, in the order in which the answers arrive, and reports nothing for refused commands or for answers to other requests.",
  ["histories"], "all command sequences, answer orders (pipelining) and statuses", "session_test.go is empty.",
  [R+"session.go"], [("handleRtsp verb dispatch", R+"session.go")], [("queue", "outstanding requests by CSeq", R+"session.go Session")], ["bytes written to the connection", "Session.State"]),
P("C25", "A challenged request is repeated once with valid credentials",
  "Whichever requests the server challenges with 401, each challenged request is sent again exactly once, unchanged in method, URI, headers and sequence number, with an authorization that verifies for that method and URI, and the session then proceeds as if it had not been challenged, even when several requests are outstanding. Later requests carry valid authorization from the start; when the repeated request is refused again, or the URL has no credentials, the request is not sent again.",
  ["histories", "fault_sequences"], "all placements of challenges over the life of a session, including on pipelined requests and repeated refusals", "session_test.go is empty.",
  [R+"session.go", R+"digest.go"], [("authorize/enqueue on 401", R+"session.go handleRtsp")], [("auth", "current authenticator", R+"session.go Session"), ("queue", "outstanding requests", R+"session.go Session")], ["bytes written to the connection"]),
P("C26", "Interleaved packets are delivered intact however the bytes arrive",
  "For every byte stream of interleaved binary packets (any channel, any length from 0 to 65535, any content) and RTSP responses in any order, however it is cut into segments and with pauses longer than the read timeout anywhere, and however slowly the consumer takes packets and stage reports, the session delivers each packet exactly once with its channel and exact payload, in order, and handles each response exactly as if the bytes had arrived at once.",
  ["inputs", "schedules", "fault_sequences"], "all message sequences, segmentations, stalls and consumer delays", "session_test.go is empty; nothing runs the connection code.",
  [R+"session.go", R+"connection.go", R+"message.go"], [("receive", R+"session.go"), ("buffered reads with deadlines", R+"connection.go")], None, ["Session.Data", "Session.State"]),
P("C27", "Concurrent commands get distinct sequence numbers and matching answers",
  "For every interleaving of commands issued by application goroutines with the session's own processing of responses, every request sent has a sequence number of its own (only an authorization retry repeats the number of the request it repeats), each whole request reaches the wire uninterrupted, and every answer is attributed to the request with its sequence number, so that no outstanding request is lost or taken for another.",
  ["schedules"], "all interleavings of application goroutines and the receiving goroutine", "No test starts a session, and a test would see a handful of schedules.",
  [R+"session.go"], [("mutex-protected queue and counter", R+"session.go enqueue/dequeue")], [("cseq/queue/auth/session", "state shared by goroutines", R+"session.go Session")], ["bytes written to the connection", "Session.State"]),
P("C28", "Every request after a session is established carries its session id",
  "Once the server has returned a Session header, every PLAY, PAUSE, TEARDOWN and DESCRIBE request carries exactly the most recently returned identifier, without parameters such as timeout; before that no request carries one. Responses without a Session header keep the identifier.",
  ["histories"], "all placements, parameters and changes of the Session header over response histories", "session_test.go is empty.",
  [R+"session.go", R+"message.go"], [("Session header parsing", R+"session.go handleRtsp"), ("Request.Pack", R+"message.go")], [("session", "current identifier", R+"session.go Session")], ["bytes written to the connection"]),
P("C29", "Credentials appear only in authorization headers, when asked for",
  "For every URL with user and password, no request line or header other than Authorization ever contains the user name or the password, no Authorization is sent before the server has issued a challenge, and in answer to a Digest challenge the password is never sent in any form but the digest response. The host port defaults to 554 and the request URI is otherwise the URL given.",
  ["inputs", "histories"], "all URLs and all response histories", "session_test.go is empty.",
  [R+"connection.go", R+"session.go"], [("user info stripped from the base URI", R+"connection.go Dial"), ("authorize", R+"session.go")], None, ["bytes written to the connection"]),
P("C30", "Keep-alive is sent periodically for UDP sessions only, and only while active",
  "While a UDP session is past initialization and not done, a keep-alive OPTIONS carrying the session identifier is sent again and again, at most once per 2 seconds and with gaps of at most twice the read timeout plus that interval when the connection is idle, whatever responses and pauses occur. None is sent before ready, after done, or at any time for a session over interleaved TCP, and its answers change nothing else.",
  ["histories", "schedules"], "all timings of responses and idle periods in virtual time", "session_test.go is empty and a test would need real time.",
  [R+"session.go"], [("KeepAlive in the process loop", R+"session.go")], [("last", "time of last keep-alive", R+"session.go Session")], ["bytes written to the connection"]),
P("C31", "A hostile or broken peer cannot crash the session, and its end is reported",
  "Whatever bytes a server sends at any stage, and wherever the connection is closed or fails, the client does not panic, run away or deadlock. When the connection ends or is abandoned because of an unusable message before the session is done, the session reports the done stage exactly once and everything received before is still delivered. However the server answers the SETUP requests, once all are answered the session has reported either ready or done.",
  ["inputs", "fault_sequences"], "all server byte streams from a menu of malformed messages at every stage, and disconnection after every byte", "session_test.go is empty.",
  [R+"session.go", R+"message.go", R+"connection.go"], [("process loop error handling", R+"session.go")], None, ["Session.State", "Session.Data"]),
P("C32", "The command line client runs the session through to teardown",
  "Against any server that answers the requests, with media packets of any valid kind arriving at any moments between and around the answers, the program sends PLAY once ready, PAUSE about 5 seconds after playback is confirmed, TEARDOWN about 5 seconds after the pause is confirmed, and ends normally about 5 seconds after the teardown is confirmed.",
  ["schedules", "histories"], "all placements of media packets and answer delays relative to the program's timers", "cmd/ouro has no tests.",
  ["cmd/ouro/main.go"], [("handleStates event loop", "cmd/ouro/main.go")], [("state/tmr", "stage and timer", "cmd/ouro/main.go handleStates")], ["bytes written to the connection", "program end"]),
P("C33", "Opening an HTTP tunnel sends a proper GET and keeps the stream bytes",
  "Opening over HTTP sends one HTTP/1.0 GET for the URL without credentials, with a session cookie, the tunnelled content type and an empty line, and consumes exactly the header of an HTTP/1.0 reply, so that the first byte after its empty line is the first byte read from the connection. A reply of another version, with a malformed status or header, or cut short makes opening fail with an error; the companion POST differs only in method and by carrying a content length.",
  ["inputs", "fault_sequences"], "all replies, truncations and segmentations of them", "http.go has no tests.",
  [R+"http.go", R+"connection.go"], [("ConnectHTTP/ReceiveHTTP", R+"http.go"), ("Dial", R+"connection.go")], None, ["Dial", "ConnectHTTP", "Conn.Peek"]),
P("C34", "Each stream keeps its own transport and parameter sets",
  "Feeds created from a description correspond one to one, in order, to its video sections, with transports numbered by position. Confirming the transport of one feed updates only that feed: it takes over the server's transport parameters, loads exactly that section's out-of-band parameter sets and marks it set; a malformed transport value leaves it unset.",
  ["inputs", "histories"], "all descriptions and all orders and values of transport confirmations", "feed.go has no tests.",
  [R+"feed.go", R+"transport.go", "net/sdp/packet.go"], [("ParseFeeds/TransportSetup", R+"feed.go")], [("IsSet/Sets", "per feed state", R+"feed.go Feed")], ["ParseFeeds", "Feed.TransportSetup", "Feed.Sets"]),
P("C35", "Datagrams of a UDP session reach the application on their channel",
  "In every unicast UDP session, from the moment the server confirms the SETUP of stream i the client listens at the client ports offered for it (or at those the server names instead), and at no port of a refused stream. From ready on, every datagram of up to 2048 bytes that has arrived there is delivered exactly once with its exact payload, data on channel 2i and control on channel 2i+1, in order for each port, whatever the order of the SETUP answers, the other datagrams, pauses, commands and the pace of the application. Stopping the listeners always returns, closes every port, and nothing that arrives later is delivered.",
  ["inputs", "histories"], "all orders of answers, all sequences of datagrams, waits and commands", "connection.go has no tests; nothing runs a UDP listener.",
  [R+"connection.go", R+"session.go"], [("AddSink/Start/Stop", R+"connection.go"), ("handleSetup", R+"session.go")], [("sinks", "UDP listeners", R+"connection.go Conn")], ["Conn.Data", "UDP ports listening"]),
P("C36", "Sessions of one program do not affect each other",
  "For any two or more sessions of one program, with the same or different servers, and every interleaving of what happens in them, each session sends exactly the requests, with its own sequence numbers, session identifier, nonce counts and credentials, and reports exactly the stages and packets that it would alone, also when the other sessions are challenged, ended or broken. Nothing that happens in one session makes another one send or report anything.",
  ["schedules", "histories"], "all numbers of sessions, all interleavings of their commands, answers, packets and ends", "No test runs a session, let alone two; state shared between sessions by accident shows only when both are at certain points.",
  [R+"session.go", R+"connection.go"], [("Session state", R+"session.go Session"), ("Conn state", R+"connection.go Conn")], [("queue, auth, session", "per session state", R+"session.go Session")], ["wire", "Session.State", "Conn.Data"]),
P("C37", "What a call has returned stays as it is, and objects are independent",
  "Whatever else a program does with the packages before, between and after, an object gives the results it gives when it is used alone, and everything a call has returned (unescaped and split units, depacketized units, parameter sets and their lists, unpacked packets and responses with their bodies, descriptions, playlists, transports, authorizations, packed requests) keeps its content as long as the caller holds it, provided the caller's own buffers stay as they are; what the caller writes into it changes nothing else. No call modifies the bytes it is given.",
  ["histories"], "all mixtures and interleavings of uses of separate objects", "Every test uses one object of one kind once; results that share memory with later ones, and buffers shared between objects, show only when something else happens in between.",
  [H+"annexb.go", H+"packet.go", H+"spspps.go", H+"bits.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/sdp/packet.go", "net/hls/playlist.go", R+"message.go", R+"digest.go", R+"transport.go", R+"feed.go", R+"http.go", R+"connection.go"],
  [("results own their memory", H+"annexb.go EBSPToRaw"), ("one reader per connection", R+"connection.go Conn")], None, ["results of all exported functions"]),
P("C38", "Separate objects may be used from separate goroutines at once",
  "A program may work with separate objects of the packages (depacketizers, parameter set stores, readers, descriptions, playlists, digests, transports, requests, connections, sessions with different or the same server) from separate goroutines with no synchronization of its own: there is no data race, and in every interleaving each object gives the results and each session sends the requests and reports the stages that it would alone.",
  ["schedules"], "all interleavings of goroutines that use separate objects", "No test uses two goroutines; state shared behind the interface of a package shows only in certain interleavings.",
  [H+"annexb.go", H+"packet.go", H+"spspps.go", H+"bits.go", "net/rtp/packet.go", "net/rtcp/packet.go", "net/sdp/packet.go", "net/hls/playlist.go", R+"message.go", R+"digest.go", R+"transport.go", R+"session.go", R+"connection.go"],
  [("no variables of packages that change", R+"message.go")], None, ["results of all exported functions", "wire", "race detector"]),
P("C39", "The command line client reports every packet and unit of every stream",
  "For every valid media packet that arrives on any stream of a run, at whatever moment, the program prints exactly one line, in order of arrival, with channel, payload type, number of sources, marker and sequence number (RTP) or channel, type, length and count (RTCP), followed by one line for each NAL unit the packet completes in its own stream, with its zero bit, importance, type and size without emulation prevention; and it prints the stages Ready, Playing, Pausing, Closing and Done as the session passes through them.",
  ["inputs", "histories"], "all sequences of packets on any streams, at all moments of a run", "The program has no tests; what depends on the order of packets of several streams cannot be sampled.",
  ["cmd/ouro/main.go", H+"packet.go", "net/rtp/packet.go", "net/rtcp/packet.go"], [("handleStates", "cmd/ouro/main.go")], [("nalsinks", "fragments pending, per channel", "cmd/ouro/main.go handleStates")], ["standard output"]),
P("C40", "A session that cannot be opened says so, and unsent commands fail",
  "Opening a session returns an error when the URL cannot be parsed or has no valid port, the connection is refused, the HTTP tunnel is not established or the first request cannot be written. In all cases but the last, nothing is reported, no connection stays open and nothing keeps running, and the same session can be opened later as if nothing had happened. A command issued without a connection, or whose request cannot be written completely, returns an error without panicking or blocking and is not repeated; one that returns no error has been sent exactly once.",
  ["faults", "histories"], "all ways and moments of failing, all histories of attempts and commands", "No test opens a session; what is left behind by a failure shows only later.",
  [R+"session.go", R+"connection.go", R+"http.go"], [("Open/request", R+"session.go"), ("Dial/Write", R+"connection.go"), ("ReceiveHTTP", R+"http.go")], [("stage, cseq, Conn", "must not change when opening fails", R+"session.go Session")], ["Open", "commands", "connections", "wire"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(props))
