#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Chunk basic headers survive the wire",
 "Encoding a chunk basic header with any format 0-3 and any chunk stream id from 2 to 65599 and decoding the result gives back the same format and id. It occupies one byte for ids below 64, two bytes for 64-319 and three bytes above, and the decoder consumes exactly those bytes.",
 ["inputs"], "every format 0..3 and every chunk stream id 2..65599, and every byte string the decoder can be given",
 "The existing test tries three (format, id) pairs out of about 262,000, none of them at a boundary between two forms.",
 ["chunk/basic_header.go"], [("BasicHeader.Write", "chunk/basic_header.go"), ("BasicHeader.Read", "chunk/basic_header.go")],
 observe=["BasicHeader.Read", "BasicHeader.Write"])

prop("C02", "Chunk message headers survive the wire in all four formats",
 "Encoding a chunk header (basic header, message header and extended timestamp) of any format and decoding the result gives back every field that format carries, leaves the others zero, and consumes exactly the bytes written: 11, 7, 3 or 0 message header bytes, big-endian 24-bit timestamp and length, one type byte, little-endian message stream id. Four more bytes, a big-endian 32-bit extended timestamp, are present exactly when the transmitted timestamp field is 0xffffff.",
 ["inputs"], "every format, every 24-bit timestamp and length, every type id, message stream id and extended timestamp",
 "Each format is tested with one field assignment; the extended timestamp switch is tested only in isolation.",
 ["chunk/message_header.go", "chunk/header.go", "chunk/extended_timestamp.go"],
 [("MessageHeader.Read/Write", "chunk/message_header.go"), ("Header.Read/Write", "chunk/header.go"), ("ExtendedTimestamp.Read/Write", "chunk/extended_timestamp.go")],
 observe=["Header.Read", "Header.Write", "MessageHeader.Read", "MessageHeader.Write", "ExtendedTimestamp.Read"])

prop("C03", "A truncated header or control body is an error, never a value",
 "Whatever the bytes are, decoding a chunk header, control message body or handshake packet from a source that ends or fails before the encoding is complete returns an error, and decoding from one that holds the complete encoding succeeds. A source failure other than the end of the stream is handed back unchanged, and no decoder takes more bytes from its source than its encoding has (events, which run to the end of their message, excepted).",
 ["inputs", "fault_sequences"], "every byte string, every cut-off point and every position at which the source fails",
 "Tests cut input only at byte 0, for two of the decoders.",
 ["chunk/header.go", "chunk/basic_header.go", "chunk/message_header.go", "control/", "handshake/packet_ack.go", "spec/bytes.go"],
 [("spec.ReadBytes/ReadByte", "spec/bytes.go"), ("Header.Read", "chunk/header.go")],
 observe=["Header.Read", "Control.Read", "AckPacket.Read"])

prop("C04", "Decoding does not depend on how the transport splits the bytes",
 "Decoding chunk headers, chunk payloads, control bodies and handshake packets gives the same values, the same success or failure and the same number of consumed bytes however the source hands out its bytes: all at once, in arbitrary short reads, with reads that return no bytes and no error, or with the last bytes arriving together with the end of the stream.",
 ["inputs", "schedules"], "every segmentation of every byte string that an io.Reader may legally produce",
 "All tests read from in-memory buffers that return everything at once; TCP segmentation is never exercised.",
 ["spec/bytes.go", "chunk/", "control/", "handshake/version_sequence.go", "handshake/packet_ack.go"],
 [("spec.ReadByte/ReadBytes", "spec/bytes.go"), ("Builder.Read", "chunk/builder.go"), ("VerisonSequence.Read", "handshake/version_sequence.go")],
 observe=["Header.Read", "Builder.Read", "Sequence.Read", "Control.Read"])

prop("C05", "The writer splits messages exactly at the chunk size",
 "Writing a message sends its header, then its payload in pieces of at most the current write size, every piece but the last being exactly that size; between pieces stands exactly one format-3 basic header naming the same chunk stream, and nothing else is sent except, where the message's timestamp field announces one, a repeat of its extended timestamp. Changing the write size affects exactly the messages written after the change.",
 ["inputs", "histories"], "every header, every payload length and content, every write size of at least 1 and every change of it between messages",
 "Two tests write one fixed 8-byte payload with sizes 4 and 8 on chunk stream 18.",
 ["chunk/default_writer.go"], [("DefaultWriter.Write", "chunk/default_writer.go"), ("DefaultWriter.SetWriteSize", "chunk/default_writer.go")],
 observe=["Writer.Write", "Writer.SetWriteSize"])

prop("C06", "Each message reaches the transport as one unit, and failures surface",
 "Writing a message hands all of its bytes to the transport in a single write, so messages written by concurrent senders never interleave. The message and its payload are left unmodified, a transport failure or short write is returned as an error and nothing of that message is sent again, and a nil result means every byte was accepted.",
 ["inputs", "fault_sequences", "schedules"], "every message, every write size and every outcome of the transport's write",
 "No test looks at the calls the transport receives, and none makes it fail.",
 ["chunk/default_writer.go", "client/client.go"], [("DefaultWriter.Write buffers, then one io.Copy", "chunk/default_writer.go")],
 observe=["io.Writer calls made by Writer.Write"])

prop("C07", "What is written is what the peer reads",
 "Any sequence of messages (other than Set Chunk Size, which the reader keeps for itself) written by a chunk writer and read back by a chunk reader using the same chunk size is delivered as the same messages, in order, with identical payload bytes, type, message stream id, chunk stream id, timestamp and extended timestamp. This holds for every chunk stream id from 2 to 65599 and every payload length.",
 ["inputs", "histories"], "every sequence of messages, chunk stream ids, payload lengths and contents and chunk sizes (1 or more) on both sides",
 "Tests round-trip one message, on chunk stream 18 and 19 with an 8-byte payload.",
 ["chunk/default_writer.go", "chunk/default_reader.go", "chunk/builder.go", "chunk/basic_header.go"],
 [("DefaultWriter.Write", "chunk/default_writer.go"), ("DefaultReader.Recv", "chunk/default_reader.go")],
 observe=["Writer.Write", "Reader.Chunks"])

prop("C08", "Interleaved chunk streams are reassembled independently",
 "When the chunks of messages on different chunk streams arrive interleaved in any order, the reader delivers each message exactly once, when its last chunk has arrived, with its own header and exactly its own bytes in order. No chunk of one chunk stream affects a message being assembled on another.",
 ["inputs", "histories"], "every interleaving of the chunks of messages on several chunk streams, every length, content and chunk size",
 "One test with two messages, one fixed interleaving, and no header normalisation.",
 ["chunk/default_reader.go", "chunk/builder.go"], [("DefaultReader.Recv, builder map", "chunk/default_reader.go")],
 state=[("builders", "message under assembly per chunk stream", "chunk/default_reader.go")], observe=["Reader.Chunks"])

prop("C09", "Set Chunk Size governs the very next chunk",
 "A well-formed Set Chunk Size message from the peer (4 bytes, value at least 1) changes the maximum chunk payload for every chunk that follows it, on all chunk streams including messages already partly received, and for none before it. It is consumed by the reader and not delivered as a message; every other message type is delivered and leaves the chunk size alone.",
 ["inputs", "histories"], "every announced size, every position of the announcement in a history of interleaved messages",
 "No test sends a Set Chunk Size message through the reader.",
 ["chunk/default_reader.go"], [("DefaultReader.updateChunkSize", "chunk/default_reader.go")],
 state=[("readSize", "maximum payload of one incoming chunk", "chunk/default_reader.go")], observe=["Reader.ReadSize", "Reader.Chunks"])

prop("C10", "No byte stream from a peer can crash or confuse the chunk reader",
 "Whatever bytes a peer sends, the chunk reader never panics: each step ends in a delivered message, a reported error or further reading. Every delivered message carries exactly as many payload bytes as its header announces, no step takes more bytes from the peer than the chunk being read has, and bytes missing at the end of the stream yield an error and never a message.",
 ["inputs"], "every byte string sent by a peer and every initial chunk size of at least 1",
 "Tests only feed well-formed streams produced by the library's own writer.",
 ["chunk/default_reader.go", "chunk/builder.go", "chunk/header.go"],
 [("DefaultReader.Recv", "chunk/default_reader.go"), ("Builder.Read/Append", "chunk/builder.go")],
 observe=["Reader.Chunks", "Reader.Errs", "Builder.Read"])

prop("C11", "Compressed headers are completed from the right predecessor",
 "After normalisation a format 1 header carries the message stream id, a format 2 header the message stream id, length and type, and a format 3 header the entire message header of the preceding header on the same chunk stream; fields the header did transmit, and every format 0 header, are unchanged. This holds for every history of headers, however chunk streams interleave, and the format recorded in the message header stays the one that was received.",
 ["inputs", "histories"], "every finite history of headers of any format on any chunk streams",
 "Three tests normalise one header after one predecessor on the same chunk stream.",
 ["chunk/default_normalizer.go", "chunk/normalizer.go"], [("DefaultNormalizer.Normalize", "chunk/default_normalizer.go")],
 state=[("headers", "last complete header per chunk stream", "chunk/default_normalizer.go")], observe=["Normalizer.Normalize"])

prop("C12", "A builder yields exactly the bytes it was given",
 "A message builder's result is the concatenation, in order, of all parts successfully added, with the header it was created with, and its count of missing bytes is always the announced length minus the bytes added (plus explicit adjustments). A failed or short read adds nothing and leaves the count unchanged, adding more bytes than announced is reported as an error, and a built message does not change when its parts or the builder change later.",
 ["inputs", "histories", "fault_sequences"], "every sequence of additions, reads, failing reads and adjustments of any sizes",
 "Tests add one or two fixed slices; over-long additions and later mutation are never tried.",
 ["chunk/builder.go"], [("Builder.Append/Read/Build/BytesLeft/AddLeft", "chunk/builder.go")],
 state=[("left", "bytes still missing", "chunk/builder.go")], observe=["Builder.Build", "Builder.BytesLeft", "Builder.Append", "Builder.Read"])

prop("C13", "Every message reaches its own chunk stream, once and in order",
 "Every message the chunk reader delivers is forwarded exactly once, in arrival order, to the stream registered for its chunk stream id and to no other, and every reader error is forwarded to the error channel. Asking for one id always yields the same stream; asking for several yields a combined stream of exactly those ids, or an error and no new registration if any of them is already taken or none is given.",
 ["inputs", "histories", "schedules"], "every sequence of messages, errors and stream requests, and every schedule of the goroutines involved",
 "Tests use a mock reader that delivers one error and no message.",
 ["chunk/parser.go", "chunk/stream.go"], [("Parser.Recv", "chunk/parser.go"), ("Parser.Stream", "chunk/parser.go")],
 state=[("streams", "stream per chunk stream id", "chunk/parser.go")], observe=["Parser.Stream", "Stream.In", "Parser.Errs"])

prop("C14", "A combined stream loses, duplicates and reorders nothing",
 "A combined stream delivers every message of every stream appended to it exactly once, keeps the order of messages that came from the same source, and ends only after all sources have ended and all their messages have been delivered.",
 ["schedules", "histories"], "every schedule of the forwarding goroutines, for every number of sources and messages",
 "The test appends streams holding one message each and sees one schedule.",
 ["chunk/multi_stream.go"], [("MultiStream.Append/AwaitClose", "chunk/multi_stream.go")], observe=["MultiStream.In", "MultiStream.AwaitClose"])

prop("C15", "Closing a chunk parser or reader always completes",
 "Closing a running chunk parser returns, ends its receive loops and closes its error channel and every stream it has handed out (a combined stream once its pending messages are taken), whatever the reader is doing at that moment: idle, delivering a message nobody has taken yet, or reporting an error nobody has read. Nothing panics on the way.",
 ["schedules", "fault_sequences"], "every schedule of the parser, reader, consumer and closing goroutines and every state of the connection, provided the transport's read returns",
 "The only test closes a parser over a mock reader that does nothing.",
 ["chunk/parser.go", "chunk/default_reader.go"], [("Parser.Close/Recv", "chunk/parser.go"), ("DefaultReader.Close/Recv", "chunk/default_reader.go")],
 state=[("closer", "close request", "chunk/parser.go")], observe=["Parser.Close", "Parser.Errs", "Stream.In"])

prop("C16", "Control message bodies survive the wire",
 "Encoding any control message (set chunk size up to 0xffffff, abort, acknowledgement, window acknowledgement size, set peer bandwidth, user control event) and decoding the result gives back an equal message. The encoding is the RTMP one: 4 big-endian bytes, plus one limit type byte for peer bandwidth, or a 2-byte big-endian event type followed by the event data verbatim; a chunk size above 0xffffff is read and written as 0xffffff.",
 ["inputs"], "every field value of every control message, every event type and event data",
 "Decoding is tested with one random value per type; the encoding assertions exist in the test file but are never called.",
 ["control/"], [("Control.Read/Write", "control/")], observe=["Control.Read", "Control.Write", "SetChunkSize.ChunkSize"])

prop("C17", "Control messages map to chunks and back by type id",
 "Turning a control message into a chunk gives a format 0 header on chunk stream 2 and message stream 0 with the message's type id, a length equal to the payload's, timestamp 0, and the encoded body as payload; parsing that chunk gives back an equal, freshly allocated message, and none of the three shares memory with another or with another chunk. Type ids 1-6 are each decoded as their own message type, every other type id is rejected as unknown, and a body too short for its type is an error, never a panic.",
 ["inputs"], "every control message, every type id 0..255 and every payload",
 "Tests chunk one acknowledgement and parse two type ids.",
 ["control/default_chunker.go", "control/default_parser.go", "control/control.go"],
 [("DefaultChunker.Chunk", "control/default_chunker.go"), ("DefaultParser.Parse", "control/default_parser.go")], observe=["Chunker.Chunk", "Parser.Parse"])

prop("C18", "The control stream relays both directions and survives shutdown",
 "Every chunk arriving on a control stream becomes, in order, exactly one control message or one reported error, and every control message sent is written exactly once as its chunk or reported as an error; an error never stops the stream. Closing the stream, whose consumers keep reading, ends it and closes its channels, and the end of the underlying chunk stream never makes it panic or deliver anything.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of arriving chunks, outgoing messages, parse, chunking and write failures, close and end of input, and every schedule",
 "Tests push one item through mocks and never close the stream.",
 ["control/stream.go"], [("Stream.Recv", "control/stream.go")], observe=["Stream.In", "Stream.Out", "Stream.Errs", "Stream.Close"])

prop("C19", "A server handshake emits and consumes exactly the RTMP transcript",
 "Against a peer that sends version 3, any C1 and a C2 whose 1528-byte challenge equals the server's, the handshake succeeds after writing exactly S0 (version 3), S1 (its challenge) and S2 (C1's time and challenge echoed), 3073 bytes, each only after the peer's corresponding packet was read. It consumes exactly 3073 bytes, so the next byte read from the connection is the first byte of the chunk stream.",
 ["inputs"], "every C1, every random server challenge and every segmentation of the peer's bytes",
 "Each packet is tested on its own with one random value; the whole handshake is only run with mocks.",
 ["handshake/"], [("Handshaker.Handshake", "handshake/handshaker.go"), ("ClientAckSequence", "handshake/client_ack_sequence.go"), ("AckPacket.Read/Write", "handshake/packet_ack.go")],
 observe=["Handshaker.Handshake"])

prop("C20", "The handshake accepts no other version and no wrong challenge",
 "A first byte other than the supported version fails the handshake before anything is written, and a C2 whose challenge differs from the server's in any byte fails it with the mismatched-challenge error. A connection that ends early, at any byte, also fails it.",
 ["inputs", "fault_sequences"], "every version byte, every C2 that differs from S1, every point at which the connection ends",
 "One random wrong challenge, which differs in nearly every byte, and one wrong version are tested.",
 ["handshake/version_sequence.go", "handshake/server_ack_sequence.go"], [("ServerAckSequence.Read", "handshake/server_ack_sequence.go"), ("VerisonSequence.Read", "handshake/version_sequence.go")],
 observe=["Handshaker.Handshake", "Sequence.Read"])

prop("C21", "The handshake runs its steps in order and stops at the first failure",
 "For any chain of handshake steps, each step is read, then written, then asked for its successor, in chain order and once each; the first failing read or write ends the handshake with that very error and nothing further is read or written. The handshake succeeds exactly when the chain ends, and a failed transport write during the standard handshake is always reported.",
 ["fault_sequences", "histories"], "every chain of steps, every position and kind of failure",
 "Tests use chains of one or two steps with a failure only in the first.",
 ["handshake/handshaker.go"], [("Handshaker.Handshake", "handshake/handshaker.go")], observe=["Handshaker.Handshake"])

prop("C22", "Integer encodings are exact for every value and width",
 "For every value, the fixed-width integer writers emit exactly the 1, 2, 3 or 4 bytes of the value in the stated byte order (the 24-bit writer its low 24 bits), report the count and error of the underlying write, and the readers return the value those bytes denote. Inputs shorter than the width are read as if zero-extended at the high-order end, and reading never alters the input bytes.",
 ["inputs"], "every value of every width and every input length up to the width",
 "The package has no tests of its own.",
 ["spec/binary.go", "spec/math.go"], [("Uint16/32/64, Put*", "spec/binary.go"), ("Min/Max", "spec/math.go")], observe=["spec.Uint32", "spec.PutUint24"])

prop("C23", "Command, stream and media chunks are told apart unambiguously",
 "Every message is classified as a network connection command, a network stream command or media data by its chunk stream, message stream and type exactly as documented, and as at most one of them. A conjunction gate is open exactly when it has members and all are open, an alternative gate exactly when some member is open.",
 ["inputs"], "every chunk stream id, message stream id and type id, and every combination of gates",
 "Each gate is tested with one open and one closed case; the three predefined gates are not tested, and these tests cannot be built here.",
 ["cmd/gate.go"], [("NetConnGate, NetStreamGate, DataStreamGate", "cmd/gate.go"), ("UnionGate/AnyGate", "cmd/gate.go")], observe=["Gate.Open"])

prop("C24", "The dispatcher delivers to matching receivers and can be stopped",
 "Every message arriving at the dispatcher is handed once to each receiver whose gate is open for it and to no other, in arrival order. Closing the dispatcher ends its loop, and its managed receivers with it, and neither that nor the end of its input makes anything panic.",
 ["inputs", "schedules"], "every sequence of messages and every schedule of dispatcher, receivers and closer",
 "One message through stub gates; closing is never tested; these tests cannot be built here.",
 ["cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"], [("Manager.Dispatch", "cmd/manager.go")],
 observe=["Manager.Dispatch", "Manager.Close"])

prop("C25", "Audio and video messages pass through unchanged",
 "A received audio or video message parsed and marshalled again is the same message, with the same header and the same bytes; its control byte is its first byte and its payload the rest. An empty one is rejected with the missing-control error, type ids other than audio, video and data frame are rejected, and no message makes the parser panic.",
 ["inputs"], "every payload and every type id",
 "Fixed five-byte payloads; these tests cannot be built here.",
 ["cmd/data/data.go", "cmd/data/default_parser.go"], [("data.Read/Marshal", "cmd/data/data.go"), ("SimpleParser.Parse", "cmd/data/default_parser.go")], observe=["data.Parser.Parse", "Data.Marshal"])

prop("C26", "Audio and video tag bits are decoded as the FLV format defines them",
 "For every control byte, an audio message reports as codec the high four bits, as type mono or stereo by the lowest bit, as sample size 8 or 16 bits by bit 1 and as rate 5.5, 11, 22 or 44 kHz by bits 2-3. A video message reports as frame type the high and as codec the low four bits, and the exported codec and type constants have the FLV values.",
 ["inputs"], "every control byte",
 "Tests enumerate a few control bytes, and pin values that contradict the format.",
 ["cmd/data/audio.go", "cmd/data/video.go"], [("Audio.Codec/Rate/Size/Type", "cmd/data/audio.go"), ("Video.Codec/Type", "cmd/data/video.go")], observe=["Audio", "Video"])

prop("C27", "Command and status replies are framed correctly and independently",
 "Every outgoing command response, status and data frame becomes a format 0 chunk on its designated chunk and message stream with the right type id and a length equal to its payload's, whose payload is the marshalled body (for a status preceded by the onStatus header). A chunk produced for one message is never altered by producing another, and a marshalling failure is returned and yields no chunk.",
 ["inputs", "histories"], "every marshalled body and every sequence of messages, assuming only that the AMF0 encoder returns some bytes or an error",
 "One fixed message each; two are never produced in sequence; these tests cannot be built here.",
 ["cmd/conn/default_chunker.go", "cmd/stream/status.go", "cmd/data/data_frame.go"],
 [("DefaultChunker.Chunk", "cmd/conn/default_chunker.go"), ("Status.AsChunk", "cmd/stream/status.go"), ("DataFrame.Marshal", "cmd/data/data_frame.go")], observe=["Status.AsChunk", "Chunker.Chunk"])

prop("C28", "Shared chunk components are free of data races",
 "Reading and changing the chunk size of a reader or writer while it is running, using a normaliser or a builder, and requesting streams from a parser are safe from concurrent goroutines: no data race, no lost update, and each reader or writer step uses one size that was actually set.",
 ["schedules"], "every schedule of two or three goroutines calling the exported operations",
 "Every test is single-threaded in these operations and the race detector sees only the schedule that ran.",
 ["chunk/builder.go", "chunk/default_reader.go", "chunk/default_writer.go", "chunk/default_normalizer.go", "chunk/parser.go"],
 [("mutexes", "chunk/")], observe=["Builder", "Reader.SetReadSize", "Writer.SetWriteSize", "Normalizer.Normalize", "Parser.Stream"])

prop("C29", "Command, stream and data loops relay everything and survive shutdown",
 "Every chunk arriving at the network connection, network stream and data stream loops becomes exactly one parsed item or one reported error, in order, and every item sent is written exactly once or reported as an error; an error never stops the loop. Closing a loop whose consumers keep reading ends it, and the end of its chunk channel never makes it panic.",
 ["inputs", "schedules", "fault_sequences"], "every sequence of chunks, outgoing items, failures, close and end of input, assuming only that AMF0 decoding returns some value or an error",
 "One item through each loop with mocks; these tests cannot be built here.",
 ["cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go"], [("Listen/Recv loops", "cmd/")], observe=["In/Out/Errs channels"])

prop("C30", "A connected client is wired so every message has a consumer",
 "After a successful handshake a client's control messages (chunk stream 2) appear on its control stream and messages on chunk streams 3, 4, 5 and 8 reach its command dispatcher, in order per chunk stream; a failed handshake starts no receiving and returns the handshake's error.",
 ["inputs", "schedules"], "every sequence of messages following the handshake and every handshake outcome",
 "The test only constructs a client, and cannot be built here.",
 ["client/client.go"], [("client.New, Client.Handshake", "client/client.go")], observe=["Client.Controls", "Client.Net", "Client.Handshake"])

prop("C31", "AMF0 command bodies decode to the values the client sent",
 "Every NetConnection, NetStream and data-frame command body that is valid AMF0 decodes to a command holding the values the peer encoded, and encoding a response and decoding it gives the same values back.",
 ["inputs"], "every AMF0 value of the supported shapes",
 "A handful of fixed byte strings.",
 ["cmd/conn/default_parser.go", "cmd/stream/default_parser.go", "cmd/data/data_frame.go"], [("encoding.Unmarshal from github.com/WatchBeam/amf0", "external module")], observe=["conn.Parser.Parse", "stream.Parser.Parse"])

prop("C32", "The server hands out one client per accepted connection",
 "Every accepted connection yields exactly one client bound to that connection, in order, every accept failure is reported on the error channel and does not stop the server, and closing the server closes its listening socket.",
 ["schedules", "fault_sequences"], "every sequence of accepted connections and accept failures",
 "One connection over loopback; cannot be built here.",
 ["server/server.go"], [("Server.Accept", "server/server.go")], observe=["Server.Clients", "Server.Errs"])

prop("C33", "Connections do not interfere with one another",
 "Objects made for different connections (headers, readers, writers, builders, normalisers, parsers, control streams, handshakes, command parsers, dispatchers, clients) share no mutable state: what one connection receives, sends or reports does not depend on what another does before or at the same time, results already handed out never change, and using them from different goroutines is no data race.",
 ["inputs", "schedules", "histories"], "every pair of operations on objects made separately, in sequence or at the same time, with any data",
 "Every test works with one object at a time and drops its results at once.",
 ["chunk/", "control/", "handshake/", "spec/", "cmd/", "client/client.go"], [("package-level state", "all packages"), ("constructors", "all packages")],
 observe=["decoded headers and messages", "written bytes", "Client"])

prop("C34", "Command names select commands",
 "A command of a known name is parsed into a newly made object of that name's own type, decoded from the bytes that follow; a command of any other name, or whose body does not decode, is an error and yields nothing. Parsing one command never changes another, and a parser given its own names accepts exactly those.",
 ["inputs", "histories"], "every name and every sequence of commands, assuming only that AMF0 decoding returns some value or an error",
 "One or two names with one body each; these tests cannot be built here.",
 ["cmd/conn/default_parser.go", "cmd/stream/default_parser.go"], [("SimpleParser.Parse", "cmd/conn/default_parser.go"), ("SimpleParser.Parse", "cmd/stream/default_parser.go")],
 observe=["conn.DefaultParser.Parse", "stream.DefaultParser.Parse", "conn.NewParser", "stream.NewParser"])

prop("C35", "Encoding to a failing destination is an error",
 "Writing a chunk header (or one of its three parts), a message, a control message or a handshake packet to a destination that fails, after however many bytes, returns that very failure and writes nothing more; what the destination took by then is the beginning of the encoding. With room for the whole encoding it succeeds.",
 ["inputs", "fault_sequences"], "every value and every position of the failure",
 "No test writes a header or a control message to a destination that fails.",
 ["chunk/header.go", "chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/default_writer.go", "control/", "handshake/packet_ack.go"],
 [("Header.Write", "chunk/header.go"), ("Control.Write", "control/"), ("AckPacket.Write", "handshake/packet_ack.go")], observe=["the Write methods"])

prop("C36", "A delivered message belongs to its consumer",
 "Once the chunk reader has delivered a message, nothing that arrives later changes its header or payload, and nothing the consumer does to them (overwriting the header, changing the payload or appending to it) affects any message delivered before or after, or is a data race with the reader.",
 ["inputs", "histories", "schedules"], "every sequence of messages of every format on several chunk streams, everything a consumer can do to those it was given, at any time",
 "Tests look at a delivered message once, change nothing and receive at most two messages.",
 ["chunk/default_reader.go", "chunk/default_normalizer.go", "chunk/builder.go"], [("DefaultReader.deliver", "chunk/default_reader.go"), ("DefaultNormalizer.StoreHeader", "chunk/default_normalizer.go"), ("Builder.Build", "chunk/builder.go")],
 state=[("headers", "last header per chunk stream, from which later ones are completed", "chunk/default_normalizer.go")], observe=["Reader.Chunks"])

prop("C37", "Media relayed to another connection arrives as it was",
 "An audio or video message of any content, length, timestamp and message stream that one client delivers and that is handed to another client's data stream reaches that client's peer as the same message, once and in order, whatever responses, statuses and control messages are sent in between and however the message was split into chunks when it arrived. Outgoing messages are split at a chunk size the peer knows.",
 ["inputs", "histories", "schedules"], "every sequence of media messages, every relayed suffix of it, every other message sent meanwhile",
 "The client, command and data packages cannot be built here, and their tests handle one message in one package at a time.",
 ["client/client.go", "cmd/manager.go", "cmd/data/", "chunk/default_writer.go", "chunk/default_reader.go"], [("data.Stream.Recv", "cmd/data/stream.go"), ("data.Marshal", "cmd/data/data.go"), ("client.New", "client/client.go"), ("Manager.Dispatch", "cmd/manager.go")],
 observe=["DataStream.Out", "DataStream.In", "bytes written to the connection"])

prop("C38", "A client survives whatever its peer sends",
 "After the handshake no bytes from the peer make a client panic. A message on one of the chunk streams a client serves (2, 3, 4, 5 and 8) yields exactly one value or one error at the one consumer it is for, or nothing if it is for none, and however malformed it was, the messages behind it and all outgoing messages are served as before.",
 ["inputs", "histories"], "every sequence of messages of any type and body, and every byte string, assuming only that AMF0 decoding returns some value or an error",
 "The client cannot be built here; tests of the packages below it feed well-formed messages.",
 ["client/client.go", "chunk/parser.go", "cmd/manager.go", "cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "control/stream.go"],
 [("client.New, Handshake", "client/client.go"), ("Parser.Recv", "chunk/parser.go"), ("Manager.Dispatch", "cmd/manager.go"), ("control.Stream.Recv", "control/stream.go")],
 observe=["Client.Controls", "Client.Net"])

prop("C39", "What the application plugs in is what is used",
 "A component made of the caller's own parts uses exactly those, once per message and in order, and passes their results and errors on unchanged: a chunk reader its normalizer (given each header as received, its result taken as the header), a control stream its parser and chunker, a data stream the parser set before it runs, a media parser its factories, a handshake its first step and a version step the version it supports. Other components are not affected.",
 ["inputs", "histories"], "every sequence of messages and failures, every header, type and value the parts can return",
 "Tests plug in mocks that answer once with one value, or never fail.",
 ["chunk/default_reader.go", "chunk/normalizer.go", "control/stream.go", "cmd/data/stream.go", "cmd/data/default_parser.go", "handshake/handshaker.go"],
 [("DefaultReader.Recv", "chunk/default_reader.go"), ("control.Stream.Recv", "control/stream.go"), ("Stream.SetParser", "cmd/data/stream.go"), ("data.NewParser", "cmd/data/default_parser.go"), ("handshake.With", "handshake/handshaker.go")],
 observe=["chunk.NewReader", "control.NewStream", "data.Stream.SetParser", "data.NewParser", "handshake.With"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
