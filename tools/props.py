#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json
ALLMSG = ["sse-bin/src/main/java/com/finproto/sse/bin/messages", "szse-bin/src/main/java/com/finproto/szse/bin/messages",
          "bjse-bin/src/main/java/com/finproto/bjse/trade/messages", "risk-bin/src/main/java/com/finproto/risk/bin/messages",
          "sample-bin/src/main/java/com/finproto/sample/messages"]
FRAMES = ["sse-bin/src/main/java/com/finproto/sse/bin/messages/SseBinary.java", "szse-bin/src/main/java/com/finproto/szse/bin/messages/SzseBinary.java",
          "risk-bin/src/main/java/com/finproto/risk/bin/messages/RcBinary.java", "sample-bin/src/main/java/com/finproto/sample/messages/RootPacket.java",
          "bjse-bin/src/main/java/com/finproto/bjse/trade/messages/BjseBinary.java"]
CODEC = "codec/src/main/java/com/finproto/codec/"
BM = "codec/src/main/java/com/finproto/bitmap/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every message survives an encode/decode round trip",
     "For every message type of the SSE, SZSE, BJSE, risk and sample protocols and every assignment of representable field values, decoding the bytes produced by encoding the message yields, in a fresh message of that type, the same field values. "
     "Decoding consumes exactly the bytes that encoding produced. "
     "Absent text or list values may come back as empty ones and vice versa, and text loses only padding on its padded side.",
     ["inputs", "programs"], "all message types x all field assignments (full numeric ranges, text of 0..width, lists of 0..65535, every selector of a dynamic part)",
     "Each message type has one test with one assignment (1, 2, 4, 8 and strings of '1' filling the width); signs, high bytes, short text, empty/long lists and most selectors are never exercised.",
     ALLMSG + [CODEC + "BinaryCodec.java"], [("encode/decode pair of each message class", "*/messages/*.java"), ("fixed/dynamic string and list encoding", CODEC + "BinaryCodec.java")],
     [("message fields", "bean properties of the message", "*/messages/*.java")], ["decode result vs. encoded message", "bytes consumed"])

prop("C02", "Encoded bytes follow the protocol's wire layout exactly",
     "The bytes of an encoded message are the concatenation of its fields in the protocol's order, each with the protocol's width, byte order, length prefix and padding, so that peers in other languages can read them. "
     "Conversely, bytes laid out that way by a peer decode to exactly the field values they carry.",
     ["inputs", "programs"], "all message types x all field assignments, in both directions (encode; decode of peer-made bytes)",
     "The tests only round-trip through the same code, so any symmetric change (byte order, width, field order, prefix size) passes; no test holds a reference byte string.",
     ALLMSG + [CODEC + "BinaryCodec.java"], [("write*/read* calls of each message class", "*/messages/*.java")],
     [], ["byte buffer after encode", "fields after decode of peer bytes"])

prop("C03", "The body-length header equals the actual body size",
     "In every encoded SSE, SZSE, risk and sample frame the body-length header equals the number of body bytes that follow the header, whatever length value the caller had stored in the message, whatever the body, and wherever in the buffer the frame starts. "
     "After encoding, the message object reports the same length.",
     ["inputs", "histories"], "all frame types x all bodies (including none) x stale length values x buffer positions x re-encodings",
     "Frame tests encode one body once into an empty buffer and compare the object with itself after the encoder updated it.",
     FRAMES[:4], [("length placeholder and back-patch", "encode of the frame classes")], [("length field", "computed by encode", "frame classes")], ["4-byte header in the buffer", "length getter after encode"])

prop("C04", "The frame trailer is the checksum of exactly that frame",
     "When the protocol's checksum service is registered, the trailer of every encoded SSE, SZSE and sample frame equals that service's checksum over exactly the frame's own header and body bytes, independent of anything else the buffer contains; the message object reports the same value afterwards. "
     "When no service is registered under the protocol's algorithm, the trailer carries the caller-supplied value unchanged; the SSE, SZSE and CRC services are registered by default.",
     ["inputs", "histories", "configurations"], "all frames x all prior buffer contents x all checksum-registry configurations and histories",
     "Tests set checksum 4 and compare the object with its own decode; none computes the expected checksum, none encodes two frames into one buffer, none changes the registry.",
     FRAMES[:2] + FRAMES[3:4] + [CODEC + "ChecksumServiceFactory.java", CODEC + "SseBinChecksumService.java", CODEC + "SzseBinChecksumService.java", CODEC + "Crc32ChecksumService.java"],
     [("checksum computation in encode", "SseBinary/SzseBinary/RootPacket.encode"), ("default registrations", CODEC + "ChecksumServiceFactory.java")],
     [("checksum registry", "algorithm name -> service", CODEC + "ChecksumServiceFactory.java")], ["trailer bytes", "checksum getter after encode"])

prop("C05", "Encoding only appends, and depends on nothing but the message",
     "Encoding a message appends bytes to the buffer without changing bytes already written, the read position, or any field of the message other than its computed length and checksum. "
     "The appended bytes depend only on the message's field values: they are the same for every buffer kind, capacity, byte position and prior content, and the same when the message is encoded again.",
     ["inputs", "histories", "configurations"], "all messages x buffer kinds (heap, direct, composite, wrapped, sliced) x prior contents and read positions x repetitions",
     "Every test encodes once into a new empty unpooled heap buffer.",
     ALLMSG + [CODEC + "BinaryCodec.java"], [("encode of each message class", "*/messages/*.java")], [("buffer", "bytes, reader and writer index", "caller")], ["buffer before/after", "message before/after"])

prop("C06", "Frames written back to back are read back one by one, in order",
     "A sequence of frames encoded one after another into the same buffer is decoded, frame by frame, into the same sequence of messages, each decode consuming exactly the bytes of its own frame. "
     "This holds for any mix of message types and bodies, any interleaving of encoding and decoding, and any compaction of already consumed bytes.",
     ["histories", "inputs"], "all sequences of frames of all types x all interleavings of encode, decode and buffer compaction",
     "No test puts more than one message into a buffer.",
     FRAMES, [("exact consumption by decode", "decode of the frame and body classes")], [("stream buffer", "unread bytes are a whole number of frames", "caller")], ["decoded sequence", "reader index after each decode"])

prop("C07", "Decoding depends only on the bytes, not on the target's history",
     "Decoding into a message that already holds values (from earlier decodes, encodes or setters) gives the same field values as decoding the same bytes into a new message. "
     "In particular nothing of an earlier message survives: absent lists, texts and bodies do not keep old contents.",
     ["histories", "inputs"], "all message types x all previous states of the target (any sequence of decodes and setters) x all inputs",
     "Every test decodes once into a freshly constructed message.",
     ALLMSG, [("field assignment in decode", "*/messages/*.java")], [("target message", "previous field values", "*/messages/*.java")], ["fields after decode into used vs. new message"])

prop("C08", "Messages are isolated from one another",
     "Decoding, encoding or modifying one message never changes another message: in particular every decode of a frame or of a message with a dynamic part produces its own body, so that later decodes or changes leave earlier decoded messages untouched. "
     "Bodies obtained from the type factories are fresh and start out empty.",
     ["histories", "inputs"], "all histories of decode, create, encode and setter calls over any number of live messages of any types",
     "Tests hold only one decoded message at a time, so a shared or cached instance is invisible.",
     FRAMES + ALLMSG, [("factory suppliers create a new instance per call", "MessageFactory.create"), ("instance fields only", "*/messages/*.java")], [("live messages", "values of every other message", "driver")], ["all live messages after each call"])

prop("C09", "Message types select the right body class, over every registration history",
     "For each frame protocol every assigned message-type id yields a body of its assigned class, from the factory and when a frame with that id is decoded, and every other id is rejected with an IllegalArgumentException. "
     "Registering, re-registering and removing ids changes exactly the addressed id: the latest registration wins, removal reports whether the id was present, and where a reverse lookup exists a class is only ever reported under an id that currently creates it.",
     ["inputs", "histories", "configurations"], "all ids of the five frame protocols (and unassigned ones) x all histories of register, remove, create and reverse lookup",
     "Tests use one id per frame type (of 14, 77, 11, 6 and 4), never an unknown id, never register or remove.",
     FRAMES, [("type table and factory", "BodyMessageFactory/PayloadMessageFactory"), ("reverse lookup", "SseBinary.BodyMessageFactory.getMsgType")], [("type map", "id -> class", "factories"), ("reverse map", "class -> id", "SseBinary")], ["class of created body", "exception", "remove result"])

prop("C10", "Application ids select the right extension, over every registration history",
     "In each SZSE and BJSE message with an application-specific extension every assigned application id selects its assigned extension class when the message is decoded, and any other id makes decoding fail with an IllegalArgumentException instead of guessing. "
     "Registering or removing an application id at run time affects exactly that id of exactly that message type.",
     ["inputs", "histories", "configurations"], "all 12 extensible message types x all assigned application ids (and unassigned, short or blank ones) x all registration histories",
     "Each test decodes one application id of up to 28; unknown ids and registration are never exercised.",
     ["szse-bin/src/main/java/com/finproto/szse/bin/messages/NewOrder.java", "szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionReport.java", "szse-bin/src/main/java/com/finproto/szse/bin/messages/ExecutionConfirm.java",
      "bjse-bin/src/main/java/com/finproto/bjse/trade/messages/NewOrder.java", "bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureReport.java", "bjse-bin/src/main/java/com/finproto/bjse/trade/messages/TradeCaptureCofirm.java"],
     [("extension factory", "ApplExtendMessageFactory / createApplExtend")], [("extension map", "application id -> extension class", "factories")], ["class of decoded extension", "exception"])

prop("C11", "Fixed-width text always fills exactly its width",
     "A fixed-width text field always occupies exactly its width in bytes, for any value including null, empty, non-ASCII and over-long ones: the UTF-8 text, cut after the last whole character that fits, with the field's pad character filling the field's padding side. "
     "Reading such a field consumes exactly the width and removes exactly the run of pad characters on the padding side, nothing else.",
     ["inputs", "configurations"], "all strings x all widths x pad characters x padding sides",
     "Tests cover five ASCII values padded with spaces on the right; left padding is only ever exercised with a value that fills the field.",
     [CODEC + "BinaryCodec.java", "sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java"], [("writeFixedString/readFixedString/trimByChar", CODEC + "BinaryCodec.java")], [], ["bytes written", "text read", "bytes consumed"])

prop("C12", "Incomplete or unknown input is rejected, never half-accepted",
     "Decoding a frame or message from any strict prefix of its encoding fails with an exception, at whatever byte the input was cut, instead of returning with missing or invented values. "
     "Decoding never reads past the readable bytes of the buffer, and a frame whose type or application id is not known is rejected.",
     ["inputs", "fault_sequences", "crash_points"], "all message types x all cut positions x trailing garbage beyond the write position x unknown selectors",
     "No test decodes short or foreign input.",
     FRAMES + ALLMSG + [CODEC + "BinaryCodec.java"], [("bounds-checked reads", "decode of each message class"), ("unknown selector check", "MessageFactory.create")], [], ["exception or normal return", "reader index <= writer index"])

prop("C13", "Equality is by value over every field, and hashing agrees with it",
     "Two messages are equal exactly when they are of the same type and agree on every field, recursively through nested messages, lists and dynamic parts; equality is reflexive and symmetric and never holds with null or another type. "
     "Equal messages have equal hash codes, and hashing any message terminates normally.",
     ["inputs"], "all message types x all single-field differences x all field values, including empty messages and frames containing them",
     "Tests only ever assert that two equal messages are equal; a field missing from equals, or a hash that disagrees or does not terminate, goes unseen.",
     ALLMSG, [("equals/hashCode of each message class", "*/messages/*.java")], [], ["equals", "hashCode"])

prop("C14", "Checksums are the published algorithms over the readable bytes",
     "For every byte string the four services compute CRC-16/MODBUS, CRC-32/ISO-HDLC and (SSE, SZSE) the sum of the unsigned bytes modulo 256, over exactly the buffer's readable bytes. "
     "Computing or verifying a checksum leaves the buffer's contents and positions unchanged, gives the same answer every time and on every buffer kind, and verification accepts exactly the computed value.",
     ["inputs", "configurations"], "all byte strings x buffer kinds x read positions",
     "Two of four algorithms are tested, on the single input \"123456789\" at position 0; verification, offsets, high bytes and the sum checksums are untested.",
     [CODEC + x for x in ("Crc16ChecksumService.java", "Crc32ChecksumService.java", "SseBinChecksumService.java", "SzseBinChecksumService.java", "ChecksumService.java")],
     [("table-driven CRC and byte sums", CODEC)], [], ["calc", "verify", "buffer positions"])

prop("C15", "The checksum registry behaves as a first-registration-wins map",
     "Registering a checksum service succeeds exactly when no service of the same algorithm name is registered, and otherwise leaves the existing one in place; lookup returns the registered service or nothing. "
     "Removing a name frees exactly that name and clearing frees all, so that the next registration succeeds again; the outcome of each call depends only on this history.",
     ["histories", "configurations"], "all histories of register, remove, clear, look up and frame encoding over all algorithm names",
     "The registry has no test.",
     [CODEC + "ChecksumServiceFactory.java", CODEC + "ChecksumAlgorithms.java"], [("name -> service map", CODEC + "ChecksumServiceFactory.java")], [("registry", "algorithm name -> service", CODEC + "ChecksumServiceFactory.java")], ["register result", "lookup result"])

prop("C16", "A presence bitmap is a set of positions",
     "After any sequence of set and clear calls on a bitmap of any size, a position reads as present exactly when its latest call was set; clearing removes exactly the addressed position. "
     "The four bitmap sizes hold 8, 16, 32 and 64 positions.",
     ["histories", "inputs"], "all histories of set/clear/get over all positions of the 8-, 16-, 32- and 64-position bitmaps",
     "Only the 8-position bitmap is tested, with a few positions; the other three have no test.",
     [BM + x for x in ("ByteBitMap.java", "ShortBitMap.java", "IntBitMap.java", "LongBitMap.java")], [("bit arithmetic", BM)], [("bits", "set of present positions", BM)], ["get for all positions after every call"])

prop("C17", "A presence bitmap survives the wire",
     "Reading the bytes written for a bitmap, into a new or used bitmap of the same size, restores exactly the set of present positions and consumes exactly the bytes written. "
     "Writing does not change the bitmap and only appends to the buffer; reading leaves the buffer's bytes alone.",
     ["inputs", "histories"], "all sets of positions of all four sizes x previous states of the target x consecutive bitmaps in one buffer",
     "Only the 8-position bitmap's wire form is tested.",
     [BM + x for x in ("ByteBitMap.java", "ShortBitMap.java", "IntBitMap.java", "LongBitMap.java")], [("write/read", BM)], [("bits", "set of present positions", BM)], ["positions after read", "bytes consumed"])

prop("C18", "Lists and variable-length text keep every element, in order",
     "A list field or variable-length text field is carried as a count or byte-length prefix followed by exactly that many elements or bytes, so that every list of up to 65535 elements and every text its prefix can express comes back complete and in order: no element dropped, duplicated or merged, including empty texts inside lists and non-ASCII text. "
     "A zero count is carried for a null or empty value and nothing follows it.",
     ["inputs"], "all list and variable-text fields x sizes 0..65535 (including 127/128, 255/256, 32767/32768) x contents",
     "List tests use one element, dynamic strings one short ASCII value.",
     ["sample-bin/src/main/java/com/finproto/sample/messages/BasicPacket.java", "sample-bin/src/main/java/com/finproto/sample/messages/StringPacket.java", "sample-bin/src/main/java/com/finproto/sample/messages/NestedPacket.java",
      "sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptInfo.java", "sse-bin/src/main/java/com/finproto/sse/bin/messages/ExecRptSync.java", "szse-bin/src/main/java/com/finproto/szse/bin/messages/ReportSynchronization.java",
      "bjse-bin/src/main/java/com/finproto/bjse/trade/messages/PlatformInfo.java", "risk-bin/src/main/java/com/finproto/risk/bin/messages/NewOrder.java"],
     [("size prefix and element loop", "encode/decode of list fields"), ("length prefix", "encode/decode of dynamic strings")], [], ["elements after decode", "bytes"])

prop("C19", "Every field can be set and read independently",
     "A value stored in a field of any message is what reading that field returns, and storing it changes no other field of the message. "
     "A new message starts with zero numbers and absent texts, lists and nested messages.",
     ["histories", "inputs", "programs"], "all fields of all message types x all orders of stores x all values",
     "Round-trip tests assign the same number to many fields, so crossed or ignored setters can cancel out.",
     ALLMSG, [("accessors", "*/messages/*.java")], [("message fields", "bean properties", "*/messages/*.java")], ["all getters after each setter"])

prop("C20", "Concurrent use of separate messages behaves as if each thread were alone",
     "Threads that encode, decode, checksum and create messages of their own, into buffers of their own, obtain exactly the results they would obtain running alone, under every interleaving. "
     "Sharing the library's factories and checksum services between threads never mixes one thread's data into another's.",
     ["schedules"], "all interleavings, at buffer-access granularity, of threads working on separate messages and buffers",
     "All tests are single-threaded.",
     [CODEC + x for x in ("BinaryCodec.java", "ChecksumServiceFactory.java", "Crc16ChecksumService.java", "Crc32ChecksumService.java", "SseBinChecksumService.java", "SzseBinChecksumService.java")] + FRAMES,
     [("no shared mutable state in codecs and services", CODEC), ("a new body per create call", "MessageFactory.create")], [("per-thread buffer and message", "results of each thread", "driver")], ["bytes and messages per thread"],
     "none in /repo: the driver passes buffer objects that pause at each access")

prop("C21", "The printed form of a message shows every field's current value",
     "The string form of every message names the message type and every field, in order, with the field's current value, including nested messages and lists. "
     "Printing never fails and never changes the message.",
     ["inputs", "programs"], "all message types x all field values including null text, lists and bodies",
     "No test looks at the printed form, although it is what goes into the logs.",
     ALLMSG, [("toString", "*/messages/*.java")], [], ["toString"])

prop("C22", "Relaying preserves the bytes",
     "Decoding a well-formed frame or message made by a compliant peer and encoding the result again reproduces the peer's bytes exactly, including length header, padding and checksum. "
     "This holds through any number of hops.",
     ["inputs", "histories"], "all message types x all canonical byte strings x any number of decode/encode hops",
     "No test starts from bytes; all start from an object and compare objects.",
     FRAMES + ALLMSG, [("decode followed by encode", "*/messages/*.java")], [], ["bytes after re-encoding"])

prop("C23", "Encoding and decoding never take over or give up the caller's buffer",
     "Encoding, decoding and checksum calls leave the buffer's reference count unchanged, whether they succeed or fail, so the caller still owns it, can go on using it and can release it exactly once; nor do they leave other buffers of its allocator unreleased. "
     "Decoding and checksum calls never modify the buffer's contents, so read-only buffers work.",
     ["inputs", "histories", "fault_sequences"], "all operations x buffer kinds (pooled, direct, composite, slice, read-only) x success and every failure point",
     "Tests never look at reference counts and use unpooled heap buffers, where leaks and double releases are invisible.",
     FRAMES + ALLMSG + [CODEC + "BinaryCodec.java"], [("no retain/release in the codec", "encode/decode/calc")], [("reference count", "owners of the buffer", "caller")], ["refCnt", "buffer contents"])

prop("C24", "A decoded message no longer depends on the buffer, nor a buffer on the message",
     "After decoding, overwriting, clearing or releasing the buffer leaves the decoded message unchanged; after encoding, changing this message, or encoding any message elsewhere, leaves the bytes already produced unchanged.",
     ["histories", "inputs"], "all message types x all later changes to the buffer or to the message",
     "Tests never touch the buffer after decoding nor the message after encoding.",
     ALLMSG + [CODEC + "BinaryCodec.java"], [("values are copied out of the buffer", "decode"), ("values are copied into the buffer", "encode")], [("buffer contents", "bytes after the call", "caller")], ["message fields after buffer reuse", "buffer bytes after message change"])

prop("C25", "Whatever bytes arrive, decoding follows the layout or rejects them, cheaply",
     "For any byte string whatever, however malformed (wrong counts and lengths, invalid UTF-8, frames that start elsewhere), decoding either yields exactly the fields the layout assigns to those bytes, consuming exactly theirs, or throws an exception; it never terminates with an Error, never reads outside the readable bytes, never changes them, and needs memory in proportion to the input, not to a count or length claimed inside it.",
     ["inputs", "faults"], "all message types x all byte strings, among them every one-byte change of an encoding and every hostile count or length",
     "Tests only decode what encode produced.",
     ALLMSG + FRAMES + [CODEC + "BinaryCodec.java"], [("bounds are those of the buffer", "decode, readFixedString")], [("buffer contents", "input bytes", "the peer, or anyone")], ["outcome of decode", "read position", "memory allocated"])

prop("C26", "A call that fails has no effect on later calls",
     "An encode that fails (no room left in the buffer, a required part missing) leaves the fields given to the message and the bytes already in the buffer as they were; a decode that fails (bytes missing, unknown selector) changes at most the fields of the message decoded into. All other messages, buffers and reference counts stay as they were, and the same messages and types then encode and decode as if the failed call had never been made.",
     ["histories", "faults"], "all message types x all places where a call can fail x all later calls",
     "Tests have no failing call followed by anything.",
     ALLMSG + FRAMES, [("no state survives a call", "encode/decode"), ("fields are written only by setters and decode", "encode")], [("outcome", "success or exception", "any call")], ["bytes and fields after a failed call", "refCnt"])

prop("C27", "A read that came too early can be repeated",
     "A message can be read while it is still arriving: as long as some of its bytes are missing, every attempt to decode it fails and changes neither the received bytes nor the position the caller marked in the buffer; once the rest has arrived, an attempt from the marked position yields exactly the message that was sent. So messages that arrive in pieces of any size are read one by one, in order, whatever else lies in the buffer before or behind them.",
     ["histories", "schedules", "faults"], "all message types x all ways in which their bytes can arrive in pieces x all attempts in between",
     "Tests decode complete messages, once, from a buffer that holds nothing else.",
     ALLMSG + FRAMES + [CODEC + "BinaryCodec.java"], [("fails when bytes are missing", "decode"), ("no state survives a failed decode", "decode"), ("the caller's mark is left alone", "decode, calc")], [("buffer contents", "bytes received so far", "the network")], ["outcome of each attempt", "marked position", "messages read"])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
