#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they stay valid JSON."""
import json, os
P = []
V4 = ["connack","connect","disconnect","ping","puback","pubcomp","publish","pubrec","pubrel","suback","subscribe","unsuback","unsubscribe"]
f4 = ["src/v4/%s.rs" % x for x in V4]
f5 = ["src/v5/%s.rs" % x for x in V4]

def add(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

READ = ("v4::read / v5::read", "src/v4/mod.rs, src/v5/mod.rs")
CHECK = ("check / parse_fixed_header / length", "src/lib.rs")
PRIM = ("bounds-checked readers read_u8/u16/u32/read_mqtt_bytes/read_mqtt_string", "src/lib.rs")
WPRIM = ("write_remaining_length / write_mqtt_bytes / len_len", "src/lib.rs")

add("C01", "No input makes the packet reader crash, abort or hang",
    "For every byte sequence, protocol version (3.1.1 or 5) and size limit, checking and reading a packet returns either a packet or an error: it never panics, aborts, overflows an integer or loops without end, whether or not overflow checks are compiled in. Formatting the resulting packet or error for a log is equally total.",
    ["inputs", "configurations"], "every byte string handed to the reader, every max_size, both versions, checked and unchecked builds",
    "The tests read about twenty hand-written valid packets; hostile input (a rogue peer) ranges over all byte strings.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"] + f4 + f5, [READ, CHECK, PRIM, ("Debug/Display impls", "src/lib.rs, src/v4/publish.rs, src/v5/subscribe.rs")],
    ["return or unwinding of v4::read, v5::read, check and of format!(\"{:?}\")", "thread CPU time of one call"])
add("C02", "Reading and writing packets is free of memory errors and data races",
    "No sequence of reads, writes, clones and drops of packets, including hostile input and packets shared between threads, commits a memory error or undefined behaviour: no out-of-bounds, use-after-free or uninitialised access and no data race.",
    ["inputs", "schedules"], "hostile and valid inputs, packets shared between threads",
    "Tests run without any sanitizer, on one thread each, and only see values, so silent memory errors pass.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"] + f4 + f5, [("safe Rust only; Bytes slices split off the frame", "src/lib.rs"), READ],
    ["AddressSanitizer reports", "Miri reports (uninitialised reads, provenance, races)"])
add("C03", "A read consumes exactly one frame, or nothing at all",
    "A read that fails because the frame is incomplete, over the size limit or has a malformed length field leaves the stream byte for byte untouched; every other read, successful or not, removes exactly the bytes of that one frame (fixed header plus declared remaining length). Bytes after the frame are neither consumed, changed nor looked at: the packet is the same whatever follows it, and the next read starts exactly at the next frame.",
    ["inputs", "histories"], "all streams: any frame (valid or malformed) followed by any bytes",
    "Unit tests look at one valid packet with at most one fixed tail and never at the stream after an error.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [CHECK, ("stream.split_to(frame_length)", "src/v4/mod.rs, src/v5/mod.rs")],
    ["contents of the caller's BytesMut before and after each read"],
    [("stream", "caller-owned receive buffer", "argument of read")])
add("C04", "'Need more bytes' is answered exactly when the frame is incomplete",
    "Checking or reading reports that more bytes are needed if and only if the stream holds less than one whole frame (with a so far well-formed length field within the size limit). The reported count is at least one, never more than what is really missing, and exactly what is missing once the length field is complete; a complete frame never gets this answer, however malformed its contents.",
    ["inputs"], "every prefix of every frame, every malformed complete frame",
    "Tests never feed a partial frame; the answer for malformed complete frames is never looked at.",
    ["src/lib.rs", "src/v5/mod.rs"] + f5, [CHECK, ("in-frame variable byte integers", "src/v5/mod.rs and property readers")],
    ["Error::InsufficientBytes(n) returned by check and read"])
add("C05", "Decoding does not depend on how the stream is cut into reads",
    "For every byte stream and every way of delivering it in pieces, a receiver that appends each piece and reads until more bytes are needed obtains the same sequence of packets and errors as one that gets the stream at once, within a bounded number of reads. Packets obtained earlier do not change while the stream buffer is appended to, read from or cleared.",
    ["histories", "inputs"], "all packet sequences, all fragmentations, interleaved with reads",
    "The stream tests (tests/smoke.rs) are commented out; unit tests decode single complete packets.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs", "tests/smoke.rs"], [CHECK, READ],
    ["recorded history of (piece appended, result of read, leftover stream)"])
add("C06", "The size limit is enforced exactly, and before the payload arrives",
    "A frame whose declared remaining length exceeds the caller's limit is refused with the size-limit error naming that length as soon as the length field has arrived, without waiting for, reserving memory for or consuming any of it. A frame whose remaining length is within the limit, including exactly at it, is never refused for its size.",
    ["inputs", "configurations"], "all declared lengths 0..268435455, all limits, all amounts of data already received",
    "No test exercises max_size at all.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [("fixed_header.remaining_len > max_packet_size", "src/lib.rs check")],
    ["Error::PayloadSizeLimitExceeded(n) from check and read", "stream contents and capacity"])
add("C07", "MQTT 3.1.1: every packet survives encoding and decoding",
    "For every MQTT 3.1.1 packet value that the protocol can represent, writing it and reading the bytes back yields an equal packet: every field, flag, packet id, code, list element and its order, string and payload byte survives. (Values the wire cannot distinguish count as equal: the packet id of a QoS 0 publish, a login with both parts empty and no login.)",
    ["inputs"], "all field values of all 14 packet types, all string and payload lengths",
    "Round trips are tested on a handful of fixed packets; seven of the thirteen v4 files have no test.",
    ["src/lib.rs", "src/v4/mod.rs"] + f4, [("X::write / X::read pairs", "src/v4/*.rs"), PRIM, WPRIM], ["value returned by v4::read on bytes produced by write"])
add("C08", "MQTT 5: every packet survives encoding and decoding",
    "For every MQTT 5 packet value that the protocol can represent, with any combination of properties, writing it and reading the bytes back yields an equal packet: every field, flag, reason code, property, list element and its order, string and payload byte survives. (Values the wire cannot distinguish count as equal: an empty property set and none, the packet id of a QoS 0 publish, a login with both parts empty and no login.)",
    ["inputs"], "all field values and all property subsets of all packet types",
    "Tests set all or none of the properties on a few fixed packets; the subsets, boundary sizes and reason codes are not reached.",
    ["src/lib.rs", "src/v5/mod.rs"] + f5, [("X::write / X::read pairs, XProperties::len/extract/write", "src/v5/*.rs"), PRIM, WPRIM], ["value returned by v5::read on bytes produced by write"])
add("C09", "MQTT 3.1.1: what is written is what the standard prescribes",
    "The bytes written for any representable MQTT 3.1.1 packet form exactly one well-formed control packet of the OASIS 3.1.1 standard (type and reserved flag bits, shortest remaining-length form, field order, length prefixes, connect flags consistent with the payload) that an independent strict decoder reads as the same values. In particular a password is never sent without a user name field.",
    ["inputs"], "all field values of all packet types",
    "Expected bytes are given for a few fixed packets; an error made in both writer and reader passes any self round trip.",
    ["src/lib.rs"] + f4, [("X::write", "src/v4/*.rs"), WPRIM], ["bytes appended by write"])
add("C10", "MQTT 5: what is written is what the standard prescribes",
    "The bytes written for any representable MQTT 5 packet form exactly one well-formed control packet of the OASIS 5.0 standard (type and reserved flag bits, shortest variable byte integers, property length and identifiers allowed for that packet, mandatory property-length field, field order, flags consistent with the payload) that an independent strict decoder reads as the same values.",
    ["inputs"], "all field values and property subsets of all packet types",
    "Expected bytes are given for a few fixed packets; an error made in both writer and reader passes any self round trip.",
    ["src/lib.rs", "src/v5/mod.rs"] + f5, [("X::write, XProperties::write", "src/v5/*.rs"), WPRIM], ["bytes appended by write"])
add("C11", "MQTT 3.1.1: every well-formed packet is accepted with its meaning",
    "Every well-formed MQTT 3.1.1 control packet, in any form a conforming peer may send it, is accepted and decoded to exactly the values it carries. (An empty user name or password counts as absent.)",
    ["inputs"], "all well-formed 3.1.1 packets produced by an independent encoder",
    "Only packets in this crate's own output form, and few of them, are tested.",
    ["src/lib.rs", "src/v4/mod.rs"] + f4, [READ, PRIM], ["value returned by v4::read"])
add("C12", "MQTT 5: every well-formed packet is accepted with its meaning",
    "Every well-formed MQTT 5 control packet of the types the crate supports, in any form a conforming peer may send it (properties in any order, reason code or property length omitted where the standard allows), is accepted and decoded to exactly the values it carries. (An empty user name or password counts as absent.)",
    ["inputs"], "all well-formed v5 packets (AUTH excepted), all property orders and abbreviated forms",
    "Only this crate's own output form is tested, and not even all of it.",
    ["src/lib.rs", "src/v5/mod.rs"] + f5, [READ, PRIM, ("property extraction loops", "src/v5/*.rs")], ["value returned by v5::read"])
add("C13", "MQTT 3.1.1: malformed packets are refused",
    "A complete MQTT 3.1.1 frame is answered with an error, never with a packet, if it has an unknown packet type, a field or string running past the frame end, a string that is not UTF-8, QoS 3, a wrong protocol name or level, will flags without a will, a zero packet id on a QoS>0 publish, an undefined return code, no subscriptions, no suback codes or a wrong unsuback size. An error about an invalid code names the offending value.",
    ["inputs"], "every valid packet under every corruption of these kinds",
    "No test feeds a malformed packet.",
    ["src/lib.rs", "src/v4/mod.rs"] + f4, [PRIM, ("qos(), connect_return(), TryFrom<u8>", "src/lib.rs, src/v4/*.rs")], ["Err returned by v4::read"])
add("C14", "MQTT 5: malformed packets are refused",
    "A complete MQTT 5 frame is answered with an error, never with a packet, if it has an unknown or unsupported packet type, a field, string or property running past its section, a string that is not UTF-8, QoS 3, a wrong protocol name or level, will flags without a will, a zero packet id on a QoS>0 publish, an undefined reason code, a property that is unknown or not allowed in that packet, retain handling 3, no suback or unsuback codes, or disconnect flag bits. An error about an invalid code names the offending value.",
    ["inputs"], "every valid packet under every corruption of these kinds",
    "No test feeds a malformed packet.",
    ["src/lib.rs", "src/v5/mod.rs"] + f5, [PRIM, ("property(), reason(), connect_return(), TryFrom<u8>", "src/v5/*.rs")], ["Err returned by v5::read"])
add("C15", "Codes on the wire and in the API correspond one to one",
    "For every packet that carries a return or reason code, and for QoS levels and packet types, each value the respective standard defines decodes to its own named constant and encodes back to the same byte, and every other byte value is refused with an error carrying that value.",
    ["inputs"], "all 256 byte values in every code position of every packet type of both versions (exhaustive)",
    "Tests use one or two codes per packet.",
    ["src/lib.rs", "src/v4/connack.rs", "src/v4/suback.rs", "src/v5/connack.rs", "src/v5/puback.rs", "src/v5/pubrec.rs", "src/v5/pubrel.rs", "src/v5/pubcomp.rs", "src/v5/suback.rs", "src/v5/unsuback.rs", "src/v5/disconnect.rs"],
    [("code tables: connect_return, reason, TryFrom<u8>, qos, FixedHeader::packet_type; discriminants", "src/lib.rs, src/v4, src/v5")], ["decoded constants, encoded bytes, error payloads"])
add("C16", "MQTT 5: properties end exactly where their declared length says",
    "When an MQTT 5 packet is read, its properties are exactly those inside the declared property length and everything after that length is decoded as the following fields or payload; any number of repeated properties (user properties, subscription identifiers) is kept. A packet in which a property runs across the declared end is refused.",
    ["inputs"], "all property sections with all declared lengths, in all packets and in the will",
    "Tests declare only correct lengths with at most one subscription identifier followed by other properties.",
    ["src/v5/mod.rs"] + f5, [("cursor < properties_len loops", "src/v5/*.rs extract/read")], ["decoded properties vs. decoded remainder of the packet"])
add("C17", "Text fields are exactly UTF-8, binary fields are arbitrary bytes",
    "Every string the reader returns, in any field of any packet of either version, is valid UTF-8 and byte for byte what was on the wire, and a packet with ill-formed UTF-8 in a string field is refused. Binary fields (payload, will message, correlation data, authentication data) are passed through unchanged whatever bytes they hold.",
    ["inputs"], "all string and binary fields of all packets, all byte contents",
    "Tests contain ASCII strings only.",
    ["src/lib.rs"] + f4 + f5, [("read_mqtt_string: String::from_utf8", "src/lib.rs")], ["String / Bytes fields of decoded packets"])
add("C18", "Writing only appends, and the returned length is the bytes written",
    "A successful write appends exactly one frame to the end of the buffer, leaves every byte already in the buffer unchanged whatever they are, and returns the number of bytes it appended. The public length of a packet equals the remaining length it writes, and what is written does not depend on what the buffer held before or on its capacity.",
    ["inputs", "histories"], "all packets written into buffers with all prior contents",
    "Encoding tests start from an empty buffer and ignore or hard-code the returned length.",
    ["src/lib.rs"] + f4 + f5, [("X::write returning Ok(1 + count + len)", "src/v4/*.rs, src/v5/*.rs"), ("connect flags patched in place at flags_index", "src/v4/connect.rs, src/v5/connect.rs")], ["buffer before and after write, returned length, X::len()"])
add("C19", "A packet that cannot be written is refused and leaves no trace",
    "Writing a packet the wire format cannot represent (a QoS>0 publish without packet id, a string or binary field over 65535 bytes, a subscription identifier or total length over 268435455) returns an error, and any write that returns an error leaves the output buffer exactly as it was, so that packets already queued and written later are unaffected.",
    ["inputs", "fault_sequences"], "all unrepresentable packets, with failing writes at any point in a sequence of writes",
    "No test makes a write fail or uses an oversized field.",
    ["src/lib.rs"] + f4 + f5, [("PacketIdZero / PayloadTooLong checks", "src/v4/publish.rs, src/v5/publish.rs, src/lib.rs"), ("length prefix `as u16`", "src/lib.rs write_mqtt_bytes")], ["result of write, buffer before and after"])
add("C20", "Whatever the reader accepts can be forwarded unchanged",
    "Every packet the reader returns, for any input bytes including unusual or lenient forms, can be written again, and reading those bytes yields an equal packet; encoding it a second time yields the same bytes.",
    ["inputs"], "all byte strings the reader accepts, including mutated packets",
    "Tests never re-encode a decoded packet.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"] + f4 + f5, [("X::read then X::write", "src/v4/*.rs, src/v5/*.rs")], ["read -> write -> read -> write chain"])
add("C21", "Topic matching follows the MQTT wildcard rules",
    "A topic name matches a valid filter exactly when, level by level, each filter level equals the topic level or is '+', with a final '#' standing for any number of remaining levels including none; empty levels count as levels and comparison is exact and case-sensitive. A topic beginning with '$' matches nothing, and matching never panics, for any text in any script.",
    ["inputs"], "all topics and all valid filters",
    "Tests sample about fifteen ASCII pairs.",
    ["src/topic.rs"], [("matches", "src/topic.rs")], ["result of matches(topic, filter)"])
add("C22", "Filter covering is sound, and generalising a filter keeps the match",
    "Used on two valid filters, matching answers yes only if every topic (not beginning with '$') matched by the first is also matched by the second. For a first filter not beginning with '$' it does answer yes when the second is the same, or is obtained from it by replacing any non-'#' levels by '+' or any tail of levels by '#'.",
    ["inputs"], "all pairs of valid filters, judged against all topics that can tell them apart",
    "Tests sample five pairs.",
    ["src/topic.rs"], [("matches (documented use on two wild subscriptions)", "src/topic.rs")], ["result of matches(filter, filter)"])
add("C23", "Topic and filter validation accepts exactly the valid ones",
    "A filter is valid exactly when it is not empty, '#' occurs only alone in the last level and '+' only alone in its level; a topic name is valid exactly when it contains neither wildcard; wildcard detection reports exactly the strings containing '+' or '#'. A valid topic used as a filter matches exactly itself (unless it begins with '$').",
    ["inputs"], "all strings, including empty levels, repeated separators and non-ASCII text",
    "Tests sample ten strings.",
    ["src/topic.rs"], [("valid_topic, valid_filter, has_wildcards", "src/topic.rs")], ["results of the three predicates"])
add("C24", "Decoding uses memory in proportion to the bytes received and leaks none",
    "The memory a read allocates, at peak and in total, is bounded by a constant factor of the bytes actually present in the frame, never by lengths or counts a peer merely declares, and an incomplete frame, or one refused for its size or its length field, makes the reader allocate nothing. After the packet and stream are dropped all of it is released; the same holds for writing, relative to the packet's size.",
    ["inputs"], "all frames, in particular small frames declaring huge lengths and large frames of minimal elements",
    "Tests do not observe allocation.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"] + f4 + f5, [("Vec::new + push loops; Vec::with_capacity(1) in unsubscribe", "src/v4, src/v5"), PRIM], ["a counting global allocator around each call"])
add("C25", "Encoding and decoding are silent, deterministic and independent of history",
    "The result of checking, reading, writing or matching depends only on its arguments: repeating a call, in any order among other calls or concurrently on other threads, gives the same result. No call prints to standard output or standard error.",
    ["histories", "schedules"], "all sequences and concurrent mixes of calls",
    "Each test makes one call in isolation and ignores output.",
    ["src/lib.rs", "src/topic.rs"] + f4 + f5, [("no global state in the crate", "src/")], ["results in different orders and threads; bytes arriving on fds 1 and 2"])
add("C26", "Constructors and setters build exactly the packet asked for",
    "Each constructor and setter yields a packet that holds exactly the given values, in order, and the documented defaults for everything else (no flags, no properties, unset packet id 0, keep alive 10, clean session, the module's protocol version), and a 3.1.1 subscription of no filters is refused. Adding a filter keeps those already present, and each setter changes only its own option.",
    ["inputs", "programs"], "all argument values and all sequences of builder calls",
    "Tests build a few packets with one or two arguments each.",
    ["src/v4/connect.rs", "src/v4/publish.rs", "src/v4/subscribe.rs", "src/v4/suback.rs", "src/v4/unsubscribe.rs", "src/v5/connect.rs", "src/v5/publish.rs", "src/v5/subscribe.rs", "src/v5/suback.rs", "src/v5/unsubscribe.rs", "src/v5/disconnect.rs"],
    [("new, from_bytes, new_many, add, set_*", "src/v4, src/v5")], ["fields of the built packet and the bytes it writes"])
add("C27", "Credentials are carried and compared exactly",
    "In both versions the user name and password a client sets in a CONNECT reach the broker unchanged and in their own fields, independent of whether a will is present, and absent ones are never confused with non-empty ones (an empty user name or password counts as absent). Validating a login succeeds exactly when both user name and password are equal to the expected ones.",
    ["inputs"], "all user name / password / will combinations, all near-miss credentials",
    "Login::validate has no test; connect tests use one fixed pair.",
    ["src/v4/connect.rs", "src/v5/connect.rs"], [("Login::read/write/validate, set_login, connect flag bits 6 and 7", "src/v4/connect.rs, src/v5/connect.rs")], ["login field after decoding; result of validate"])
add("C28", "The individual packet readers agree with the stream reader",
    "Taking a frame off the stream by checking it and passing it to the individual packet type's reader gives the same packet or error as the stream reader, and reading a property section on its own gives the same properties as reading it inside its packet and consumes exactly that section. The fixed header reported by checking has the packet type and frame length of the frame.",
    ["inputs", "programs"], "all frames of all packet types through both public ways of reading",
    "Most unit tests use only the individual readers and none compares the two.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs"] + f4 + f5, [("pub fn X::read, pub fn XProperties::extract, FixedHeader", "src/v4, src/v5, src/lib.rs")], ["results of both routes"])
add("C29", "Variable byte integers cover 0..268435455, shortest form, four bytes at most",
    "Every value from 0 to 268435455 is read correctly from its encoding wherever the protocol uses a variable byte integer (remaining length, property length, subscription identifier), and is written in the shortest form; in a length field a fourth continuation bit is refused as malformed and larger values are refused on writing.",
    ["inputs"], "all 2^28 values as remaining length, all as subscription identifier, all 1-4 byte forms",
    "Tests use lengths below 16384 only.",
    ["src/lib.rs", "src/v5/publish.rs", "src/v5/subscribe.rs"], [CHECK, WPRIM], ["FixedHeader::frame_length, decoded ids, encoded bytes"])
add("C30", "A MQTT 5 endpoint handles 3.1.1 CONNECTs correctly",
    "A 3.1.1 CONNECT read through the MQTT 5 module is reported as protocol 3.1.1 with exactly the values the 3.1.1 module reads from it, will and login included, and a CONNECT value with protocol 3.1.1 is written by the MQTT 5 module in the 3.1.1 format. Neither has or invents properties.",
    ["inputs"], "all 3.1.1 CONNECT packets through the v5 module, in both directions",
    "No test reads a level 4 CONNECT with the v5 module.",
    ["src/v5/connect.rs", "src/v4/connect.rs"], [("match protocol { V5 => properties, V4 => none }", "src/v5/connect.rs Connect::read/write, LastWill")], ["v5::read vs v4::read on the same bytes; bytes of v5 Connect::write"])
add("C31", "Every build of the crate behaves the same",
    "The outcome of checking, reading, writing, matching or validating, including the value's debug text, is the same in every build of the crate: with and without debug assertions, overflow checks and the cargo feature v5, for 32-bit and 64-bit and for little- and big-endian targets. Peers on different platforms therefore understand each other.",
    ["inputs"], "all calls with equal arguments, in all builds",
    "The tests run in one build only: debug, without features, on x86-64.",
    ["src/lib.rs", "src/topic.rs", "src/v4/mod.rs", "src/v5/mod.rs"], [READ, CHECK, PRIM, WPRIM], ["results and buffers after each call, in builds of different kinds"])
add("C32", "Packets compare and clone by their contents",
    "Two packets of a version, constructed or read, compare equal exactly when all their fields are equal (every flag, id, code, property, list element, string and payload byte), and a clone equals its original in every field. Codes, QoS levels, fixed headers and errors are equal exactly when their kinds and numbers are, and QoS levels are ordered by their strength.",
    ["inputs"], "all pairs of packets, codes and errors",
    "Tests compare equal packets only; none expects two packets to differ.",
    ["src/lib.rs", "src/v4/mod.rs", "src/v5/mod.rs", "src/v4/publish.rs", "src/v5/publish.rs"], [("derived PartialEq and Clone of every packet, property and code type", "src/v4, src/v5")], ["== and clone() of packets, codes and errors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
