#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

HOOK = "cfg(quic_sea_verif): src/verif.rs re-exports the internals, <module>/verif.rs give read/construct access to private fields"

prop("C01", "Decoding hostile datagrams never panics, overflows or hangs",
 "For every byte string and every connection state, parsing a header, a packet, a whole datagram or a frame payload ends by returning decoded values or an error. It never panics, never hits an arithmetic overflow or out-of-range access, and the number of input bytes it examines is at most proportional to the length of the input.",
 ["inputs", "configurations"],
 "every byte string up to the maximum UDP payload (65,527 bytes), including packets that are correctly sealed by the peer but carry hostile contents, against server and client connections with every combination of installed keys",
 "The tests decode two well-formed RFC samples; no test feeds malformed, truncated or adversarial input, and a remote peer chooses this input.",
 ["src/packet.rs", "src/frame.rs", "src/utils.rs", "src/quictls/cipher_suite.rs", "src/connection.rs"],
 [("every read from the byte stream is checked and errors are propagated with ?", "src/utils.rs: FromDatagram impls, var_int_from_stream, var_bytes_from_stream"),
  ("packet length is checked before the payload is split off", "src/packet.rs: PacketInitial/PacketZeroRtt/PacketHandshake::from_stream"),
  ("tag length is checked before the tag is split off", "src/quictls/cipher_suite.rs: internal_decrypt_aes_128_gcm")],
 observe=["decode_packets", "next_header_from_stream", "deserialize_frames", "calls to next() on the byte source"], hook=HOOK)

prop("C02", "Memory spent on decoding is bounded by the bytes actually received",
 "For every byte string, the total memory allocated while decoding it as a datagram, a header or a frame payload is at most a fixed constant plus a fixed multiple of its length. Lengths and counts declared inside the input (token, packet, stream, crypto data, reason phrase, ack range count, connection id) never cause an allocation that the received bytes do not back.",
 ["inputs"],
 "every byte string, in particular ones whose declared lengths/counts are up to 2^62-1 with few or no bytes following",
 "No test measures allocation; the code only says so in comments ('dynamic to avoid malicious allocation'). A single with_capacity(declared_length) passes all tests.",
 ["src/utils.rs", "src/frame.rs", "src/packet.rs"],
 [("byte vectors grow only as bytes are read", "src/utils.rs: var_bytes_from_stream"), ("ack ranges are pushed one at a time", "src/frame.rs: FrameAck::from_datagram")],
 observe=["global allocator (bytes requested, peak, largest request) during one decode call"], hook=HOOK)

prop("C03", "Frame payloads decode exactly as the RFC 9000 wire format prescribes",
 "For every byte string, frame decoding either yields exactly the sequence of frames (types, field values, flags, data, order, every byte accounted for) that RFC 9000 section 19 assigns to it, or an error when the string is not a sequence of well-formed frames. In particular unknown frame types, truncated fields and connection ids outside 1..20 bytes are refused, and offset/length/fin flags of stream frames and offsets of crypto frames are honoured.",
 ["inputs"],
 "every payload byte string; all 31 frame type values, all varint widths (minimal or not), all flag combinations, data lengths from 0 up to a full datagram",
 "The only frame decoding in the tests is one CRYPTO frame with offset 0; none of the other 19 frame kinds is ever decoded.",
 ["src/frame.rs", "src/utils.rs"],
 [("type dispatch", "src/frame.rs: deserialize_frame, deserialize_frames"), ("per-frame parsers", "src/frame.rs: *::from_datagram"), ("varint reader", "src/utils.rs: var_int_from_stream")],
 observe=["result of decoding compared field by field with an independent RFC parser"], hook=HOOK)

prop("C04", "Frame encoding is canonical and is inverted exactly by decoding",
 "Every list of frames that can be encoded is encoded to exactly the RFC 9000 byte sequence for those frames (minimal integers, stream length omitted only for the last frame when the caller says it ends the datagram), and decoding those bytes gives back the same frames in the same order. A field value that the wire format cannot represent makes encoding fail; it is never silently altered.",
 ["inputs"],
 "every list of frames with arbitrary field values (including values above 2^62-1) and data, with and without the end-of-datagram flag",
 "One test encodes one hand-picked value per frame kind, always with the end-of-datagram flag off, offset 0 and single-digit values, and never decodes the result.",
 ["src/frame.rs", "src/utils.rs"],
 [("per-frame to_bytes", "src/frame.rs"), ("serialize_frames", "src/frame.rs"), ("encode_var_int", "src/utils.rs")],
 observe=["encoded bytes vs independent encoder; decode(encode(x)) == x"], hook=HOOK)

prop("C05", "Variable-length integers encode minimally and decode to the same value",
 "Every value up to 2^62-1 encodes to the shortest RFC 9000 form and every larger value is refused; every decoder returns the encoded value, consumes exactly the bytes of the encoding (1, 2, 4 or 8, as its first byte says, minimal or not) and refuses truncated input. All of the library's decoders agree with each other on every input.",
 ["inputs"],
 "all 64-bit values and all byte strings of up to 8+ bytes",
 "One test encodes 0 and 2000; no decoder is tested.",
 ["src/utils.rs"],
 [("encode_var_int", "src/utils.rs"), ("decode_var_int / var_int_from_stream / var_int_with_bytes_from_stream", "src/utils.rs")],
 observe=["return values and number of bytes consumed"], hook=HOOK)

prop("C06", "Packet headers are parsed exactly, for every version and id length",
 "For every byte string, header parsing yields exactly the form, packet type, version, destination and source connection ids (bytes and lengths) that the bytes carry and consumes exactly the header, or an error when the header is truncated or (outside version negotiation) an id is longer than 20 bytes. Version negotiation packets are recognised by version 0 whatever the other first-byte bits, keep ids of up to 255 bytes intact, and yield exactly the listed versions. Re-encoding a parsed header (other than version negotiation) gives back the bytes it was parsed from.",
 ["inputs"],
 "every byte string; all 256 first bytes, all id length pairs 0..255, arbitrary versions, every truncation point",
 "Header parsing is only exercised on the single RFC 9001 sample (8-byte destination id, empty source id, version 1); test_long_packet_header is empty.",
 ["src/packet.rs", "src/utils.rs"],
 [("next_header_from_stream", "src/packet.rs"), ("LongPacketHeader::from_stream / packet_type / to_bytes", "src/packet.rs"), ("ShortPacketHeader::from_stream / to_bytes", "src/packet.rs"), ("PacketVersionNegotiation::from_stream", "src/packet.rs")],
 observe=["parsed header vs independent RFC 8999/9000 parser; bytes consumed"], hook=HOOK)

prop("C07", "Packets sealed by a conforming peer are decoded to exactly what was sent",
 "Whenever an RFC 9001 peer that holds the matching keys seals an Initial, 0-RTT, Handshake or 1-RTT packet, decoding it yields a packet of that type with the same connection ids, token, full packet number and frames. This holds for every packet number length (1 to 4 bytes), connection id length, token, payload size and non-minimal length encoding, and whether the receiver is the client or the server.",
 ["inputs", "configurations"],
 "all packet types x packet number lengths 1..4 x id lengths 0..20 x tokens x payload sizes x receiver roles x keys x receiver packet-number state",
 "Only the RFC 9001 A.2 client Initial (4-byte packet number, server role, no token) is decoded in tests.",
 ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs", "src/quictls/cipher_suite.rs"],
 [("header protection removal and payload split", "src/packet.rs: Packet*::from_stream"), ("packet number reconstruction", "src/connection.rs: reconstruct_remote_pn"), ("AEAD open", "src/quictls")],
 observe=["decoded packet vs the packet the reference peer (ring-based) sealed"], hook=HOOK)

prop("C08", "Packets built by the library are valid RFC 9001 packets for any peer",
 "Every Initial or Handshake packet that the library serializes can be opened by an independent RFC 9001 implementation holding the peer's keys and carries exactly the connection's version and ids, the token, the allotted packet number and the given frames, with a correct length field and packet-number length bits and a clean first byte. The peer endpoint of the library itself decodes it to the same contents; a packet it cannot protect is refused with an error instead of being emitted.",
 ["inputs", "histories"],
 "all frame lists, tokens, id lengths 0..20, roles, acknowledged-packet states (hence packet number lengths 1..4) and packet positions in the connection's history",
 "One test serializes a single hand-built packet with a 4-byte packet number and an empty token; Handshake serialization and packet construction from a connection are never run.",
 ["src/packet.rs", "src/connection.rs", "src/quictls/secrets.rs"],
 [("PacketInitial::new/serialize, PacketHandshake::new/serialize", "src/packet.rs"), ("get_next_pn / truncate_pn", "src/connection.rs")],
 observe=["emitted datagram opened by the ring-based reference and by the library's own peer connection"], hook=HOOK)

prop("C09", "Forged, altered or misdirected packets never decode to content",
 "A datagram produced by changing, truncating, extending or splicing sealed packets, or by presenting them to a connection with other keys, the other role, another encryption level or another packet number window, never yields a protected packet that the peer did not seal byte for byte. Decoding such data gives an error (or an inherently unauthenticated version negotiation packet) and no plaintext.",
 ["inputs", "fault_sequences"],
 "every single-bit flip of a sealed packet, and random multi-byte edits, truncations, extensions, field rewrites, splices and key/role/level mismatches",
 "No test presents an altered packet; accepting unauthenticated data passes every test.",
 ["src/packet.rs", "src/quictls/cipher_suite.rs", "src/quictls/secrets.rs", "src/connection.rs"],
 [("header and packet number bytes are the associated data", "src/packet.rs: Packet*::from_stream"), ("AEAD tag verification", "src/quictls/cipher_suite.rs: internal_decrypt_aes_128_gcm")],
 observe=["decode result of the altered datagram"], hook=HOOK)

prop("C10", "Keys, nonces and masks follow RFC 9001 for every id, secret and number",
 "For every connection id of 0 to 20 bytes the Initial keys are the RFC 9001 ones, client and server obtain mirrored send/receive keys, and an endpoint's own packets are never acceptable as its peer's. For every secret, packet number, associated data and payload, sealing gives exactly the AEAD_AES_128_GCM output under the RFC nonce (16 bytes longer than the payload), opening inverts it and refuses anything else (including inputs shorter than the tag), and the header mask is the RFC one.",
 ["inputs", "configurations"],
 "all ids (0..20 bytes), both roles, all 32-byte secrets, all 62-bit packet numbers, associated data and payloads of any length",
 "Tests check the published vectors for one connection id, one packet number (2) and one payload.",
 ["src/quictls/secrets.rs", "src/quictls/cipher_suite.rs", "src/connection.rs", "src/version.rs", "src/utils.rs"],
 [("Secrets::from_initial / from_secret", "src/quictls/secrets.rs"), ("encrypt_payload / decrypt_payload nonce construction", "src/quictls/secrets.rs"), ("hkdf_expand_label_sha256, hp_mask", "src/quictls/cipher_suite.rs"), ("local/remote assignment", "src/connection.rs: Connection::new")],
 observe=["seal/open/mask outputs vs ring"], hook=HOOK)

prop("C11", "Packet numbers are never reused and number spaces are independent",
 "Over the whole life of a connection, the packet numbers allotted for sending in one packet number space are strictly increasing and never exceed 2^62-1, whatever mixture of spaces is used and even when building or serializing a packet fails. Activity in one space, or receiving packets, never changes the numbers of another space, so no two different packets are ever sealed under the same key and nonce.",
 ["histories", "fault_sequences"],
 "every history of allotments, packet constructions (succeeding and failing), acknowledgement updates and receptions over the three spaces",
 "get_next_pn is not exercised by any test.",
 ["src/connection.rs", "src/packet.rs"],
 [("next_pn counter per space", "src/connection.rs: get_next_pn"), ("PN_SPACE constants", "src/packet.rs")],
 state=[("next_pn", "last packet number allotted in the space", "src/connection.rs: PacketNumberSpaceInfo")],
 observe=["packet numbers returned/placed in emitted packets, per space, over recorded histories"], hook=HOOK)

prop("C12", "Truncated packet numbers always reconstruct to the number that was sent",
 "For every packet number and largest acknowledged number, the truncated form is either refused or holds the low-order bytes of the number in at least the width RFC 9000 requires (twice the unacknowledged range). Reconstructing a truncated number of 1 to 4 bytes gives exactly the RFC 9000 A.3 value for every largest-received number, so that every number a conforming sender truncates is recovered whatever the receiver has received since the acknowledgement, independently in each packet number space.",
 ["inputs", "histories"],
 "all packet numbers below 2^62, all largest-acknowledged and largest-received values (or none), all truncation widths, all three spaces",
 "Neither truncation nor reconstruction is run by any test with an acknowledged or received packet.",
 ["src/connection.rs"],
 [("truncate_pn", "src/connection.rs"), ("reconstruct_remote_pn", "src/connection.rs")],
 state=[("largest_local_ack / largest_remote_ack", "largest acknowledged / received number per space", "src/connection.rs")],
 observe=["truncated bytes and reconstructed numbers vs RFC 9000 A.2/A.3"], hook=HOOK)

prop("C13", "Coalesced datagrams decode to every packet, in order, with exact bounds",
 "A datagram made of several valid packets decodes to exactly those packets in their order, each with its own contents and none merged, skipped or repeated; a packet without a length (1-RTT, version negotiation) takes the rest of the datagram. If the datagram ends in the middle of a packet, decoding fails rather than returning a shortened packet.",
 ["inputs"],
 "all sequences of Initial, 0-RTT and Handshake packets, optionally ended by a 1-RTT packet, of all sizes and packet number lengths, and every truncation of such datagrams",
 "decode_packets is never called by a test; the only decoded datagram holds one packet.",
 ["src/packet.rs"],
 [("decode_packets loop", "src/packet.rs"), ("length-delimited payload", "src/packet.rs: Packet*::from_stream")],
 observe=["list of decoded packets vs list sealed by the reference peer"], hook=HOOK)

prop("C14", "Every datagram reaches exactly the connection it is addressed to",
 "A datagram received on a socket whose destination connection id is the 8-byte id of a live connection is queued for that connection exactly once, byte for byte, with its sender's address and in arrival order. It is never delivered to another connection, and a datagram that is malformed or matches no live connection (including ids of other lengths with the same numeric value) is delivered to none and reported as an error without disturbing the others. A received datagram is decoded with the keys of the connection it is addressed to and no other.",
 ["histories", "inputs"],
 "every history of connection creations, drops and arriving datagrams (valid, stale, unknown, malformed, up to maximum UDP size) over many live connections with nearby ids",
 "src/routing.rs has no tests and no test opens a socket.",
 ["src/routing.rs", "src/packet.rs", "src/utils.rs"],
 [("lookup by destination id", "src/routing.rs: route_datagram"), ("per-connection channel", "src/routing.rs: InternalQuicStream"), ("decoding with the addressed connection", "src/routing.rs: packets_from_datagram")],
 state=[("streams", "live connections by issued id", "src/routing.rs: InternalQuicSocket")],
 observe=["per-connection queues drained and compared with a sequential model after each step"], hook=HOOK)

prop("C15", "A listening socket survives any traffic and surfaces each new Initial once",
 "While waiting for connections, a socket hands out each arriving version 1 datagram that starts with an Initial packet for an id it has not issued exactly once, unmodified (up to the maximum UDP size) and in arrival order. Every other datagram that arrives meanwhile (with a malformed or truncated header, empty, for unknown connections, for live connections) is dropped or queued for its connection; none of them terminates or blocks the wait, whether or not traffic logging is on.",
 ["histories", "inputs", "configurations"],
 "every sequence of datagrams sent to the bound UDP socket, with traffic logging on or off",
 "No test opens a socket; a single stray datagram can end the wait without any test noticing.",
 ["src/routing.rs", "src/packet.rs", "src/interface.rs"],
 [("recv_new_initial_datagram loop", "src/routing.rs"), ("recv_datagram buffer", "src/routing.rs")],
 observe=["datagrams sent by the harness over loopback vs those returned by the wait and those queued"], hook=HOOK)

prop("C16", "Connection ids are unique, and dropping a connection ends exactly that one",
 "Every accepted connection gets a fresh 8-byte id different from all live ones, is registered under that id, carries it as its source id, and uses server-side Initial keys derived from the client's destination id. Dropping a stream handle removes exactly its connection: datagrams for it are no longer delivered, all others keep working with their queued data intact, dropping again or dropping an unknown id is harmless, and the memory of dropped connections is released.",
 ["histories"],
 "every interleaving of accepts, stream drops and datagrams over many connections",
 "No test creates or drops a connection through the socket.",
 ["src/routing.rs", "src/interface.rs", "src/connection.rs", "src/quictls/utils.rs"],
 [("id allocation loop", "src/routing.rs: accept"), ("Drop for QuicStream", "src/interface.rs"), ("drop_connection", "src/routing.rs")],
 state=[("streams", "live connections by issued id", "src/routing.rs")],
 observe=["set of live ids, per-connection queues and heap balance after each step"], hook=HOOK)

prop("C17", "Transport parameters are encoded exactly as RFC 9000 section 18 prescribes",
 "Every transport parameter is encoded as its RFC 9000 identifier, the exact byte length of its value and the value in the RFC 9000 form for that parameter (integers as variable-length integers, ids and tokens verbatim, the preferred address as the full fixed layout with its connection id length and reset token). A value that cannot be represented is refused, and any concatenation of encoded parameters parses back to the same list.",
 ["inputs"],
 "all 17 parameters with arbitrary values, and arbitrary sequences of them",
 "src/transport_parameters.rs has no tests.",
 ["src/transport_parameters.rs", "src/utils.rs"],
 [("TransportParameter::serialize / identifier_val", "src/transport_parameters.rs"), ("PreferredAddress::to_bytes", "src/transport_parameters.rs")],
 observe=["encoded bytes vs an independent encoder and TLV parser"], hook=HOOK)

prop("C18", "No input makes the library touch invalid memory or leak it",
 "Whatever datagrams, frames, parameters and connection operations the library is given, it performs no out-of-bounds, use-after-free, uninitialised or otherwise undefined memory access and frees what it allocates once its results are dropped. The raw buffer helpers return exactly the requested number of elements, zeroed where promised, and release them exactly once.",
 ["inputs", "histories"],
 "all library entry points driven by hostile and well-formed inputs, in instrumented builds",
 "The tests run uninstrumented: an out-of-bounds read or a leak that does not crash is invisible to them.",
 ["src/utils.rs", "src/packet.rs", "src/frame.rs", "src/quictls/cipher_suite.rs", "src/routing.rs"],
 [("safe Rust except calloc_box_buffer/alloc_box_buffer", "src/utils.rs"), ("OpenSSL FFI through the openssl crate", "src/quictls/cipher_suite.rs")],
 observe=["AddressSanitizer/LeakSanitizer, std unsafe-precondition checks, Miri, heap balance"], hook=HOOK)

prop("C19", "Decoding never changes connection state, so bad input has no after-effects",
 "Decoding any data, valid or not, leaves the connection exactly as it was: decoding the same datagram again gives the same outcome, and packets that decoded before a burst of hostile or invalid input still decode identically after it. What is decoded depends only on the datagram and the connection, not on previously processed datagrams or on other connections.",
 ["histories", "inputs"],
 "every history of valid, altered, replayed and hostile datagrams interleaved over several connections",
 "Tests decode one packet per process and never look at the state afterwards.",
 ["src/packet.rs", "src/connection.rs", "src/routing.rs"],
 [("decoding takes the connection by shared reference", "src/packet.rs: decode_packets")],
 observe=["complete connection snapshots before/after; decode results of replayed probes"], hook=HOOK)

prop("C20", "A failing byte source is reported as that failure, never as content",
 "When the byte source fails at some position, every parser that needs the byte at or after that position returns an error, and it is the source's own error; data is never silently cut short at the fault, no value is made up and nothing panics. A fault beyond what the parser needs to read does not affect its result.",
 ["fault_sequences", "inputs"],
 "every parser (integers, ids, byte strings, headers, packets, datagrams, frames), every input and every fault position",
 "Tests only use infallible in-memory sources.",
 ["src/utils.rs", "src/frame.rs", "src/packet.rs"],
 [("unwrap_or(Err(..))? on every read", "src/utils.rs"), ("all_bytes_from_stream propagates errors", "src/utils.rs")],
 observe=["result of parsing from a source that fails at a chosen position"], hook=HOOK)

prop("C21", "Connection ids and fixed-width integers survive the wire bit for bit",
 "Reading an id of n bytes (0 to 20) and writing it back with the same length gives the same bytes, and different ids of equal length never compare equal or share a lookup key. Fixed-width integers are read big-endian, consume exactly their width, are refused when bytes are missing, and slice and stream readers agree.",
 ["inputs"],
 "all ids of 0..20 bytes, all widths (8, 16, 32, 64, 128, 160 bits), all truncation points",
 "The only id in the tests is one 8-byte value; the 128/160-bit carry path is never exercised.",
 ["src/utils.rs"],
 [("var_u160_from_stream, U160::to_bytes/to_var_bytes", "src/utils.rs"), ("DecodeFromBytes / FromDatagram", "src/utils.rs")],
 observe=["round trips vs byte arrays; hash/equality behaviour in a map"], hook=HOOK)

prop("C22", "Header protection is reversible, confined and hides fields while applied",
 "Applying and then removing header protection with the same mask restores the header, removing or applying it twice changes nothing more, and only the low 4 bits (long header) or low 5 bits (short header) of the first byte and the packet number bytes ever change. While a header is protected its packet number length, key phase, spin and reserved bits cannot be read; afterwards they are read exactly from the unprotected byte. Version negotiation and retry headers are never treated as protected.",
 ["inputs", "histories"],
 "all first bytes, all masks, all sequences of apply/remove/read operations",
 "Tests apply protection once to one header with one mask.",
 ["src/packet.rs"],
 [("add_protection / remove_protection / is_protected", "src/packet.rs: LongPacketHeader, ShortPacketHeader"), ("xor_pn_protection", "src/packet.rs")],
 state=[("is_protected", "whether the protected bits are masked", "src/packet.rs")],
 observe=["header byte and accessor results after each operation vs a model"], hook=HOOK)

prop("C23", "Issued connection ids are unpredictable and cannot be linked",
 "Each connection id that a socket issues when it accepts a connection is drawn anew over all of its 64 bits. No bit of it is constant, follows from its other bits, from ids issued before, from the id the client chose or from how many connections were accepted, and no id is issued again on another socket or after a restart of the process, so that an observer can neither guess the ids of other connections nor tell which ids belong together.",
 ["histories", "inputs"],
 "every history of accepted connections: any client ids, connections that stay or leave, several sockets, several processes",
 "A test sees single ids; whether they are predictable shows only in sequences of hundreds of them and across processes.",
 ["src/quictls/utils.rs", "src/routing.rs"],
 [("get_connection_id fills all 8 bytes from OpenSSL's generator", "src/quictls/utils.rs"), ("QuicSocket::accept draws until the id is unused", "src/routing.rs")],
 observe=["registered ids after each accept: balance of every bit, xor and difference with predecessors, client ids and themselves, linear prediction over GF(2), repetition across sockets and processes"], hook=HOOK)

prop("C24", "What one endpoint sends is what the other reads, whatever the network does",
 "Whatever Initial and Handshake packets one endpoint of the library sends on its connections (singly or coalesced, with tokens, with any frames that belong there, at any point of the packet number sequence), the other endpoint's socket hands each datagram that arrives to the connection it belongs to and reads from it exactly the packets, numbers, tokens, ids and frames that were sent, although the network loses, repeats, delays and reorders datagrams and acknowledgements, other connections share the sockets and strangers send to them. A datagram that is so late that RFC 9000 A.3 no longer finds its packet numbers may be refused but is never read as anything else.",
 ["histories", "fault_sequences", "inputs"],
 "every conversation of any length on any number of connections, every pattern of loss, repetition, reordering and delay, every state of the number spaces",
 "Tests build or decode single packets; no test has two endpoints, let alone a network between them.",
 ["src/packet.rs", "src/connection.rs", "src/routing.rs", "src/frame.rs"],
 [("PacketInitial/PacketHandshake::new and serialize", "src/packet.rs"), ("decode_packets", "src/packet.rs"), ("get_next_pn / reconstruct_remote_pn", "src/connection.rs"), ("recv_datagram, route_datagram, packets_from_datagram", "src/routing.rs")],
 observe=["every packet read by the receiving socket vs the log of what was sent"], hook=HOOK)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
