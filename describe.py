"""Writes properties.jsonl and MANIFEST.json (needs python3-vt for the schema check)."""
import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,hook=True,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[obs],"hook_needed":"cfg(verif_hooks): access to private items"}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
p("P02","No received datagram crashes or hangs the endpoint",
 "Whatever bytes arrive in a datagram, in whatever state the connection is, decoding ends with packets or an error: no panic, arithmetic overflow, out-of-bounds access, abort or endless loop. This also holds for whatever plaintext a peer encrypts.",
 ["inputs","histories"],"every datagram (to the size bound), both roles, any previously received packet number, any decryption outcome",
 "tests decode a handful of well-formed packets; crashes sit in truncations, odd lengths and combinations no test lists",
 ["src/packet.rs","src/frame.rs","src/utils.rs","src/connection.rs","src/quictls/cipher_suite.rs"],
 [("decode of packets and headers","src/packet.rs"),("frame decoding","src/frame.rs"),("byte readers","src/utils.rs"),("tag split","src/quictls/cipher_suite.rs")],"result of decoding a datagram, a header, a frame payload")
p("P12","Packets from a correct peer are opened with exactly their contents",
 "Every protected packet (Initial, 0-RTT, Handshake, 1-RTT) that a correct peer sends and whose number lies in the recovery window is accepted, and yields the sent packet type, header, token, packet number and frames. What one endpoint of the library writes, the other endpoint reads back.",
 ["inputs","histories"],"every packet number of 1 to 4 bytes, connection ids, token, frames, receive state within the bounds",
 "tests open one RFC sample Initial; other kinds, number lengths and receive states are never opened",
 ["src/packet.rs","src/connection.rs","src/quictls/secrets.rs"],[("packet decoding","src/packet.rs: decode_packets and the from_stream of each packet type"),("number recovery","src/connection.rs: reconstruct_remote_pn"),("payload decryption","src/quictls/secrets.rs")],"packets returned for a datagram")
p("P14","Modified packets are never accepted",
 "A protected packet any part of which was changed, cut or extended in transit is not delivered as that packet; only the unmodified packet is accepted. Header bits, ids, token, length, packet number and payload are all covered.",
 ["inputs","fault_sequences"],"any replacement of bytes of a genuine packet, at every position, for every packet kind",
 "tests contain no negative case; which bytes are authenticated is a statement over all modifications",
 ["src/packet.rs","src/quictls/cipher_suite.rs","src/quictls/secrets.rs"],[("associated data","src/packet.rs: from_stream of each packet type"),("tag verification","src/quictls/cipher_suite.rs")],"packets returned for a modified datagram")
p("P11","Packets on the wire are those RFC 9000 and RFC 9001 prescribe",
 "An Initial or Handshake packet written for any ids, token, frames and packet number is byte for byte the packet the RFCs prescribe: header fields, token length, length field, packet number, sealed payload, header protection. Packets too short to be protected are refused instead of sent.",
 ["inputs","histories"],"every id length, token, payload and acknowledged state within the bounds",
 "tests compare one sample Initial; lengths, numbers and kinds vary independently",
 ["src/packet.rs","src/connection.rs","src/quictls/secrets.rs"],[("packet writing","src/packet.rs: serialize of each packet type"),("header protection","src/packet.rs: add_protection"),("sealing","src/quictls/secrets.rs")],"bytes of a serialized packet")
p("P25","No key and nonce is ever used for two packets",
 "Over any sequence of packets a connection sends, from any sending state, no two payloads are sealed under the same key and nonce. Different packet numbers always give different nonces and opening uses the same nonce as sealing.",
 ["histories","inputs"],"any sequence of sends over the number spaces from any state; any two 64-bit packet numbers",
 "nonce reuse shows only across sends; tests seal single payloads",
 ["src/quictls/secrets.rs","src/connection.rs"],[("nonce construction","src/quictls/secrets.rs: encrypt_payload, decrypt_payload"),("number allocation","src/connection.rs: get_next_pn")],"keys and nonces reaching the AEAD")
p("P15","Packet protection keys are those RFC 9001 derives",
 "For every destination connection id and both roles, payloads are sealed and headers masked with the own Initial keys of RFC 9001, and the peer's packets opened with the peer's; the same holds for keys from any traffic secret. Secrets shorter than the hash are refused.",
 ["inputs","configurations"],"every destination id of 0 to 20 bytes, both roles, any secret of the tested lengths",
 "tests check one destination id of one length",
 ["src/quictls/secrets.rs","src/quictls/cipher_suite.rs","src/connection.rs","src/version.rs"],[("key schedule","src/quictls/secrets.rs: from_initial, from_secret"),("role selection","src/connection.rs: Connection::new")],"inputs of the key derivation, sealed payloads, masks")
p("P21","Keys of one encryption level or direction never serve another",
 "Packets are accepted only under the peer's keys of their own encryption level, never under keys of another level or the endpoint's own keys, and not at all while their level has no keys. Nothing is sealed, masked or written at a level without keys.",
 ["configurations","inputs"],"every packet kind with the keys of every level and direction; keys present or absent per direction",
 "tests only use matching Initial keys",
 ["src/connection.rs","src/packet.rs"],[("key selection per space","src/connection.rs"),("space of each packet type","src/packet.rs: PN_SPACE")],"result of decoding and of sealing")
p("P13","Every packet of a datagram is delivered, once, in order",
 "A datagram that holds several packets yields each of them once, in order, with its own contents, whatever their kinds, number lengths and sizes; no byte of one packet is taken for another. A packet that cannot be opened yet does not take the others with it.",
 ["inputs"],"datagrams of up to five packets of every mix of kinds",
 "tests decode single packets only",
 ["src/packet.rs"],[("iteration over a datagram","src/packet.rs: decode_packets"),("length field","src/packet.rs: from_stream of each packet type")],"packets returned for a datagram")
p("P09","Packet numbers are sent so that every receiver in window recovers them",
 "For any packet number and largest acknowledged number, the number is sent in 1 to 4 bytes as its low bytes, enough for the RFC 9000 window, or refused only outside it. From any number of bytes and any receive state, recovery gives the number closest to the next expected one as RFC 9000 appendix A.3 defines it, in each number space separately.",
 ["inputs","histories"],"all 62-bit packet numbers, acknowledged numbers and receive states",
 "no test truncates or recovers a packet number; failures sit at window edges",
 ["src/connection.rs","src/utils.rs"],[("truncation","src/connection.rs: truncate_pn"),("recovery","src/connection.rs: reconstruct_remote_pn"),("bit length","src/utils.rs: floor_log2")],"bytes sent and number recovered",True,[("largest_local_ack, largest_remote_ack, next_pn","packet number state per space")])
p("P10","Packet numbers increase and are never reused within a space",
 "Each number space issues strictly increasing packet numbers, one per packet, independently of the other spaces, and never one above 2^62-1. A failed attempt to send never makes a number reappear.",
 ["histories"],"any interleaving of sends over the spaces from any state",
 "a statement over histories of sends; tests send one packet",
 ["src/connection.rs"],[("number allocation","src/connection.rs: get_next_pn")],"numbers of successive packets",True,[("next_pn","last number issued per space")])
p("P03","Frames on the wire are understood exactly as RFC 9000 defines them",
 "Reading a frame accepts exactly the complete frames of RFC 9000, yields the fields that are on the wire, consumes exactly the frame's bytes, and rejects truncated frames and unknown types. This holds for every frame type, every flag combination and every integer encoding.",
 ["inputs"],"any bytes up to the bound for each frame type, all integer encodings",
 "the test round-trips a few frames with small fields",
 ["src/frame.rs","src/utils.rs"],[("frame decoding","src/frame.rs: deserialize_frame and each frame's from_datagram")],"decoded frames and consumed bytes")
p("P04","Frames are written exactly as RFC 9000 lays them out",
 "Every frame, with any field values and data, is written as the RFC 9000 layout prescribes, and reading it back gives an equal frame. Field values that do not fit an integer encoding are refused.",
 ["inputs"],"any field values; data of the listed lengths",
 "the test serialises a few small frames",
 ["src/frame.rs","src/utils.rs"],[("frame encoding","src/frame.rs: serialize_frames and each frame's to_bytes")],"bytes of serialized frames")
p("P05","A payload is its frames in order, none lost, added or merged",
 "Writing several frames gives their encodings in order, and reading a payload gives every frame in order up to its last byte; a payload with a broken frame is rejected as a whole. A stream frame omits its length only where it ends the packet.",
 ["inputs"],"sequences of three frames of chosen kinds, any payload of a few bytes, any bytes after a frame of every kind",
 "one fixed sequence is tested; boundaries depend on every preceding frame",
 ["src/frame.rs"],[("frame sequence","src/frame.rs: serialize_frames, deserialize_frames")],"frames of a payload, bytes of a payload")
p("P06","Packet headers are read and rewritten faithfully",
 "From any bytes, header reading decides long or short form, packet type, version and both ids exactly as RFC 9000 section 17 does, consumes exactly the header, and rejects truncated headers and ids over 20 bytes of known versions. Writing a read header gives the same bytes.",
 ["inputs"],"any bytes up to the bound; id lengths up to 255",
 "one header is tested",
 ["src/packet.rs","src/utils.rs"],[("header decoding","src/packet.rs: next_header_from_stream, LongPacketHeader, ShortPacketHeader")],"decoded header, its bytes")
p("P07","Version negotiation packets are read completely",
 "A packet with version 0 is version negotiation whatever its type bits; both ids of any length up to 255 and the whole list of versions are read, in order, and lists that are not whole words or are truncated are rejected. No keys are involved.",
 ["inputs"],"any bytes with version 0 up to the bound; ids of up to 255 bytes",
 "no test decodes version negotiation",
 ["src/packet.rs"],[("version negotiation","src/packet.rs: PacketVersionNegotiation::from_stream")],"packets returned for a datagram")
p("P08","Header protection changes exactly the protected bits",
 "Removing header protection flips only the low four bits of a long first byte or the low five of a short one, never those of a Retry packet, and adding the same mask restores the header. Protected fields cannot be read before protection is removed, and protection is applied or removed at most once.",
 ["inputs","histories"],"any first byte, any mask, any order of adding and removing",
 "tests use one mask and one header",
 ["src/packet.rs"],[("protection state","src/packet.rs: add_protection, remove_protection")],"header bytes and fields before and after")
p("P01","Variable-length integers are encoded and decoded as RFC 9000 defines",
 "Every value up to 2^62-1 is encoded in its shortest form and decoded back, larger values are refused. Decoding any bytes gives the RFC 9000 value and length or an error if bytes are missing, whether read from a slice or a stream.",
 ["inputs"],"all 64-bit values; all byte strings up to nine bytes",
 "tests encode a few values and decode none",
 ["src/utils.rs"],[("integers","src/utils.rs: encode_var_int, decode_var_int, var_int_from_stream")],"encoded bytes, decoded value and consumed length")
p("P16","Connection ids keep their value and length",
 "An id of any length from 0 to 20 bytes read from the wire is written back as the same bytes, two ids are equal exactly if their bytes are, and truncated ids are rejected. A connection keeps the ids it was given, and an issued 8-byte id is recognised on the wire.",
 ["inputs"],"all ids of 0 to 20 bytes",
 "tests use one id length",
 ["src/utils.rs","src/connection.rs"],[("160-bit ids","src/utils.rs: U160, var_u160_from_stream, fixed_len_dcid_from_stream"),("ids of a connection","src/connection.rs")],"id bytes, equality, ids of a connection")
p("P19","A datagram reaches exactly the connection it is addressed to",
 "A datagram is queued, unchanged and in order of arrival, for the connection registered under its destination id and for no other; datagrams for unknown or dropped connections reach nobody. Dropping a connection, or the application's handle of it, removes that connection and leaves the others in place.",
 ["histories","inputs"],"up to six connections under any ids, up to eight datagrams of any content",
 "no test routes a datagram",
 ["src/routing.rs","src/interface.rs"],[("routing","src/routing.rs: route_datagram, drop_connection"),("handles","src/interface.rs: Drop for QuicStream")],"datagrams queued per connection")
p("P20","Only a first packet for an unknown id starts a new connection",
 "Waiting for a new connection returns the first Initial datagram whose id belongs to no registered connection, unchanged and with its source address. Everything received before goes to its connection or, if it has none or cannot be read, is dropped without disturbing the wait.",
 ["histories","inputs"],"any sequence of up to four datagrams of any content, with up to three registered connections, traffic logging on or off",
 "no test receives a datagram",
 ["src/routing.rs","src/packet.rs"],[("new connections","src/routing.rs: recv_new_initial_datagram")],"returned datagram and queues")
p("P22","Datagrams are opened with the keys of the connection they are for",
 "With several connections on a socket, a received datagram is opened with the keys of the connection registered under its destination id and of no other. A datagram sealed for another connection, or addressed to none, is not accepted.",
 ["inputs","configurations"],"up to three connections under any ids; every pair of addressee and key owner; every packet kind",
 "no test has a socket with connections",
 ["src/routing.rs","src/packet.rs","src/connection.rs"],[("decoding on a socket","src/routing.rs: packets_from_datagram")],"packets returned for a datagram")
p("P17","Readers consume exactly what they return and report failing sources",
 "Reading a fixed or counted number of bytes or an integer from a byte source returns exactly the next bytes in order, takes no byte more, and fails if the source ends early. An error of the source is reported, never swallowed, at whatever byte it occurs.",
 ["inputs","fault_sequences"],"sources of every small length, failing or ending at any point",
 "tests read from complete sources only",
 ["src/utils.rs","src/frame.rs","src/packet.rs"],[("readers","src/utils.rs")],"returned values, remaining source, errors")
p("P18","Transport parameters are encoded as RFC 9000 section 18 defines",
 "Every transport parameter is written as its registered identifier, the length of its value and its value, with integers in variable-length form and the preferred address in its fixed layout. Values above 2^62-1 are refused.",
 ["inputs"],"every parameter with any value; ids of every length",
 "no test encodes a transport parameter",
 ["src/transport_parameters.rs"],[("encoding","src/transport_parameters.rs: serialize, identifier_val")],"bytes of a serialized parameter")
p("P23","Memory requested while decoding is bounded by what was received",
 "Whatever lengths and counts a datagram declares, decoding it never requests an allocation larger than a small multiple of the bytes actually received.",
 ["inputs"],"every frame type and packet kind with lengths and counts of any size",
 "tests declare true lengths only",
 ["src/utils.rs","src/frame.rs","src/packet.rs"],[("counted reads","src/utils.rs: var_bytes_from_stream"),("ACK ranges","src/frame.rs: FrameAck::from_datagram")],"sizes passed to the allocator")
p("P24","Key derivation inputs are those of RFC 8446",
 "Label expansion passes the secret and the exact label structure of RFC 8446 section 7.1 (output length, prefixed label, context) to HKDF for any label, context and output length, and refuses what does not fit the length fields. Extraction uses salt and keying material as given.",
 ["inputs"],"labels, contexts and outputs of the listed lengths around every limit, any content",
 "tests check three fixed labels",
 ["src/quictls/cipher_suite.rs"],[("label structure","src/quictls/cipher_suite.rs: hkdf_expand_label_sha256")],"inputs of HKDF")
p("P28","Errors carry the transport error codes of RFC 9000",
 "Every error the library reports maps to the transport error code RFC 9000 section 20.1 registers for it, whatever detail the error carries.",
 ["inputs"],"every error",
 "no test looks at an error code",
 ["src/error.rs"],[("codes","src/error.rs: to_error_byte")],"code of an error")
p("P29","Accepting a connection registers it under a fresh id and disturbs no other",
 "When a client's first Initial arrives, accept registers exactly one new connection, under an 8 byte id no registered connection uses, whatever the random generator yields, and the connection knows that id as its own. The client's further Initial packets to that id are opened with the keys of the id the client first chose, whatever its length; the other connections stay registered and keep their queued datagrams. (Accept is unfinished: it panics with todo!() once this is done.)",
 ["inputs","histories"],"any registered ids, any first ids of the listed lengths, any random numbers with a bounded number of collisions, up to two clients, datagrams for others in between",
 "no test accepts a connection, and a random id that is already in use cannot be provoked",
 ["src/routing.rs","src/quictls/utils.rs","src/connection.rs"],[("accepting","src/routing.rs: accept"),("ids","src/quictls/utils.rs: get_connection_id")],"registered connections, their ids, queues and keys")
p("P26","Threads sharing a socket neither deadlock nor lose datagrams",
 "Threads may accept or wait for new connections, route, decode, register connections and drop connections or their handles on one socket at once: no schedule deadlocks or panics, every datagram taken from the network is returned to exactly one waiter or queued for its connection as long as that is registered. Only accepting and waiting for a new connection wait for the network: dropping, routing, decoding and registering finish although no datagram ever arrives.",
 ["schedules","inputs"],"up to three threads, every schedule with a bounded number of preemptions, connections under any ids, datagrams for any ids, traffic logging on or off",
 "the tests are single-threaded, and a deadlock needs one particular schedule",
 ["src/routing.rs","src/interface.rs"],[("locks","src/routing.rs: socket, streams and connection locks"),("handles","src/interface.rs: dropping a stream")],"progress of the threads, returned datagrams, queues")
p("P27","Secrets do not influence timing or memory access patterns",
 "Handling protected packets takes the same branches and memory accesses for all key material.",
 ["inputs"],"all keys and packets",
 "tests observe values, not timing",
 ["src/quictls/secrets.rs","src/quictls/cipher_suite.rs","src/packet.rs"],[("packet protection","src/quictls")],"execution time")
open('/verif/properties.jsonl','w').write("\n".join(json.dumps(x) for x in P)+"\n")
hooks=["058ccb4","7a8bb23","b37b19e","1b19af6","5b75950"]
import subprocess
full=lambda c: subprocess.run(["git","-C","/repo","rev-parse",c],capture_output=True,text=True).stdout.strip()
NA={"P27":"timing of the real primitives lies in OpenSSL's assembly, which the encoding replaces by uninterpreted functions"}
import sys
sys.path.insert(0,'/verif'); import checks
complete={"P01","P08","P09","P16"}
M={"version":1,"setup_cmd":"python3 run.py --build","hooks":{"guard":"verif_hooks","enable":"RUSTFLAGS=\"--cfg verif_hooks\" (set by run.py)","source_commits":[full(h) for h in hooks]},
"checks":[{"property":x["id"],"quick_cmd":"python3 run.py %s --tier quick"%x["id"],"thorough_cmd":"python3 run.py %s --tier thorough"%x["id"],
 "technique":"symbolic execution of the compiled code (LLVM IR), assertions decided by SMT (z3), counterexamples replayed natively",
 "level":"model_checking","level_note":("Bounds: "+checks.PROPERTIES[x["id"]]["bounds"])} for x in P if x["id"] not in NA],
"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"All checks share /verif/symx (executor), /verif/harness (entry points and reference models written from the RFCs), /verif/models (idealised cryptography) and /verif/run.py (build, run, native replay, evidence)."}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(P), [x['id'] for x in P if x['id'] not in checks.PROPERTIES], set(checks.PROPERTIES)-{x['id'] for x in P})
