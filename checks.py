"""Which harness instances decide which property.  An instance is one harness entry point with concrete
parameters (sizes, packet kinds); everything else in it is symbolic."""
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the code executed is the LLVM IR rustc (release profile, overflow checks on, panic=abort) generates from /repo's current tree with "
    "--cfg verif_hooks and the harness crate; one thread, except in P26, where threads switch where locks are taken",
    "openssl, hkdf and sha2 are replaced by models (/verif/models): key derivation and the AES block are uninterpreted functions of their "
    "inputs with no collisions, AEAD opening succeeds exactly on what was sealed (or, in crash checks, succeeds or fails arbitrarily)",
    "printing is a no-op, hash maps put all keys in one bucket, socket calls are the harness's (datagrams are symbolic), a single "
    "allocation above 256 MB fails",
    "sizes are the instance parameters; longer inputs are outside the bound",
]


def I(entry, *params, covers=(), cost=1, thorough=False, bound="", long=False):
    return {"entry": entry, "params": list(params), "covers": list(covers), "cost": cost, "thorough": thorough, "bound": bound, "long": long}


# entries that can be run one after the other (harness/src/sequence.rs)
SEQUENCE = "varint_decode varint_encode frame_decode frame_decode_kind frame_decode_sized frame_encode frame_twice frames_encode frames_decode frames_decode_after header_decode header_decode_ids vn_decode vn_decode_ids hp_header pn_send_recv pn_recover packet_write packet_read packet_between coalesced tamper initial_keys traffic_keys id_read id_write id_u64 read_fixed read_counted read_failing transport_parameter keys_missing keys_wrong receive_for receive_unknown expand_label extract".split()


def S(*steps, covers=(), cost=4):
    """the entries `(name, parameters..)` one after the other in one run"""
    p = []
    for name, *args in steps:
        p += [SEQUENCE.index(name) + 1, len(args)] + args
    return I("sequence", *p, covers=covers, cost=cost)


PROPERTIES = {}


def prop(pid, about, bounds, instances, assumptions=()):
    PROPERTIES[pid] = {"about": about, "bounds": bounds, "instances": instances, "assumptions": list(assumptions)}


# frame types and the number of bytes after the type explored for each
FRAME_TYPES = [0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x11, 0x12, 0x13,
               0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e]
# bytes that hold every integer of the frame at its longest, and one more
FULL = {0x02: 14, 0x03: 14, 0x04: 25, 0x05: 17, 0x06: 19, 0x07: 11, 0x10: 9, 0x11: 17, 0x12: 9, 0x13: 9, 0x14: 9, 0x15: 17, 0x16: 9,
        0x17: 9, 0x18: 40, 0x19: 9, 0x1a: 9, 0x1b: 9, 0x1c: 26, 0x1d: 18}
for _t in range(8, 16):
    FULL[_t] = 19

prop("P01", "variable-length integers, from slices and from byte streams",
     "complete for decoding any 0..9 bytes and for encoding any 64-bit value",
     [I("varint_encode", covers=["encoded", "refused"])] + [I("varint_decode", n) for n in range(10)]
     + [S(("varint_decode", 8), ("varint_encode",), ("varint_decode", 4)), S(("varint_encode",), ("varint_encode",), covers=["encoded", "refused"]), S(("varint_decode", 3), ("varint_decode", 8))])

prop("P02", "any datagram: the receive path returns packets or an error, never panics, overflows, aborts or reads out of bounds",
     "every datagram of 0..24 and 26 (thorough 30) bytes; long header packets with short ids and any 0..20 (thorough 24) bytes after them; shaped Initial, "
     "0-RTT and Handshake packets cut anywhere or followed by more bytes; short header packets up to 40 bytes; every frame type with any "
     "bytes covering all its integers; every frame payload of up to 6 (thorough 7) bytes; any previously received packet number; both "
     "roles, with and without keys; sockets with 0..2 connections receiving, routing and decoding any datagram of up to 36 bytes and "
     "short header ones of 1500 and 4096 bytes, logging on and off; frames with 256..1200 bytes of data, cut or not; up to 1200 frames, 300 "
     "acknowledged ranges, 275 versions, tokens and payloads of 1200 bytes; decryption yields any plaintext of up to 3 bytes or of many "
     "frames, or fails",
     [I("crash_datagram", n, 2, cost=n) for n in list(range(0, 24, 1))]
     + [I("crash_datagram", 24, 2, 0, 0, 0, 0, 0, 3, cost=30), I("crash_datagram", 26, 2, cost=40), I("crash_datagram", 30, 2, thorough=True, cost=100)]
     + [I("crash_long", 0, 1, 0, 24, 1, cost=90, thorough=True), I("crash_long", 0, 1, 0, 21, 1, 0, 0, 3, cost=60),
        I("crash_long", 1, 1, 0, 20, 1, cost=5), I("crash_long", 1, 0, 2, 22, 1, 0, 0, 1, cost=60),
        I("crash_long", 2, 1, 0, 21, 1, cost=60), I("crash_long", 2, 1, 0, 24, 2, cost=200, thorough=True),
        I("crash_long", 3, 2, 2, 20, 1, cost=5)]
     + [I("crash_shaped", 0, 2, 4, 0, 2, 0, 0, f, cost=12) for f in (0, 3)]
     + [I("crash_shaped", 1, 0, 4, 0, 2, cost=12), I("crash_shaped", 2, 0, 4, 0, 2, 0, 0, 1, cost=12),
        I("crash_shaped", 2, 0, 4, 2, 2, cost=20), I("crash_shaped", 0, 1, 4, 9, 2, cost=50), I("crash_shaped", 1, 0, 5, 6, 1, cost=20)]
     + [I("crash_short", n, 3, 0, 0, 0, 0, 0, f, cost=20) for n, f in ((20, 0), (25, 2), (26, 0), (29, 3), (40, 1))]
     + [I("crash_frames", n, cost=n) for n in range(6)] + [I("crash_frames", 6, cost=20), I("crash_frames", 7, cost=90, thorough=True)]
     + [I("crash_frame_kind", t, FULL.get(t, 3), cost=3) for t in FRAME_TYPES]
     + [I("crash_frame_large", t, j, 3) for t in FRAME_TYPES for j in range(4)]
     + [I("crash_header", n, cost=n // 4) for n in (0, 1, 5, 6, 7, 9, 13, 20, 30)]
     # connections that lack keys beyond the first packets
     + [I("crash_datagram", n, 2, 0, 0, 0, 0, 0, 4 + n % 4, cost=n) for n in (9, 13, 20)]
     + [I("crash_shaped", 0, 1, 4, 9, 2, 0, 0, 5, cost=40), I("crash_shaped", 2, 0, 4, 2, 2, 0, 0, 4, cost=5), I("crash_shaped", 1, 0, 4, 0, 2, 0, 0, 6, cost=5),
        I("crash_short", 30, 3, 0, 0, 0, 0, 0, 6, cost=5)]
     # sockets
     + [I("crash_socket", h, k, f, n, 0, 0, 0, g, cost=c) for h, k, f, n, g, c in
        ((0, 0, 2, 9, 2, 2), (0, 1, 2, 12, 3, 2), (10, 1, 2, 9, 2, 2), (0, 2, 1, 24, 3, 4), (10, 2, 1, 24, 2, 4), (1, 0, 2, 9, 2, 2), (1, 1, 2, 14, 2, 4), (1, 2, 1, 24, 3, 4),
         (2, 0, 2, 12, 2, 2), (2, 1, 2, 14, 3, 8), (12, 1, 0, 30, 2, 4), (2, 2, 0, 30, 7, 4), (2, 1, 1, 36, 2, 40), (12, 1, 1, 30, 7, 20), (10, 1, 0, 1500, 2, 4), (0, 1, 0, 4096, 2, 4),
         (1, 1, 0, 4096, 2, 4))]
     # lengths beyond one byte, complete and cut
     + [I("crash_sized", t, n, sh) for t in (6, 7, 0x0a, 0x0f, 0x1c, 0x1d) for n, sh in ((256, 0), (300, 1), (1200, 0))]
     # many of everything
     + [I("crash_shaped", k, tl, pl, 1, 2, 0, 0, f, cost=10) for k, tl, pl, f in ((0, 64, 20, 0), (0, 300, 4, 3), (0, 1200, 20, 0), (0, 0, 1200, 2), (0, 130, 1100, 1), (1, 0, 300, 2), (2, 0, 1200, 0), (2, 0, 64, 3))]
     + [I("crash_many", t, n, k, covers=["accepted"]) for t, n, k in ((0, 100, 9), (0, 1200, 9), (0x100, 1100, 9), (0x10e, 300, 9), (0x11a, 300, 9), (0x106, 300, 9), (0x102, 300, 9), (0x118, 70, 9), (3, 300, 0), (7, 70, 1), (0, 300, 2), (0x100, 1000, 3), (9, 300, 3))]
     + [I("crash_ack", t, n, covers=["accepted"]) for t in (2, 3) for n in (20, 64, 300)]
     + [I("crash_vn", d, s, n, covers=["accepted"] if n % 4 == 0 else []) for d, s, n in ((8, 8, 1100), (255, 255, 280), (0, 0, 1024), (20, 21, 70), (0, 255, 260), (130, 8, 64))],
     ["plaintexts longer than 3 bytes reach only the frame decoder, which is explored separately"])

prop("P03", "frames read from the wire",
     "any 0..8 (thorough 10) bytes; every frame type followed by any bytes that hold all its integers at their longest; data of 63..16384 "
     "bytes, ACK frames of up to 300 ranges; payloads of any 3 bytes",
     [I("frame_decode", n, cost=n) for n in range(9)] + [I("frame_decode", 9, cost=20, thorough=True), I("frame_decode", 10, cost=30, thorough=True)]
     + [I("frame_decode_kind", t, n, cost=n // 3) for t in FRAME_TYPES for n in sorted({FULL.get(t, 2), FULL.get(t, 2) // 2})]
     + [I("frame_decode_sized", t, n, covers=["decoded"]) for t in (0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0x1c, 0x1d) for n in (63, 64, 255, 256, 300, 1200)]
     + [I("frame_decode_sized", t, 16384, covers=["decoded"], long=True, cost=8) for t in (0x06, 0x07, 0x08, 0x0e, 0x1c, 0x1d)]
     + [I("frame_decode_sized", t, n, covers=["decoded"], cost=2) for t in (2, 3) for n in (2, 10, 63, 64, 130, 300)]
     + [I("frames_decode", 3, cost=4)]
     + [S(("frame_decode_kind", a, n), ("frame_decode_kind", b, m)) for a, n, b, m in ((6, 3, 6, 3), (2, 5, 2, 5), (0x0e, 4, 0x0a, 3), (0x18, 22, 0x18, 22), (0x1c, 4, 0x1c, 4), (0x10, 8, 0x10, 8), (7, 3, 7, 3))]
     + [S(("frame_decode", 3), ("frame_decode", 2))])

prop("P04", "frames written to the wire",
     "any field values; data of 0, 1, 3, 63, 64, 255, 256, 300, 1200, 16384 bytes; frames received from the wire written again",
     [I("frame_encode", k, n, covers=["encoded"]) for k in range(20) for n in ((0, 1, 3, 63, 64, 255, 256, 300, 1200) if k in (5, 6, 7, 18, 19) else (0,))]
     + [I("frame_encode", k, 16384, covers=["encoded"], cost=20, long=True) for k in (5, 6, 7, 18, 19)]
     + [I("frame_decode_sized", t, n, covers=["decoded"], cost=2) for t in (2, 3) for n in (2, 10, 64, 300)]
     + [I("frame_twice", t, 22 if t == 0x18 else min(FULL.get(t, 1), 14), covers=["decoded"], cost=5) for t in FRAME_TYPES if t != 0x1f]
     + [S(("frame_encode", a, n), ("frame_encode", b, m), covers=["encoded"]) for a, n, b, m in ((5, 3, 5, 3), (7, 3, 7, 0), (7, 64, 5, 300), (18, 1, 18, 64), (14, 0, 14, 0), (6, 3, 6, 3))])

prop("P05", "payloads of several frames",
     "sequences of three frames of chosen kinds with any one-byte integers and any data; any payload of up to 4 (thorough 5) bytes; any "
     "few bytes after a first frame of every kind; pairs of related frames with any small integers; 64..1000 frames of one kind and up to 60 of all kinds in turn",
     [I("frames_encode", a, b, c, l, covers=["encoded"]) for a, b, c in
      ((0, 0, 1), (5, 1, 7), (7, 7, 7), (7, 0, 0), (6, 7, 18), (14, 16, 7), (19, 5, 3), (1, 7, 100), (7, 100, 100), (2, 10, 13), (4, 8, 9),
       (11, 12, 15), (17, 7, 5)) for l in (0, 1)]
     + [I("frames_decode", n, cost=2 * n) for n in range(5)] + [I("frames_decode", 5, cost=80, thorough=True)]
     + [I("frames_decode_after", t, k, 2, cost=4) for t, k in
        ((0x02, 4), (0x03, 7), (0x04, 3), (0x05, 2), (0x06, 2), (0x07, 2), (0x08, 2), (0x0a, 3), (0x0c, 3), (0x0e, 3), (0x0f, 3), (0x10, 1),
         (0x11, 2), (0x12, 1), (0x14, 1), (0x15, 2), (0x17, 1), (0x18, 6), (0x19, 1), (0x1c, 4), (0x1d, 3), (0x1e, 0), (0x00, 0), (0x01, 0))]
     + [I("frames_pair", t, k, u, l, covers=["decoded"], cost=4) for t, k, u, l in
        ((6, 3, 6, 3), (0x0a, 3, 0x0a, 3), (0x0e, 4, 0x0e, 4), (0x0a, 3, 0x0e, 4), (0x0e, 4, 0x0f, 4), (0x0b, 3, 0x0b, 3), (2, 4, 2, 4), (2, 6, 2, 4), (3, 7, 3, 7), (7, 2, 7, 2), (4, 3, 4, 3),
         (5, 2, 5, 2), (0x10, 1, 0x10, 1), (0x11, 2, 0x11, 2), (0x12, 1, 0x12, 1), (0x12, 1, 0x13, 1), (0x14, 1, 0x14, 1), (0x15, 2, 0x15, 2), (0x16, 1, 0x17, 1), (0x19, 1, 0x19, 1),
         (0x1a, 8, 0x1a, 8), (0x1b, 8, 0x1b, 8), (0x1a, 8, 0x1b, 8), (0x1c, 3, 0x1c, 3), (0x1d, 2, 0x1d, 2), (0x18, 20, 0x19, 1), (6, 3, 0x0a, 3), (4, 3, 0x0e, 3), (0x1e, 0, 0x1e, 0))]
     + [I("frames_many", k, n, a, covers=["encoded", "decoded"], cost=2) for k, n, a in
        ((0, 64, 7), (7, 300, 5), (7, 258, 7), (0, 257, 5), (0, 1000, 100), (1, 300, 18), (1, 65, 100), (7, 70, 7), (5, 100, 1), (100, 20, 7), (100, 60, 5), (14, 40, 3), (2, 260, 16), (6, 30, 19))])

prop("P06", "packet headers",
     "any 0..20 bytes; long headers with ids of 0, 1, 8, 19, 20, 21 and 255 bytes and any content",
     [I("header_decode", n, cost=n) for n in list(range(0, 19)) + [20]]
     + [I("header_decode", 26, cost=60, thorough=True)]
     + [I("header_decode_ids", d, s, k, v, cost=2) for d, s, k, v in
        ((0, 0, 0, 0), (20, 20, 0, 0), (20, 20, 5, 0), (8, 20, 3, 0), (20, 8, 0, 0), (21, 0, 30, 0), (0, 21, 30, 0), (21, 21, 0, 0), (19, 1, 1, 0), (255, 0, 3, 0),
         (0, 255, 3, 0), (1, 2, 0, 1), (21, 40, 4, 1), (255, 255, 8, 1), (8, 8, 4, 0))]
     + [S(("header_decode", 9), ("header_decode_ids", 8, 8, 0, 0)), S(("header_decode_ids", 8, 8, 0, 0), ("header_decode", 9)), S(("header_decode_ids", 8, 8, 0, 0), ("header_decode_ids", 20, 4, 0, 0), ("header_decode", 9)), S(("header_decode_ids", 8, 8, 0, 0), ("header_decode_ids", 8, 8, 0, 0)),
        S(("header_decode_ids", 21, 40, 4, 1), ("header_decode_ids", 20, 20, 0, 0))])

prop("P07", "version negotiation",
     "any 5..26 bytes with version 0; ids of up to 255 bytes with lists of up to 300 versions",
     [I("vn_decode", n, cost=n // 3) for n in range(1, 27)]
     + [I("vn_decode_ids", d, s, k, cost=3) for d, s, k in
        ((0, 0, 0), (0, 0, 4), (8, 8, 8), (8, 8, 9), (8, 8, 10), (8, 8, 11), (20, 20, 12), (21, 20, 4), (20, 21, 4), (255, 255, 16), (255, 0, 3), (0, 255, 4), (8, 8, 64), (8, 8, 256), (8, 8, 280), (20, 20, 281), (0, 8, 1200), (64, 128, 1028))]
     + [S(("vn_decode_ids", 8, 8, 8), ("vn_decode_ids", 8, 8, 4)), S(("vn_decode_ids", 21, 0, 8), ("vn_decode_ids", 0, 21, 0)), S(("header_decode_ids", 8, 8, 0, 0), ("vn_decode_ids", 8, 8, 8))])

prop("P08", "header protection bits", "any first byte, ids and masks; complete; packets of all kinds and number lengths",
     [I("hp_header", 1, covers=["long", "retry"]), I("hp_header", 0, covers=["short"])]
     # in whole packets, written and read
     + [I("packet_write", k, 8, 8, 0, 5, n, near, cost=c) for k in (0, 2) for n, near, c in ((4, 0, 2), (1, 1, 20), (1, 2, 20), (1, 3, 20))]
     + [I("packet_read", k, pl, 8, 8 if k else 0, 0, 5, n, 1, 0, 0, covers=["opened"], cost=2) for k in range(4) for pl in range(1, 5) for n in (0, 20)]
     + [S(("hp_header", 1), ("hp_header", 0), covers=["long", "retry", "short"]), S(("hp_header", 0), ("hp_header", 1), ("hp_header", 1), covers=["long", "retry", "short"])])

prop("P09", "packet numbers as sent and recovered",
     "any 62-bit packet number, acknowledged number and receiver state, every number space; complete; in packets of every kind",
     [I("pn_send_recv", s, a, cost=15, covers=["sent"]) for s in range(3) for a in range(2)]
     + [I("pn_recover", s, l, some, covers=["recovered"], cost=2) for s in range(3) for l in range(1, 5) for some in (0, 1)]
     + [I("packet_read", k, pl, 8, 0, 0, 7, 2, 0, 0, 3, covers=["opened"], cost=8) for k in range(4) for pl in range(1, 5)]
     + [I("packet_write", k, 8, 8, 0, 5, 4, near, cost=20) for k in (0, 2) for near in range(1, 5)])

prop("P10", "packet numbers are never reused",
     "any sending state; sequences of 2 (thorough 3) sends over mixed spaces, 4 sends from a fresh connection, packets sent between failed attempts",
     [I("pn_sequence", 1, cost=10), I("pn_sequence", 2, cost=60), I("pn_sequence", 3, cost=600, thorough=True)] + [I("pn_fresh", k, covers=["issued"], cost=2) for k in (1, 2, 3, 4)]
     + [I("pn_packets", n, plan, covers=["sent"], cost=20) for n, plan in ((6, 1450), (6, 10145), (7, 1020545), (7, 1031545), (6, 6010 * 100 + 45), (8, 10310045)) ])

prop("P11", "packets on the wire",
     "Initial and Handshake packets, id lengths 0,1,2,8,19,20, tokens of 0..300 bytes, payloads of 1..1200 and 16400 bytes, a token of 16390, numbers of "
     "1..4 bytes from any acknowledged state; up to 4 packets of one connection, each written twice",
     [I("packet_write", k, d, s, t, fk, n, 0, cost=2) for k, d, s, t, fk, n in
      ((0, 8, 8, 0, 5, 4), (0, 20, 0, 1, 5, 3), (0, 0, 20, 5, 7, 3), (0, 8, 8, 64, 5, 40), (0, 8, 8, 0, 5, 64), (0, 8, 20, 70, 18, 70), (0, 1, 2, 0, 1, 0),
       (0, 8, 8, 0, 1, 2), (0, 8, 8, 0, 1, 1), (2, 8, 8, 0, 5, 4), (2, 20, 0, 0, 7, 3), (2, 0, 20, 0, 18, 40), (2, 8, 8, 0, 5, 64), (2, 8, 8, 0, 1, 0),
       (2, 8, 8, 0, 14, 0), (0, 8, 8, 3, 19, 20), (2, 8, 8, 0, 6, 43),
       (0, 8, 8, 0, 5, 300), (2, 8, 8, 0, 5, 300), (0, 8, 8, 256, 5, 4), (0, 8, 8, 300, 7, 256), (0, 20, 20, 0, 5, 1200), (2, 20, 20, 0, 7, 1200), (0, 8, 8, 63, 5, 42),
       (2, 8, 8, 0, 5, 39), (2, 8, 8, 0, 5, 40), (2, 8, 8, 0, 5, 41), (0, 19, 1, 0, 5, 236), (2, 1, 19, 0, 5, 16400), (0, 8, 8, 0, 5, 16400), (0, 8, 8, 16390, 5, 4))]
     + [I("packet_write", k, 8, 8 if k else 4, 1 - k // 2, 5, 4, near, cost=20) for k in (0, 2) for near in (1, 2, 3, 4)]
     + [I("packets_written", len(t), *t, covers=["written"], cost=8) for t in ((0, 0), (2, 2), (0, 2), (0, 2, 0, 2))])

_read = []
_o = dict(covers=["opened"])
for _k in (0, 1, 2, 3):
    for _pl in (1, 2, 3, 4):
        _read.append(I("packet_read", _k, _pl, 8, 8, 1 if _k == 0 else 0, 5, 3, 1, 0, 3, cost=2, **_o))
        _read.append(I("packet_read", _k, _pl, 8, 0, 0, 7, 2, 0, 0, 3, cost=8, **_o))
        # the smallest packets
        _read.append(I("packet_read", _k, _pl, 8, 0, 0, 1, 0, 1, 0, max(0, 3 - _pl), cost=2, **_o))
_read += [I("packet_read", 0, 2, 20, 20, 70, 18, 30, 1, 0, 3, cost=2, **_o), I("packet_read", 0, 1, 0, 20, 5, 5, 64, 1, 0, 3, cost=2, **_o),
          I("packet_read", 2, 2, 20, 0, 0, 14, 0, 1, 0, 3, cost=2, **_o), I("packet_read", 2, 1, 0, 0, 0, 5, 64, 1, 0, 3, cost=2, **_o),
          I("packet_read", 3, 1, 8, 0, 0, 5, 64, 1, 0, 3, cost=2, **_o), I("packet_read", 1, 4, 3, 5, 0, 19, 9, 1, 0, 3, cost=2, **_o)]
# large ones
_read += [I("packet_read", _k, 1 + (_k + _n) % 4, 8, 8, _n % 7 if _k == 0 else 0, _fk, _n, 1, 0, 2, cost=2, **_o) for _k in (0, 1, 2, 3) for _fk, _n in ((5, 240), (7, 300), (5, 1200))
          if not (_k == 1 and _fk == 5) and not (_k in (0, 2) and _fk == 7)]
_read += [I("packet_read", 0, 2, 8, 8, _n, 5, 4, 1, 0, 2, cost=2, **_o) for _n in (64, 255, 256, 300, 1000)]
_read += [I("packet_read", _k, 3, 8, 8, 0, 1, 0, 1, 0, _n, cost=2, **_o) for _k in (0, 1, 2, 3) for _n in (64, 300)]
_read += [I("packet_read", _k, 2, 8, 8, 0, 7 if _k % 2 else 5, _n, 1, 0, 1, cost=4, **_o) for _k, _n in ((3, 1430), (3, 1500), (3, 4040), (1, 4000), (0, 4000), (2, 2040))]
_read += [I("packet_read", 2, 1, 8, 8, 0, 5, 16400, 1, 0, 0, cost=9, long=True, **_o)]
# every size of the length fields
_read += [I("packet_read", _k, 1 + _e % 4, 8, 3, 1 if _k == 0 else 0, 5, 3, 1, _e, 3, cost=2, **_o) for _k in (0, 1, 2) for _e in ((1, 2, 3, 4) if _k else (11, 12, 13, 14, 21, 32, 43, 44))]
# every frame in a packet of every kind that may hold it
_read += [I("packet_read", 3, 1 + _fk % 4, 8, 0, 0, _fk, 5, 1, 0, 3, cost=2, **_o) for _fk in range(25)]
_read += [I("packet_read", 1, 1 + _fk % 4, 8, 0, 0, _fk, 5, 1, 0, 3, cost=2, **_o) for _fk in (0, 1, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 18)]
_read += [I("packet_read", _k, 1 + _fk % 4, 8, 0, 0, _fk, 5, 1, 0, 3, cost=2, **_o) for _k in (0, 2) for _fk in (0, 1, 18, 20, 21, 22)]
_turn = [I("packets_in_turn", len(_t), *_t, covers=["opened"], cost=4) for _t in
         ((1, 2), (21, 22), (13, 31), (31, 32), (101, 2, 121), (131, 32, 113), (201, 2, 221, 22), (231, 33), (1, 21, 31, 2, 22, 32))]
prop("P12", "packets from a correct peer are opened",
     "Initial, 0-RTT, Handshake and 1-RTT packets, numbers of 1..4 bytes, any number and receiver state in the recovery window, any ids, "
     "tokens up to 1000 bytes, payloads up to 4040 and of 16400 bytes; packets between two endpoints of the library; up to 6 packets of one "
     "connection in turn, after changed copies and other bytes",
     _read + _turn + [I("packet_between", k, t, fk, n, 0, covers=["opened"], cost=2) for k, t, fk, n in
              ((0, 0, 5, 4), (0, 3, 7, 2), (0, 64, 18, 20), (2, 0, 5, 4), (2, 0, 7, 2), (2, 0, 18, 30), (0, 1, 5, 64), (2, 0, 5, 64), (0, 300, 5, 300), (2, 0, 5, 1200), (0, 0, 5, 1162))]
     + [I("packet_between", k, 1 - k // 2, 5, 4, near, covers=["opened"], cost=30) for k in (0, 2) for near in (1, 2, 3, 4)])

prop("P13", "coalesced packets",
     "two to five packets of mixed orders of kinds in one datagram, up to 130 small ones, numbers of 1..4 bytes, payloads of 1..1000 bytes, any contents",
     [I("coalesced", 3, a, b, c, 0, 0, 0, 0, s, covers=["opened"], cost=8) for a, b, c, s in
      ((13, 221, 312, 8), (21, 112, 334, 0), (212, 13, 311, 4), (43, 31, 215, 8), (222, 234, 321, 1), (11, 12, 13, 0), (113, 122, 341, 8), (31, 241, 119, 2))]
     + [I("coalesced", 2, a, b, 0, 0, 0, 0, 0, s, covers=["opened"], cost=4) for a, b, s in
        ((13, 312, 8), (221, 312, 0), (112, 11, 8), (211, 22, 20), (19, 245, 8), (349, 0, 0)) if b]
     + [I("coalesced", 4, 13, 112, 221, 312, 0, 0, 0, 8, covers=["opened"], cost=10), I("coalesced", 5, 13, 112, 221, 22, 331, 0, 0, 8, covers=["opened"], cost=30)]
     + [I("coalesced", 2, a, b, 0, 0, 0, 0, 0, s, covers=["opened"], cost=4) for a, b, s in
        ((213, 1310, 8), (13, 1320, 8), (1210, 1330, 0), (1010, 1340, 0), (1040, 1230, 4), (1110, 1010, 8), (1220, 1210, 0), (113, 1130, 0),
         (20213, 40212, 8), (210013, 20112, 8), (30013, 20312, 0), (10211, 40112, 0))]
     # large packets
     + [I("coalesced", 2, a, b, 0, 0, 0, 0, 0, s, covers=["opened"], cost=4) for a, b, s in
        ((300000013, 312, 8), (13, 300000312, 0), (240000211, 240000322, 8), (60000112, 256000311, 0), (1000000011, 212, 8), (300000123, 70000231, 4))]
     + [I("coalesced", 3, 300000013, 500000221, 300000312, 0, 0, 0, 0, 8, covers=["opened"], cost=8)]
     # many packets
     + [I("coalesced_many", n, k, l, covers=["opened"], cost=n // 2, long=n > 100) for n, k, l in ((9, 3, 1), (18, 0, 0), (34, 2, 1), (66, 1, 0), (130, 3, 1))]
     + [I("coalesced_unreadable", o) for o in (0, 1)])

_t = []
for _k, _pl, _hi in ((0, 1, 46), (0, 4, 50), (2, 2, 45), (1, 1, 45), (3, 2, 38), (3, 1, 36)):
    _f = 0
    while _f < _hi:
        # around the id lengths one byte at a time
        _w = 1 if _k != 3 and (4 <= _f < 6 or 14 <= _f < 20) else 2
        _t.append(I("tamper", _k, _pl, _f, _f + _w, 0, 0, _f // 2 % 2, cost=20 if _w == 1 else 3,
                    thorough=_pl == 4 and _f in (5, 14)))
        _f += _w
for _k, _pl in ((0, 2), (2, 1), (3, 1)):
    for _c, _e in ((1, 0), (2, 0), (5, 0), (16, 0), (17, 0), (20, 0), (0, 1), (0, 3)):
        _t.append(I("tamper", _k, _pl, 0, 0, _c, _e, 1, cost=3))
prop("P14", "modified packets are rejected",
     "any pair of adjacent bytes of Initial, 0-RTT, Handshake and 1-RTT packets replaced by anything, packets cut or extended; any byte of the ids, "
     "token, number, payload and tag of packets with ids of up to 20, tokens of up to 300 and payloads of up to 1200 bytes; payload "
     "decryption with any ciphertext, associated data and number",
     _t + [I("tamper_region", k, pl, d, sc, t, n, r, f, covers=["accepted", "rejected"], cost=5) for k, pl, d, sc, t, n, r, f in
           ((0, 1, 20, 20, 0, 5, 0, 1), (0, 2, 20, 20, 5, 5, 1, 1), (0, 3, 8, 0, 70, 5, 2, 1), (0, 4, 8, 8, 300, 5, 2, 1), (0, 1, 8, 8, 0, 300, 3, 1), (0, 2, 0, 8, 64, 1, 4, 1),
            (0, 2, 8, 8, 0, 5, 5, 0), (0, 1, 8, 8, 0, 5, 3, 0), (1, 4, 20, 3, 0, 5, 0, 1), (1, 2, 8, 20, 0, 5, 1, 1), (1, 1, 8, 8, 0, 300, 3, 1), (1, 2, 8, 8, 0, 60, 4, 1), (1, 3, 8, 8, 0, 5, 5, 0),
            (2, 1, 20, 0, 0, 5, 0, 1), (2, 2, 8, 20, 0, 5, 1, 1), (2, 3, 8, 8, 0, 300, 3, 1), (2, 4, 8, 8, 0, 1000, 3, 1), (2, 1, 8, 8, 0, 300, 4, 1), (2, 2, 8, 8, 0, 5, 5, 0),
            (3, 1, 8, 0, 0, 5, 0, 1), (3, 2, 8, 0, 0, 300, 3, 1), (3, 3, 8, 0, 0, 1200, 3, 1), (3, 4, 8, 0, 0, 300, 4, 1), (3, 2, 8, 0, 0, 1200, 4, 1), (3, 1, 8, 0, 0, 4000, 4, 1), (0, 4, 8, 8, 0, 1200, 4, 1), (2, 3, 8, 8, 0, 1000, 4, 1), (1, 4, 8, 8, 0, 1200, 4, 1), (3, 4, 8, 0, 0, 5, 5, 0))]
     + [I("tamper_payload", n, m, d, covers=(["accepted"] if m == n + 16 else []) + ["rejected"]) for n, m, d in
           ((3, 19, 2), (0, 16, 1), (5, 21, 8), (3, 18, 2), (3, 20, 2), (3, 0, 2), (3, 15, 2), (3, 16, 2), (3, 35, 2), (3, 19, 0), (20, 36, 20))],
     ["AEAD opening is ideal: it succeeds exactly on what was sealed under the same key, nonce and associated data"])

prop("P15", "packet protection keys", "any destination id of 0..20 bytes, both roles; any secret of 0, 31, 32, 33, 48 bytes",
     [I("initial_keys", d, covers=["derived"]) for d in range(21)] + [I("traffic_keys", n) for n in (0, 31, 32, 33, 48)]
     + [I("packet_write", 0, d, 8, 0, 5, 4, 0, cost=2) for d in (0, 1, 7, 8, 16, 17, 19, 20)]
     + [I("packet_read", 0, 2, 8, 8, 0, 5, 3, 1, 0, 3, covers=["opened"], cost=2)]
     # one after the other
     + [S(("initial_keys", a), ("initial_keys", b), covers=["derived"]) for a, b in ((8, 8), (20, 20), (8, 20), (20, 8), (0, 8), (8, 7), (16, 17), (4, 4))]
     + [S(("traffic_keys", 32), ("traffic_keys", 32), covers=["derived"]), S(("initial_keys", 8), ("traffic_keys", 32), ("initial_keys", 8), covers=["derived"])])

prop("P16", "connection ids", "any id of 0..20 bytes; complete",
     [I("id_read", n, e, covers=["read"]) for n in range(21) for e in (0, 3)] + [I("id_write", covers=["written"])] + [I("id_u64", n) for n in (0, 7, 8, 9, 20)]
     # ids in headers, packets and frames
     + [I("header_decode_ids", d, s, 3, 0, cost=2) for d, s in ((0, 0), (1, 20), (20, 1), (16, 17), (17, 16), (15, 4), (8, 8), (19, 19), (20, 20))]
     + [I("packet_write", 2, d, s, 0, 5, 4, 0, cost=2) for d, s in ((0, 0), (1, 20), (20, 1), (16, 17), (17, 16), (4, 15), (8, 8))]
     + [I("frame_decode_kind", 0x18, n, cost=2) for n in (38, 40)] + [I("frame_encode", 14, 0, covers=["encoded"]), I("frame_twice", 0x18, 38, covers=["decoded"], cost=4)]
     + [S(("id_read", 8, 0), ("id_read", 8, 3)), S(("id_read", 20, 0), ("id_read", 8, 0)), S(("id_read", 8, 0), ("id_read", 20, 0)), S(("id_read", 0, 0), ("id_read", 1, 0), ("id_u64", 8)), S(("id_write",), ("id_read", 20, 0), covers=["written", "read"])])

prop("P17", "byte readers", "sources of 0..12 bytes ending or failing at any point, any count of bytes from a source of 540, of 64..4096 bytes at chosen points",
     [I("read_fixed", n) for n in list(range(0, 10)) + [15, 16, 17]] + [I("read_counted", n, b) for n in range(0, 13) for b in (0, 1)] + [I("read_failing", n) for n in list(range(0, 10)) + [21]]
     + [I("read_any_count", n, covers=["read"], cost=20) for n in (70, 540)] + [I("read_large", n, covers=["read", "failing source"]) for n in (64, 255, 256, 1000, 4096)]
     + [I("read_failing_frames", t, min(FULL.get(t, 1), 8)) for t in FRAME_TYPES] + [I("read_failing_header", n, cost=2) for n in (1, 6, 7, 9, 12)]
     + [S(("read_counted", 3, 1), ("read_counted", 2, 1), ("read_fixed", 8)), S(("read_failing", 3), ("read_failing", 2)), S(("read_fixed", 9), ("read_fixed", 4))])

prop("P18", "transport parameters", "every parameter, any value; ids of 0..20 bytes",
     [I("transport_parameter", i, n) for i in range(17) for n in (range(21) if i in (0, 13, 15, 16) else (0,))]
     + [S(("transport_parameter", a, n), ("transport_parameter", b, m)) for a, n, b, m in ((0, 8, 0, 20), (1, 0, 1, 0), (13, 8, 15, 4), (15, 20, 16, 3), (3, 0, 4, 0), (2, 0, 2, 0), (13, 20, 13, 0))])

prop("P19", "datagrams reach the connection they are for",
     "up to 6 connections under any ids (up to 70 of which two under any ids), up to 8 datagrams of up to 27 bytes or of 64..4096 bytes, "
     "up to 1100 queued datagrams, connections under any 20 byte ids, any source address, connections and handles dropped",
     [I("route_one", k, f, n, d) for k in (0, 1, 2, 3) for f, n, d in ((0, 9, 0), (0, 8, 0), (0, 20, 0), (0, 0, 0), (1, 15, 8), (1, 24, 8), (1, 14, 7), (1, 16, 9), (1, 27, 20), (1, 6, 8), (1, 12, 8))]
     + [I("route_order", k, m, n, cost=3) for k, m, n in ((1, 2, 10), (2, 2, 10), (2, 3, 9), (3, 3, 9), (1, 4, 9))] + [I("route_drop", k) for k in (1, 2, 3)]
     + [I("route_one", k, f, n, d, covers=["routed"]) for k, f, n, d in ((1, 0, 64, 0), (1, 0, 256, 0), (2, 0, 1200, 0), (1, 1, 1200, 8), (1, 0, 4096, 0), (2, 1, 1500, 8), (4, 0, 9, 0), (6, 0, 12, 0))]
     + [I("route_mixed", k, len(ps), *ps, covers=["routed"], cost=6) for k, ps in ((1, (9, 10020, 9)), (2, (10020, 9)), (2, (9, 9, 9, 9)), (1, (9,) * 7), (2, (1200, 10300, 1500)), (1, (9, 20, 9, 64, 9)))]
     + [I("route_order", 1, 8, 9, cost=8), I("route_order", 2, 4, 300, cost=4)]
     + [I("route_many", n, covers=["routed"], cost=n // 20) for n in (20, 70, 300, 1100)]
     + [I("route_one", k, 0, 9, 0, covers=["routed"], cost=3) for k in (9, 20, 70)] + [I("route_drop", 9), I("route_drop", 34)]
     + [I("route_wide", k, d, covers=["gone"] + ["routed"] * (d == 20), cost=3) for k, d in ((1, 20), (2, 20), (3, 20), (2, 0), (2, 8), (2, 12), (2, 19))]
     + [I("stream_drop", k, i, n, covers=["dropped"]) for k, i, n in ((1, 0, 0), (2, 0, 1), (2, 1, 0), (3, 1, 2), (3, 2, 1), (4, 0, 0))])

prop("P20", "new connections",
     "0..3 connections, up to 4 datagrams of any content up to 24 bytes or of 64..4096 bytes, a new Initial after up to 300 others, any IPv4 and IPv6 source address, traffic logging on and off",
     [I("recv_initial", k, len(ps), *ps, cost=10) for k, ps in
      ((0, (10015,)), (0, (15,)), (0, (20007,)), (1, (10015,)), (1, (10024,)), (1, (20009,)), (1, (15,)), (1, (10015, 20009)), (1, (15, 10015)), (2, (9, 10015)),
       (1, (20005, 10015)), (1, (10015, 10015)), (2, (15, 15)), (0, (20000, 10015)), (2, (10015, 15, 10015)),
       (10, (10015,)), (11, (10015, 9)), (11, (9, 10015)), (11, (20007,)), (11, (20000, 20001, 10015)),
       (0, (11200,)), (1, (11200,)), (1, (64, 11200)), (1, (1200, 10256)), (1, (11500,)), (0, (14096,)), (1, (4096, 14000)), (3, (9, 10015)), (1, (9, 9, 9, 10015)))]
     + [I("recv_from_any", v, covers=["returned"]) for v in (0, 1)]
     + [I("recv_initial_after", n, k, covers=["returned"], cost=2 + n // 10) for n, k in ((0, 0), (7, 9), (20, 9), (70, 9), (300, 9), (20, 0), (20, 2), (20, 3), (20, 4), (20, 5), (20, 6), (70, 1))])

prop("P21", "keys and spaces are kept apart",
     "every packet kind with every space's and direction's keys, keys present or absent per direction",
     [I("keys_missing", s, cost=6) for s in range(3)]
     + [I("keys_wrong", k, w, pl, covers=["sent"], cost=4) for k in range(4) for w, pl in ((0, 1), (1, 2), (2, 1), (10, 1), (11, 2), (12, 1), (20, 1))]
     + [S(("keys_wrong", 0, 1, 2), ("keys_wrong", 2, 0, 1), covers=["sent"]), S(("keys_wrong", 3, 12, 1), ("keys_wrong", 3, 2, 1), covers=["sent"])])

prop("P22", "datagrams are opened with the keys of the connection they are for",
     "up to 3 connections under any ids, up to 40 of which two under any ids, ids of other lengths, packets of every kind that has keys, addressed to and sealed for every pair of connections, logging on and off",
     [I("receive_for", k, i, j, kind, 1 + (i + j + kind) % 4, covers=["sent"], cost=3) for k, i, j in ((1, 0, 0), (2, 0, 0), (2, 1, 1), (2, 0, 1), (2, 1, 0), (3, 1, 1), (3, 2, 0)) for kind in (0, 1, 2, 3)]
     + [I("receive_for", 2, i, j, kind, 2, 1, covers=["sent"], cost=3) for i, j in ((0, 0), (1, 0)) for kind in (0, 2, 3)]
     + [I("receive_coalesced", i, j, t, a, b, covers=["sent"], cost=4) for i, j, t in ((0, 0, 0), (1, 1, 1), (0, 1, 0), (0, 1, 1), (1, 0, 1), (1, 1, 0)) for a, b in ((0, 2), (2, 3), (1, 0))
        if not (i == j and t != i)]
     + [I("receive_unknown", k, kind, d, covers=["sent"]) for k in (1, 2) for kind in (0, 2, 3) for d in (0, 1)]
     + [I("receive_unknown", k, kind, 0, n + 1, covers=["sent"]) for k, kind, n in ((1, 0, 0), (1, 2, 1), (2, 0, 7), (1, 0, 9), (2, 2, 9), (1, 2, 16), (1, 1, 17), (1, 0, 20), (2, 2, 20))]
     + [I("receive_for", k, i, j, kind, 2, covers=["sent"], cost=5) for k, i, j, kind in ((9, 8, 8, 2), (9, 0, 8, 3), (9, 4, 4, 3), (40, 39, 39, 0), (40, 0, 39, 3))]
     # one after the other
     + [I("receive_in_turn", k, l, len(t), *t, covers=["sent"], cost=6) for k, l, t in
        ((2, 0, (300, 311)), (2, 0, (300, 301)), (2, 1, (200, 211, 200)), (2, 0, (0, 11, 300)), (2, 0, (310, 311, 300)), (1, 0, (300, 1300)), (2, 0, (311, 1311, 300)), (3, 0, (322, 311, 300)), (1, 0, (300, 200, 0)))])

prop("P23", "memory requested while reading",
     "every frame type with integers of any size, any datagram header with lengths of any size",
     [I("memory_frame", t, min(FULL.get(t, 2), 18), cost=2) for t in FRAME_TYPES] + [I("memory_frames", n, cost=n) for n in (1, 3, 4, 5)]
     + [I("memory_datagram", k, d, n, cost=20) for k, d, n in ((0, 3, 20), (1, 3, 24), (2, 3, 22), (3, 0, 30), (4, 3, 12))]
     + [I("memory_lengths", w, k, cost=5) for w in (0, 1) for k in (0, 8, 22)])

prop("P24", "key derivation",
     "labels of 0..250 bytes, contexts of 0..256 bytes, outputs of 0..8161 bytes, any content",
     [I("expand_label", l, c, o) for l, c, o in ((7, 0, 16), (0, 0, 32), (9, 32, 32), (249, 0, 12), (250, 0, 12), (3, 255, 16), (3, 256, 16), (3, 0, 255), (3, 0, 256), (1, 1, 300),
                                                 (1, 1, 8160), (1, 1, 8161), (300, 0, 16), (5, 300, 16), (4, 0, 0))]
     + [I("extract", s, i, o) for s, i, o in ((20, 8, 1), (20, 0, 1), (0, 20, 1), (0, 20, 0), (32, 32, 1), (64, 48, 1), (65, 1, 1))]
     + [S(("expand_label", 7, 0, 16), ("expand_label", 7, 0, 16)), S(("expand_label", 7, 0, 16), ("expand_label", 8, 0, 12), ("expand_label", 7, 0, 32)), S(("extract", 20, 8, 1), ("extract", 20, 8, 1)), S(("extract", 20, 8, 1), ("extract", 20, 20, 0))])

prop("P25", "a key and nonce is never used twice",
     "three (thorough five) packets of any mix of kinds from any sending state with numbers of 1..4 bytes, also between failed attempts; any two packet numbers",
     [I("nonce_injective", covers=["sealed"])] + [I("nonce_earlier", k, n, a, covers=["sent", "refused"], cost=10) for k in (0, 1) for n, a in ((1, 1), (2, 1), (2, 0))] + [I("nonce_unique", 3, 8 + m, covers=["sent"], cost=20) for m in range(8)]
     + [I("nonce_unique", 2, m, l, covers=["sent"], cost=20) for m, l in ((4, 1), (7, 2), (5, 3), (6, 1))]
     + [I("pn_packets", n, plan, covers=["sent"], cost=20) for n, plan in ((7, 1020545), (7, 1031545))]
     + [I("nonce_unique", 5, 32 + m, covers=["sent"], cost=90, thorough=True) for m in (0b01010, 0b11111, 0b00110)])

prop("P26", "threads on one socket",
     "up to three threads (accepting, waiting for new connections, dropping a connection or its handle, registering one, routing, decoding) on one "
     "socket with two connections under any ids and up to two datagrams for any ids, any schedule with at most two (thorough three) "
     "preemptions, switching where locks are taken",
     [I("threads", *p, covers=["finished", "preempted"], cost=c, thorough=t) for p, c, t in [
         ((1, 3, 1, 0, 1, 2), 1, False),
         ((2, 3, 2, 0, 1, 1, 2), 5, False),
         ((2, 3, 2, 0, 1, 1, 3), 5, False),
         ((2, 2, 2, 1, 2, 1, 1), 5, False),
         ((12, 2, 2, 0, 1, 1, 1), 5, False),
         ((2, 2, 2, 0, 1, 1, 1, 2), 20, False),
         ((2, 2, 2, 1, 2, 1, 2, 5), 20, False),
         ((2, 2, 1, 1, 1, 3, 6), 20, False),
         ((2, 2, 1, 1, 1, 4, 7), 5, False),
         ((2, 2, 1, 0, 1, 2, 7), 5, False),
         ((2, 2, 0, 2, 5, 6), 5, False),
         ((12, 2, 0, 3, 5, 6), 5, False),
         ((2, 2, 0, 2, 4, 7), 5, False),
         ((2, 2, 1, 1, 1, 1, 1), 5, False),
         ((1, 3, 1, 1, 8, 2), 5, False),
         ((1, 2, 2, 1, 1, 8, 8), 10, False),
         ((1, 2, 2, 1, 0, 8, 1, 4), 20, False),
         ((2, 2, 2, 1, 1, 8, 3, 7), 20, False),
         ((12, 2, 1, 1, 8, 5, 2), 20, False),
         ((2, 2, 1, 0, 1, 9, 2), 20, False),
         ((12, 2, 1, 0, 1, 9), 20, False),
         ((11, 2, 0, 9, 3), 5, False),
         ((20, 2, 2, 1, 1, 8, 8), 90, False),
         ((2, 3, 2, 0, 1, 1, 1, 2), 60, True),
         ((1, 3, 2, 1, 1, 8, 8, 3), 60, True),
         ((2, 3, 2, 0, 1, 8, 1, 2), 60, True),
         ((2, 2, 3, 0, 1, 2, 1, 1, 2), 120, True),
         ((2, 2, 2, 1, 0, 1, 3, 4, 6), 100, True),
         ((2, 3, 2, 1, 2, 1, 2, 5), 60, True),
     ]],
     ["threads switch only before a lock is taken, when they wait and when they end; between these points they touch only their own data "
      "and data behind locks they hold (the code has no unsafe blocks there), and std's channel is taken to be correct; futexes wake "
      "waiters in order; a thread receiving on the socket waits until every other thread is done, then the receive fails"])

prop("P28", "error codes", "every error; complete", [I("error_codes", covers=["code"])])

prop("P29", "accepting connections",
     "0..3 registered connections under any ids (up to 34 of which two under any ids), each with a queued datagram; one or two clients (thorough three) choosing any id of 8 "
     "bytes (other lengths 0, 1, 7, 9, 16, 20 for one client); a random generator that yields any bytes, ids in use included, at most "
     "twice (one connection: 200 times; two clients: once; thorough twice); datagrams for other connections in between",
     [I("accept", k, l, 1, b, 2, covers=["accepted"]) for k in (0, 1, 2) for l in (0, 1, 7, 8, 9, 16, 20) for b in (0, 1)]
     + [I("accept", k, 8, 2, 0, 1, covers=["accepted", "the random id was in use"], cost=10) for k in (0, 1, 2)]
     + [I("accept", 3, 8, 1, 0, 2, covers=["the random id was in use"], cost=10), I("accept", 9, 8, 1, 0, 1, covers=["accepted"], cost=10), I("accept", 1, 8, 1, 0, 40, covers=["the random id was in use"], cost=10), I("accept", 1, 8, 1, 1, 200, covers=["the random id was in use"], cost=20), I("accept", 34, 8, 1, 0, 0, covers=["accepted"], cost=10), I("accept", 1, 8, 2, 1, 2, thorough=True, cost=50),
        I("accept", 1, 8, 3, 0, 1, thorough=True, cost=50)],
     ["accept is unfinished: it panics (todo!()) after registering the connection; what is judged is what it did until then"])
