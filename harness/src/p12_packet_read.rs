use crate::p04_frame_encode::make;
use crate::{crypt::Keys, crypt::long_head_enc, spec, spec::VARINT_MAX, util, vx};
use quic_sea::verif_hooks as q;

/// A packet a correct peer sends: wire image, unprotected header, number, number bytes, payload.
pub struct Sent {
    pub wire: Vec<u8>,
    pub head: Vec<u8>,
    pub pn: u64,
    pub pn_len: usize,
    pub payload: Vec<u8>,
    pub kind: u64,
    pub token: Vec<u8>,
}

/// installs keys for packets of a kind (0 Initial, 1 0-RTT, 2 Handshake, 3 1-RTT) from the peer
pub fn peer_keys(c: &mut q::Connection, kind: u64, peer_server: bool, dcid: &[u8]) -> Keys {
    if kind == 0 {
        Keys::initial(peer_server, dcid)
    } else {
        // keys are opaque: any two different secrets stand for all
        let secret = [kind as u8 + 1; 32];
        let other = [kind as u8 + 101; 32];
        let sp = if kind == 2 { 1 } else { 2 };
        c.verif_set_secrets(util::space(sp), Some(util::secrets(&other)), Some(util::secrets(&secret)));
        Keys::of(&secret)
    }
}

pub fn space_of(kind: u64) -> u64 {
    match kind {
        0 => 0,
        2 => 1,
        _ => 2,
    }
}

/// any state in which the number is recoverable
pub fn receiving(c: &mut q::Connection, kind: u64, pn: u64, pn_len: usize, first: bool) {
    if first {
        vx::assume(pn >> (8 * pn_len) == 0);
    } else {
        let r = vx::u64();
        let half = 1u64 << (8 * pn_len - 1);
        vx::assume(r < VARINT_MAX);
        let e = r + 1;
        vx::assume(if pn >= e { pn - e <= half } else { e - pn < half });
        c.verif_set_largest_remote_ack(util::space(space_of(kind)), Some(r));
    }
}

pub fn send(keys: &Keys, kind: u64, dcid: &[u8], scid: &[u8], tl: usize, pn: u64, pn_len: usize, payload: Vec<u8>) -> Option<Sent> {
    send_enc(keys, kind, dcid, scid, tl, pn, pn_len, payload, 0)
}

/// `enc`: sizes of the token length field (tens) and of the length field (units), see put_varint_as
pub fn send_enc(
    keys: &Keys, kind: u64, dcid: &[u8], scid: &[u8], tl: usize, pn: u64, pn_len: usize, payload: Vec<u8>, enc: u64,
) -> Option<Sent> {
    let token = vx::bytes(tl);
    let head = if kind == 3 {
        // spin and key phase bits are free, reserved bits are zero
        let mut h = vec![0x40 | vx::u8() & 0x24 | (pn_len as u8 - 1)];
        h.extend_from_slice(dcid);
        h
    } else {
        long_head_enc(kind as u8, pn_len, 1, dcid, scid, if kind == 0 { Some(&token) } else { None }, payload.len(), (enc / 10, enc % 10))
    };
    let wire = keys.protect(&head, pn, pn_len, &payload)?;
    Some(Sent { wire, head, pn, pn_len, payload, kind, token })
}

/// the decoded packet says what was sent
pub fn matches(p: &q::Packet, s: &Sent) {
    let kind = match p {
        q::Packet::Initial(_) => 0,
        q::Packet::ZeroRtt(_) => 1,
        q::Packet::Handshake(_) => 2,
        q::Packet::OneRtt(_) => 3,
        _ => 9,
    };
    vx::check(kind == s.kind, "the packet type is the one sent");
    if let q::Packet::Initial(p) = p {
        vx::check(vx::same(p.verif_token(), &s.token), "the token is the one sent");
    }
    match p.verif_parts() {
        Some((h, pn, b, fs)) => {
            vx::log(pn);
            vx::check(h.len() <= s.head.len() && vx::same(&h, &s.head[..h.len()]), "the unprotected header is the one sent");
            vx::check(pn == s.pn, "the packet number is the one sent");
            vx::check(vx::same(b, &s.pn.to_be_bytes()[8 - s.pn_len..]), "the packet number bytes are those sent");
            match q::serialize_frames(fs, false) {
                Ok(g) => vx::check(vx::same(&g, &s.payload), "the frames are those sent"),
                Err(_) => vx::check(false, "the frames are those sent"),
            }
        }
        None => vx::check(false, "the packet type is the one sent"),
    }
}

/// any packet of a kind from a correct peer is opened
#[no_mangle]
pub extern "C" fn packet_read() {
    let (kind, pn_len) = (vx::param(0), vx::param(1) as usize);
    let (dl, sl, tl) = (vx::param(2) as usize, vx::param(3) as usize, vx::param(4) as usize);
    let (fk, n, first) = (vx::param(5), vx::param(6) as usize, vx::param(7) == 1);
    let (enc, pings) = (vx::param(8), vx::param(9));
    let server = vx::bool();
    let key_id = vx::bytes(8);
    let dcid = vx::bytes(if kind == 3 { 8 } else { dl });
    let scid = vx::bytes(sl);
    let mut c = util::connection(server, &key_id);
    let keys = peer_keys(&mut c, kind, !server, &key_id);
    let pn = vx::u64();
    vx::assume(pn <= VARINT_MAX);
    receiving(&mut c, kind, pn, pn_len, first);
    let mut payload = Vec::new();
    if fk < 20 {
        let (_, w, _) = make(fk, n, true);
        spec::put(&mut payload, &w, true);
    } else {
        // frames the library has no constructor for: type byte, one-byte integers (0xff: any)
        let any = 0xff;
        let form: &[u8] = match fk {
            20 => &[0x02, any, any, 2, any, any, any, any, any],
            21 => &[0x03, any, any, 1, any, any, any, any, any, any],
            22 => &[0x06, any, 2, 7, 8],
            23 => &[0x0f, any, 33, 2, 7, 8],
            _ => &[0x0e, any, 33, 0],
        };
        for b in form {
            payload.push(if *b == any { vx::u8() & 0x3f } else { *b });
        }
    }
    for _ in 0..pings {
        payload.push(1);
    }
    let s = match send_enc(&keys, kind, &dcid, &scid, tl, pn, pn_len, payload, enc) {
        Some(s) => s,
        None => {
            vx::check(false, "test packets are long enough");
            return;
        }
    };
    let mut st = q::make_result_stream(&s.wire);
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            vx::cover("opened");
            vx::log_bytes(&s.wire);
            vx::check(ps.len() == 1, "one packet is delivered once");
            for p in &ps {
                matches(p, &s);
            }
        }
        Err(_) => vx::check(false, "a packet from a correct peer is opened"),
    }
}

/// what one endpoint of the library writes, the other endpoint reads
#[no_mangle]
pub extern "C" fn packet_between() {
    let (kind, tl, fk, n) = (vx::param(0), vx::param(1) as usize, vx::param(2), vx::param(3) as usize);
    let near = vx::param(4);
    let server = vx::bool();
    let dcid = vx::bytes(8);
    let scid = vx::bytes(8);
    let sp = space_of(kind);
    let mut a = util::connection(server, &dcid);
    let mut b = util::connection(!server, &dcid);
    a.set_scid(util::u160(&scid), 8);
    if kind == 2 {
        let (s1, s2) = ([1u8; 32], [2u8; 32]);
        a.verif_set_secrets(util::space(1), Some(util::secrets(&s1)), Some(util::secrets(&s2)));
        b.verif_set_secrets(util::space(1), Some(util::secrets(&s2)), Some(util::secrets(&s1)));
    }
    let pn = crate::p11_packet_write::sending(&mut a, sp, near);
    if near > 0 {
        // the receiver has the acknowledged number, or anything up to this one
        let r = vx::u64();
        vx::assume(r < pn && pn - r < 1 << (8 * near - 1));
        b.verif_set_largest_remote_ack(util::space(sp), Some(r));
    }
    let token = vx::bytes(tl);
    let (f, w, _) = make(fk, n, true);
    let mut payload = Vec::new();
    spec::put(&mut payload, &w, true);
    let mut fs = vec![f];
    for _ in 0..3 {
        fs.push(q::Frame::Ping);
        payload.push(1);
    }
    let r = if kind == 0 {
        q::PacketInitial::new(fs, Some(token.clone()), &mut a).and_then(|p| p.verif_serialize(&a))
    } else {
        q::PacketHandshake::new(fs, &mut a).and_then(|p| p.verif_serialize(&a))
    };
    let wire = match r {
        Ok(w) => w,
        Err(_) => {
            vx::check(false, "a packet can be written");
            return;
        }
    };
    let mut st = q::make_result_stream(&wire);
    match q::decode_packets(&mut st, &b) {
        Ok(ps) => {
            vx::cover("opened");
            vx::log_bytes(&wire);
            vx::check(ps.len() == 1, "one packet is delivered once");
            for p in &ps {
                if let q::Packet::Initial(p) = p {
                    vx::check(vx::same(p.verif_token(), &token), "the token is the one sent");
                }
                match p.verif_parts() {
                    Some((_, n, _, fs)) => {
                        vx::check(n == pn, "the packet number is the one sent");
                        match q::serialize_frames(fs, false) {
                            Ok(g) => vx::check(vx::same(&g, &payload), "the frames are those sent"),
                            Err(_) => vx::check(false, "the frames are those sent"),
                        }
                    }
                    None => vx::check(false, "the packet type is the one sent"),
                }
            }
        }
        Err(_) => vx::check(false, "what one endpoint writes the other opens"),
    }
}

/// Packets of the kinds given (kind * 10 + number length) in datagrams of their own, one after the
/// other on one connection: each is opened, whatever came before. From 100 on, the packet comes with
/// a changed byte first and then as sent; from 200 on, bytes of any value come first.
#[no_mangle]
pub extern "C" fn packets_in_turn() {
    let count = vx::param(0);
    let server = vx::bool();
    let dcid = vx::bytes(8);
    let mut c = util::connection(server, &dcid);
    let k0 = peer_keys(&mut c, 0, !server, &dcid);
    let k2 = peer_keys(&mut c, 2, !server, &dcid);
    let k3 = peer_keys(&mut c, 3, !server, &dcid);
    let mut numbers: Vec<u8> = Vec::new();
    for i in 0..count {
        let p = vx::param(1 + i);
        let (kind, pn_len, before) = (p / 10 % 10, (p % 10) as usize, p / 100);
        let keys = match kind {
            0 => &k0,
            2 => &k2,
            _ => &k3,
        };
        // any order; close enough to be recovered after any of the others
        let pn = vx::u8();
        vx::assume(pn < 127);
        for o in &numbers {
            vx::assume(*o != pn);
        }
        numbers.push(pn);
        let mut payload = vec![6, 0, 2];
        payload.extend(vx::bytes(2));
        let s = match send(keys, kind, &dcid, &[7, 8], (kind == 0) as usize, pn as u64, pn_len, payload) {
            Some(s) => s,
            None => {
                vx::check(false, "test packets are long enough");
                return;
            }
        };
        if before == 1 {
            let mut w = s.wire.clone();
            let n = w.len();
            let d = vx::u8();
            vx::assume(d != 0);
            w[n - 1] ^= d;
            vx::check(q::decode_packets(&mut q::make_result_stream(&w), &c).is_err(), "a changed packet is not delivered");
        }
        if before == 2 {
            let mut w = s.wire[..if kind == 3 { 9 } else { 17 }].to_vec();
            w.extend(vx::bytes(2));
            let _ = q::decode_packets(&mut q::make_result_stream(&w), &c);
        }
        match q::decode_packets(&mut q::make_result_stream(&s.wire), &c) {
            Ok(ps) => {
                vx::log_bytes(&s.wire);
                vx::check(ps.len() == 1, "one packet is delivered once");
                for p in &ps {
                    matches(p, &s);
                }
            }
            Err(_) => vx::check(false, "a packet from a correct peer is opened"),
        };
    }
    vx::cover("opened");
}
