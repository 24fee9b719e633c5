use crate::p12_packet_read::{matches, peer_keys, send, send_enc, space_of, Sent};
use crate::{util, vx};
use quic_sea::verif_hooks as q;

/// several packets in one datagram, each with the sizes of its length fields: all are delivered, in order, with their own contents
#[no_mangle]
pub extern "C" fn coalesced() {
    let count = vx::param(0) as usize;
    let server = vx::bool();
    let dcid = vx::bytes(8);
    let scid = vx::bytes(vx::param(8) as usize);
    let mut c = util::connection(server, &dcid);
    // keys per packet type; 0-RTT and 1-RTT packets share a number space, and here keys
    let k0 = peer_keys(&mut c, 0, !server, &dcid);
    let k2 = peer_keys(&mut c, 2, !server, &dcid);
    let k3 = peer_keys(&mut c, 3, !server, &dcid);
    let mut sent: Vec<Sent> = Vec::new();
    let mut wire = Vec::new();
    for i in 0..count {
        let p = vx::param(1 + i as u64);
        let (kind, pn_len, n) = (p / 100 % 10, (p / 10 % 10) as usize, (p % 10) as usize);
        let (small, enc) = (p / 1000 % 10 == 1, p / 10000 % 100);
        let n = n + (p / 1000000) as usize;
        let keys = match kind {
            0 => &k0,
            2 => &k2,
            _ => &k3,
        };
        let pn = vx::u64();
        vx::assume(pn >> (8 * pn_len) == 0);
        // a peer never uses a packet number twice
        for o in &sent {
            vx::assume(space_of(o.kind) != space_of(kind) || o.pn != pn);
        }
        // a CRYPTO frame of n bytes, then PING frames
        let mut payload = vec![6, 0];
        crate::spec::put_varint(&mut payload, n as u64);
        payload.extend(vx::bytes(n));
        payload.extend([1, 1, 1]);
        if small {
            // as few PING frames as can be protected
            payload = vec![1; if pn_len < 4 { 4 - pn_len } else { 1 }];
        }
        match send_enc(keys, kind, &dcid, &scid, 1, pn, pn_len, payload, enc) {
            Some(s) => {
                wire.extend_from_slice(&s.wire);
                sent.push(s);
            }
            None => {
                vx::check(false, "test packets are long enough");
                return;
            }
        }
    }
    let mut st = q::make_result_stream(&wire);
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            vx::cover("opened");
            vx::log(ps.len() as u64);
            vx::check(ps.len() == sent.len(), "every packet of the datagram is delivered once");
            for (p, s) in ps.iter().zip(&sent) {
                matches(p, s);
            }
        }
        Err(_) => vx::check(false, "all packets of a datagram from a correct peer are opened"),
    }
}

/// many small packets (with given ciphertexts) in one datagram, of the kinds in turn, the last one optionally 1-RTT
#[no_mangle]
pub extern "C" fn coalesced_many() {
    cryptomodel::state().given_ciphertexts = true;
    let (count, kinds, last) = (vx::param(0) as usize, vx::param(1), vx::param(2) == 1);
    let dcid = vx::bytes(8);
    let mut c = util::connection(true, &dcid);
    let k0 = peer_keys(&mut c, 0, false, &dcid);
    let k2 = peer_keys(&mut c, 2, false, &dcid);
    let k3 = peer_keys(&mut c, 3, false, &dcid);
    let mut sent: Vec<Sent> = Vec::new();
    let mut wire = Vec::new();
    for i in 0..count {
        let kind = if last && i + 1 == count {
            3
        } else {
            match kinds {
                3 => i as u64 % 3,
                k => k,
            }
        };
        let keys = match kind {
            0 => &k0,
            2 => &k2,
            _ => &k3,
        };
        match send(keys, kind, &dcid, &[], 0, i as u64, 1, vec![6, 0, 1, vx::u8()]) {
            Some(s) => {
                wire.extend_from_slice(&s.wire);
                sent.push(s);
            }
            None => {
                vx::check(false, "test packets are long enough");
                return;
            }
        }
    }
    let mut st = q::make_result_stream(&wire);
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            vx::cover("opened");
            vx::log(ps.len() as u64);
            vx::check(ps.len() == sent.len(), "every packet of the datagram is delivered once");
            for (p, s) in ps.iter().zip(&sent) {
                matches(p, s);
            }
        }
        Err(_) => vx::check(false, "all packets of a datagram from a correct peer are opened"),
    }
}

/// A readable Initial and a Handshake packet the receiver has no keys for yet, in either order:
/// the readable one is delivered (RFC 9000 section 12.2).
#[no_mangle]
pub extern "C" fn coalesced_unreadable() {
    let first = vx::param(0) == 1;
    let server = vx::bool();
    let dcid = vx::bytes(8);
    let c = util::connection(server, &dcid);
    let k0 = crate::crypt::Keys::initial(!server, &dcid);
    let k2 = crate::crypt::Keys::of(&[3u8; 32]);
    let pn = vx::u8() as u64;
    let (a, b) = match (
        send(&k0, 0, &dcid, &[], 0, pn, 1, vec![1, 1, 1, 1]),
        send(&k2, 2, &dcid, &[], 0, pn, 1, vec![1, 1, 1, 1]),
    ) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    let wire = if first { [&b.wire[..], &a.wire[..]].concat() } else { [&a.wire[..], &b.wire[..]].concat() };
    let mut st = q::make_result_stream(&wire);
    vx::cover("sent");
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            vx::check(ps.len() == 1, "the readable packet is delivered once");
            for p in &ps {
                matches(p, &a);
            }
        }
        Err(_) => vx::check(false, "a packet without keys does not discard the rest of its datagram"),
    }
}
