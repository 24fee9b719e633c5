use crate::p12_packet_read::{matches, peer_keys, receiving, send};
use crate::{util, vx};
use quic_sea::verif_hooks as q;

/// A genuine packet with bytes from..to replaced by anything (and k bytes cut off or appended):
/// accepted only if nothing changed.
#[no_mangle]
pub extern "C" fn tamper() {
    let (kind, pn_len) = (vx::param(0), vx::param(1) as usize);
    let (from, to) = (vx::param(2) as usize, vx::param(3) as usize);
    let (cut, extra) = (vx::param(4) as usize, vx::param(5) as usize);
    let server = vx::param(6) == 1;
    let dcid = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let scid = [9u8, 10];
    let mut c = util::connection(server, &dcid);
    let keys = peer_keys(&mut c, kind, !server, &dcid);
    let pn = vx::u64();
    vx::assume(pn >> (8 * pn_len) == 0);
    let mut payload = vec![6, 0, 2];
    payload.extend(vx::bytes(2));
    let s = match send(&keys, kind, &dcid, &scid, 2, pn, pn_len, payload) {
        Some(s) => s,
        None => {
            vx::check(false, "test packets are long enough");
            return;
        }
    };
    let mut b = s.wire.clone();
    let to = to.min(b.len());
    for i in from..to {
        b[i] = vx::u8();
    }
    b.truncate(b.len() - cut);
    b.extend(vx::bytes(extra));
    let mut st = q::make_result_stream(&b);
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            for p in &ps {
                if p.verif_parts().is_some() {
                    vx::cover("accepted");
                    vx::check(b.len() >= s.wire.len() && vx::same(&b[..s.wire.len()], &s.wire), "only unmodified packets are accepted");
                    // a short packet ends with its datagram; what follows a long one is another packet
                    vx::check(kind != 3 || b.len() == s.wire.len(), "extended packets are not accepted");
                    matches(p, &s);
                } else {
                    // version negotiation packets carry no protection
                    vx::cover("unprotected");
                }
            }
        }
        Err(_) => {
            vx::cover("rejected");
            vx::check(extra > 0 || !vx::same(&b, &s.wire), "the unmodified packet is accepted");
        }
    }
}

/// A genuine packet of any size, received in any state, with one byte anywhere in a region changed.
/// Regions: 0 destination id, 1 source id, 2 token, 3 protected payload, 4 tag, 5 packet number
#[no_mangle]
pub extern "C" fn tamper_region() {
    let (kind, pn_len) = (vx::param(0), vx::param(1) as usize);
    let (dl, sl, tl) = (vx::param(2) as usize, vx::param(3) as usize, vx::param(4) as usize);
    let (n, region) = (vx::param(5) as usize, vx::param(6));
    let server = vx::bool();
    let key_id = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let dcid = vx::bytes(if kind == 3 { 8 } else { dl });
    let scid = vx::bytes(sl);
    let mut c = util::connection(server, &key_id);
    let keys = peer_keys(&mut c, kind, !server, &key_id);
    let pn = vx::u64();
    vx::assume(pn <= crate::spec::VARINT_MAX);
    receiving(&mut c, kind, pn, pn_len, vx::param(7) == 1);
    let mut payload = vec![6, 0];
    crate::spec::put_varint(&mut payload, n as u64);
    payload.extend(vx::bytes(n));
    let s = match send(&keys, kind, &dcid, &scid, tl, pn, pn_len, payload) {
        Some(s) => s,
        None => {
            vx::check(false, "test packets are long enough");
            return;
        }
    };
    let body = s.wire.len() - s.payload.len() - 16;
    let (from, to) = match region {
        0 if kind == 3 => (1, 9),
        0 => (6, 6 + dl),
        1 => (7 + dl, 7 + dl + sl),
        2 => {
            let from = 7 + dl + sl + if tl < 64 { 1 } else { 2 };
            (from, from + tl)
        }
        3 => (body, body + s.payload.len()),
        4 => (s.wire.len() - 16, s.wire.len()),
        _ => (body - pn_len, body),
    };
    let at = if to - from > 256 { vx::u16() as usize } else { vx::u8() as usize };
    vx::assume(at < to - from);
    let change = vx::u8();
    let mut b = s.wire.clone();
    for i in from..to {
        b[i] ^= if i - from == at { change } else { 0 };
    }
    let mut st = q::make_result_stream(&b);
    match q::decode_packets(&mut st, &c) {
        Ok(ps) => {
            vx::cover("accepted");
            vx::check(change == 0, "only unmodified packets are accepted");
            vx::check(ps.len() == 1, "one packet is delivered once");
            for p in &ps {
                matches(p, &s);
            }
        }
        Err(_) => {
            vx::cover("rejected");
            vx::check(change != 0, "the unmodified packet is accepted");
        }
    }
}

/// any protected payload, associated data and number: opening succeeds only on what was sealed
#[no_mangle]
pub extern "C" fn tamper_payload() {
    let (n, m, d) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let server = vx::bool();
    let dcid = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let c = util::connection(server, &dcid);
    let keys = crate::crypt::Keys::initial(!server, &dcid);
    let pt = vx::bytes(n);
    let aad = vx::bytes(d);
    let pn = vx::u64();
    let sealed = keys.seal(pn, &aad, &pt);
    let (b, aad2, pn2) = (vx::bytes(m), vx::bytes(d), vx::u64());
    match c.decrypt_remote_payload(util::space(0), &b, &aad2, pn2) {
        Ok(x) => {
            vx::cover("accepted");
            vx::check(vx::same(&b, &sealed) && vx::same(&aad, &aad2) && pn == pn2, "only what was sealed is opened");
            vx::check(vx::same(&x, &pt), "the plaintext is the one sealed");
        }
        Err(_) => {
            vx::cover("rejected");
            vx::check(!(vx::same(&b, &sealed) && vx::same(&aad, &aad2) && pn == pn2), "what was sealed is opened");
        }
    }
}
