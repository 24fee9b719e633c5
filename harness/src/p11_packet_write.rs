use crate::p04_frame_encode::make;
use crate::{crypt::Keys, crypt::long_head, spec, spec::VARINT_MAX, util, vx};
use quic_sea::verif_hooks as q;

/// sets any sending state of a space: the next number, and what the peer acknowledged
pub fn sending(c: &mut q::Connection, sp: u64, near: u64) -> u64 {
    let pn = vx::u64();
    vx::assume(pn >= 1 && pn <= VARINT_MAX);
    c.verif_set_next_pn(util::space(sp), pn - 1);
    if near > 0 {
        // acknowledged within the distance that takes `near` bytes
        let d = vx::u64();
        let hi = 1u64 << (8 * near - 1);
        let lo = if near == 1 { 1 } else { 1 << (8 * near - 9) };
        vx::assume(d >= lo && d < hi && d <= pn);
        c.verif_set_largest_local_ack(util::space(sp), Some(pn - d));
    } else {
        vx::assume(pn < 1 << 31);
    }
    pn
}

/// any Initial (0) or Handshake (2) packet: its wire image is the one RFC 9001 prescribes
#[no_mangle]
pub extern "C" fn packet_write() {
    let kind = vx::param(0);
    let (dl, sl, tl) = (vx::param(1) as usize, vx::param(2) as usize, vx::param(3) as usize);
    let (fk, n, near) = (vx::param(4), vx::param(5) as usize, vx::param(6));
    let server = vx::bool();
    let dcid = vx::bytes(dl);
    let scid = vx::bytes(sl);
    let mut c = util::connection(server, &dcid);
    c.set_scid(util::u160(&scid), sl);
    let sp = if kind == 0 { 0 } else { 1 };
    let keys = if kind == 0 {
        Keys::initial(server, &dcid)
    } else {
        // keys are opaque: any two different secrets stand for all
        let secret = [kind as u8 + 1; 32];
        let other = [kind as u8 + 101; 32];
        c.verif_set_secrets(util::space(1), Some(util::secrets(&secret)), Some(util::secrets(&other)));
        Keys::of(&secret)
    };
    let pn = sending(&mut c, sp, near);
    let token = vx::bytes(tl);
    let (f, w, _) = make(fk, n, true);
    let mut pt = Vec::new();
    spec::put(&mut pt, &w, true);
    let mut fs = vec![f];
    if n > 0 {
        fs.push(q::Frame::Ping);
        pt.push(1);
    }
    let (wire, len) = if kind == 0 {
        match q::PacketInitial::new(fs, if tl > 0 { Some(token.clone()) } else { None }, &mut c) {
            Ok(p) => {
                let w = p.verif_serialize(&c);
                (w, pn_len(q::Packet::Initial(p)))
            }
            Err(_) => {
                vx::check(false, "a packet can be built");
                return;
            }
        }
    } else {
        match q::PacketHandshake::new(fs, &mut c) {
            Ok(p) => {
                let w = p.verif_serialize(&c);
                (w, pn_len(q::Packet::Handshake(p)))
            }
            Err(_) => {
                vx::check(false, "a packet can be built");
                return;
            }
        }
    };
    vx::check(len >= 1 && len <= 4, "a packet number takes one to four bytes");
    if len < 1 || len > 4 {
        return;
    }
    match len {
        1 => vx::cover("one byte"),
        2 => vx::cover("two bytes"),
        3 => vx::cover("three bytes"),
        _ => vx::cover("four bytes"),
    }
    let head = long_head(kind as u8, len, 1, &dcid, &scid, if kind == 0 { Some(&token) } else { None }, pt.len());
    let want = keys.protect(&head, pn, len, &pt);
    match (wire, want) {
        (Ok(g), Some(e)) => {
            vx::cover("written");
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &e), "the packet on the wire is the one RFC 9000 and 9001 prescribe");
        }
        (Ok(_), None) => vx::check(false, "packets too short to be sampled are not sent"),
        (Err(_), Some(_)) => vx::check(false, "a packet can be written"),
        (Err(_), None) => vx::cover("too short"),
    }
}

fn pn_len(p: q::Packet) -> usize {
    p.verif_parts().map(|(_, _, b, _)| b.len()).unwrap_or(0)
}

/// several packets of the given kinds of one connection, each written twice, now and after the
/// others were: always the one prescribed
#[no_mangle]
pub extern "C" fn packets_written() {
    let count = vx::param(0) as usize;
    let server = vx::bool();
    let (dcid, scid) = (vx::bytes(8), vx::bytes(4));
    let mut c = util::connection(server, &dcid);
    c.set_scid(util::u160(&scid), 4);
    let (secret, other) = ([3u8; 32], [103u8; 32]);
    c.verif_set_secrets(util::space(1), Some(util::secrets(&secret)), Some(util::secrets(&other)));
    let keys = [Keys::initial(server, &dcid), Keys::of(&secret)];
    let mut next = [0u64; 2];
    for sp in 0..2 {
        next[sp] = vx::u64();
        vx::assume(next[sp] < 1 << 31);
        c.verif_set_next_pn(util::space(sp as u64), next[sp]);
    }
    let mut packets: Vec<(Result<q::PacketInitial, q::PacketHandshake>, Vec<u8>)> = Vec::new();
    for i in 0..=2 * count {
        if i < count {
            let kind = vx::param(1 + i as u64);
            let (f, w, _) = make(5, 3, true);
            let mut pt = Vec::new();
            spec::put(&mut pt, &w, true);
            let sp = (kind != 0) as usize;
            let token = vx::bytes(1);
            let p = if kind == 0 {
                q::PacketInitial::new(vec![f], Some(token.clone()), &mut c).map(Ok)
            } else {
                q::PacketHandshake::new(vec![f], &mut c).map(Err)
            };
            let p = match p {
                Ok(p) => p,
                Err(_) => {
                    vx::check(false, "a packet can be built");
                    return;
                }
            };
            next[sp] += 1;
            let head = long_head(kind as u8, 4, 1, &dcid, &scid, if kind == 0 { Some(&token) } else { None }, pt.len());
            match keys[sp].protect(&head, next[sp], 4, &pt) {
                Some(e) => packets.push((p, e)),
                None => {
                    vx::check(false, "test packets are long enough");
                    return;
                }
            }
        }
        if i == 2 * count {
            break;
        }
        let (p, e) = &packets[i % count];
        let g = match p {
            Ok(p) => p.verif_serialize(&c),
            Err(p) => p.verif_serialize(&c),
        };
        match g {
            Ok(g) => {
                vx::log_bytes(&g);
                vx::check(vx::same(&g, e), "the packet on the wire is the one RFC 9000 and 9001 prescribe");
            }
            Err(_) => vx::check(false, "a packet can be written"),
        }
    }
    vx::cover("written");
}
