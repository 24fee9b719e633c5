use crate::{crypt, util, vx};
use cryptomodel::{state, Open};
use quic_sea::verif_hooks as q;

/// a connection with keys for every packet type; role and receive state by the last parameter
fn receiver() -> q::Connection {
    let flags = vx::param(7);
    let mut c = util::connection(flags & 1 == 1, &[1, 2, 3, 4]);
    for s in 0..3 {
        // a connection whose handshake has not got that far lacks keys
        if s > 0 && flags & 4 == 0 {
            let k = [s as u8; 32];
            c.verif_set_secrets(util::space(s), Some(util::secrets(&k)), Some(util::secrets(&k)));
        }
        if flags & 2 == 0 {
            // any packet number may have been received before
            let l = vx::u64();
            vx::assume(l <= crate::spec::VARINT_MAX);
            c.verif_set_largest_remote_ack(util::space(s), Some(l));
        }
    }
    c
}

fn feed(b: &[u8], pt: usize) {
    // decryption may succeed or fail, with any plaintext of up to pt bytes
    let plaintext = vx::bytes(pt);
    feed_plaintext(b, plaintext)
}
fn feed_plaintext(b: &[u8], plaintext: Vec<u8>) {
    let c = receiver();
    state().open = Open::Arbitrary;
    state().plaintext = Some(plaintext);
    let mut s = q::make_result_stream(b);
    match q::decode_packets(&mut s, &c) {
        Ok(p) => {
            vx::cover("accepted");
            vx::log(p.len() as u64);
        }
        Err(e) => {
            vx::cover("rejected");
            vx::log(e.to_error_byte() as u64);
        }
    }
}

/// any datagram of n bytes
#[no_mangle]
pub extern "C" fn crash_datagram() {
    let b = vx::bytes(vx::param(0) as usize);
    feed(&b, vx::param(1) as usize);
}

/// a long header packet with ids of given lengths followed by any k bytes
#[no_mangle]
pub extern "C" fn crash_long() {
    let (kind, dl, sl, k, pt) = (vx::param(0) as u8, vx::param(1) as usize, vx::param(2) as usize, vx::param(3) as usize, vx::param(4) as usize);
    let mut b = vx::bytes(7 + dl + sl + k);
    b[0] = b[0] & 0xcf | 0x80 | kind << 4;
    vx::assume(b[1] != 0 || b[2] != 0 || b[3] != 0 || b[4] != 0);
    b[5] = dl as u8;
    b[6 + dl] = sl as u8;
    feed(&b, pt);
}

/// a well-formed Initial, 0-RTT or Handshake packet with given token and payload lengths, cut after
/// every possible number of bytes or followed by k more bytes
#[no_mangle]
pub extern "C" fn crash_shaped() {
    let (kind, tl, pl, k) = (vx::param(0) as u8, vx::param(1) as usize, vx::param(2) as usize, vx::param(3) as usize);
    let dcid = vx::bytes(2);
    let scid = vx::bytes(1);
    let token = vx::bytes(tl);
    let mut b = crypt::long_head(kind, 1, 1, &dcid, &scid, if kind == 0 { Some(&token) } else { None }, pl);
    b[0] = b[0] & 0xf0 | vx::u8() & 0x0f;
    b.extend(vx::bytes(1 + pl + 16));
    if k == 0 {
        let n = vx::choose(b.len() as u64) as usize;
        b.truncate(n);
    } else {
        b.extend(vx::bytes(k));
    }
    feed(&b, vx::param(4) as usize);
}

/// a short header packet of n bytes
#[no_mangle]
pub extern "C" fn crash_short() {
    let mut b = vx::bytes(vx::param(0) as usize);
    if let Some(x) = b.first_mut() {
        *x &= 0x7f;
    }
    feed(&b, vx::param(1) as usize);
}

/// frames: any payload of n bytes
#[no_mangle]
pub extern "C" fn crash_frames() {
    let b = vx::bytes(vx::param(0) as usize);
    let mut s = q::make_result_stream(&b);
    match q::deserialize_frames(&mut s) {
        Ok(f) => {
            vx::cover("accepted");
            vx::log(f.len() as u64);
        }
        Err(_) => vx::cover("rejected"),
    }
}

/// frames: a payload of n bytes after a given type
#[no_mangle]
pub extern "C" fn crash_frame_kind() {
    let mut b = vx::bytes(vx::param(1) as usize);
    b.insert(0, vx::param(0) as u8);
    let mut s = q::make_result_stream(&b);
    match q::deserialize_frame(&mut s) {
        Ok(_) => vx::cover("accepted"),
        Err(_) => vx::cover("rejected"),
    }
}

/// a frame of type p0 whose first p1 integers take one byte and whose next takes eight, then p2 bytes:
/// an integer as large as it can be, where everything before it is small
#[no_mangle]
pub extern "C" fn crash_frame_large() {
    let small = vx::bytes(vx::param(1) as usize);
    for x in &small {
        vx::assume(*x < 64);
    }
    let large = vx::bytes(8);
    vx::assume(large[0] >= 0xc0);
    let rest = vx::bytes(vx::param(2) as usize);
    let b = [&[vx::param(0) as u8][..], &small, &large, &rest].concat();
    let mut s = q::make_result_stream(&b);
    match q::deserialize_frame(&mut s) {
        Ok(_) => vx::cover("accepted"),
        Err(_) => vx::cover("rejected"),
    }
}

/// headers: any n bytes
#[no_mangle]
pub extern "C" fn crash_header() {
    let b = vx::bytes(vx::param(0) as usize);
    let mut s = q::make_result_stream(&b);
    match q::next_header_from_stream(&mut s) {
        Ok(h) => {
            vx::cover("accepted");
            let w = match h {
                q::PacketHeader::Long(h) => h.to_bytes(),
                q::PacketHeader::Short(h) => h.to_bytes(),
            };
            vx::log(w.len() as u64);
        }
        Err(_) => vx::cover("rejected"),
    }
}

/// any datagrams at a socket with k connections: `how` 0 waits for a new connection, 1 routes,
/// 2 decodes; 10 more: with traffic logging
#[no_mangle]
pub extern "C" fn crash_socket() {
    use q::routing::Socket;
    use std::net::{Ipv4Addr, SocketAddr};
    let (how, k, form, n) = (vx::param(0), vx::param(1), vx::param(2), vx::param(3) as usize);
    let a = SocketAddr::from((Ipv4Addr::new(127, 0, 0, 1), 4433));
    let mut s = match Socket::bind(a) {
        Ok(s) => s,
        Err(_) => return,
    };
    if how >= 10 {
        s.set_log_traffic(true);
    }
    for i in 0..k {
        // the first registered id is that of the datagram in some cases
        s.insert(q::U160::from(if i == 0 { vx::u64() } else { i }), receiver());
    }
    let mut b = vx::bytes(n);
    match form {
        0 => {
            if n > 0 {
                b[0] &= 0x7f;
            }
        }
        // long header with an id of 8 bytes, an empty one and any version
        1 => {
            b[0] |= 0x80;
            if n > 5 {
                b[5] = 8;
            }
            if n > 14 {
                b[14] = 0;
            }
        }
        _ => {}
    }
    state().open = Open::Arbitrary;
    state().plaintext = Some(vx::bytes(2));
    match how % 10 {
        0 => {
            crate::net::incoming(b, 9);
            crate::net::incoming(vec![], 9);
            crate::net::incoming(vec![0x40], 9);
            match s.recv_new_initial() {
                Ok((d, _)) => {
                    vx::cover("accepted");
                    vx::log(d.len() as u64);
                }
                Err(_) => vx::cover("rejected"),
            }
        }
        1 => match s.route(b, a) {
            Ok(_) => vx::cover("accepted"),
            Err(_) => vx::cover("rejected"),
        },
        _ => match s.packets(b, a) {
            Ok(p) => {
                vx::cover("accepted");
                vx::log(p.len() as u64);
            }
            Err(_) => vx::cover("rejected"),
        },
    }
}

/// a frame of given type with a declared length of any size and k bytes left
#[no_mangle]
pub extern "C" fn crash_sized() {
    let (t, n, short) = (vx::param(0) as u8, vx::param(1) as usize, vx::param(2) as usize);
    let mut b = vec![t];
    let ints = match t {
        0x06 => 1,
        0x07 => 0,
        0x08..=0x0f => 1 + (t >> 2 & 1),
        0x1c => 2,
        _ => 1,
    };
    for _ in 0..ints {
        b.push(vx::u8() & 0x3f);
    }
    crate::spec::put_varint(&mut b, n as u64);
    b.extend(vx::bytes(n - short));
    let mut s = q::make_result_stream(&b);
    match q::deserialize_frames(&mut s) {
        Ok(_) => vx::cover("accepted"),
        Err(_) => vx::cover("rejected"),
    }
}

/// n frames, of all kinds in turn from the given one on or (p0 over 0xff) of one kind, with any
/// small integers
fn many(first: u64, n: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for i in 0..n {
        let t = if first > 0xff { first as u8 } else { ((first as usize + i) % 0x1f) as u8 };
        // a STREAM frame without length would take the rest
        let t = if t & !7 == 8 { t | 2 } else { t };
        b.push(t);
        let (ints, after) = match t {
            0x00 | 0x01 | 0x1e => (0, &[][..]),
            0x02 => (2, &[0, 3][..]),
            0x03 => (2, &[1, 3, 1, 1, 5, 5, 5][..]),
            0x04 => (3, &[][..]),
            0x06 => (1, &[2, 7, 7][..]),
            0x07 => (0, &[1, 7][..]),
            0x08..=0x0b => (1, &[1, 7][..]),
            0x0c..=0x0f => (2, &[1, 7][..]),
            0x05 | 0x11 | 0x15 => (2, &[][..]),
            0x18 => (2, &[3, 1, 2, 3, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9][..]),
            0x1a | 0x1b => (0, &[8; 8][..]),
            0x1c => (2, &[0][..]),
            0x1d => (1, &[2, 8, 8][..]),
            _ => (1, &[][..]),
        };
        for _ in 0..ints {
            b.push(vx::u8() & 0x3f);
        }
        b.extend_from_slice(after);
    }
    b
}
/// a payload of many frames, alone (p2 > 3) or in a packet of kind p2
#[no_mangle]
pub extern "C" fn crash_many() {
    let b = many(vx::param(0), vx::param(1) as usize);
    let kind = vx::param(2) as u8;
    if kind > 3 {
        let mut s = q::make_result_stream(&b);
        match q::deserialize_frames(&mut s) {
            Ok(f) => {
                vx::cover("accepted");
                vx::log(f.len() as u64);
            }
            Err(_) => vx::cover("rejected"),
        }
        return;
    }
    let mut d = if kind == 3 { vec![0x40, 1, 1, 1, 1, 1, 1, 1, 1] } else { crypt::long_head(kind, 1, 1, &[1, 2], &[3], if kind == 0 { Some(&[]) } else { None }, b.len()) };
    d.extend(vx::bytes(1 + b.len() + 16));
    feed_plaintext(&d, b);
}

/// an acknowledgement of n ranges of any small size after any largest number
#[no_mangle]
pub extern "C" fn crash_ack() {
    let (t, n) = (vx::param(0) as u8, vx::param(1) as usize);
    let mut b = vec![t];
    let large = vx::bytes(8);
    vx::assume(large[0] >= 0xc0);
    b.extend(large);
    b.push(vx::u8() & 0x3f);
    crate::spec::put_varint(&mut b, n as u64);
    b.push(vx::u8() & 0x3f);
    for _ in 0..n * 2 {
        b.push(vx::u8() & 0x3f);
    }
    if t == 3 {
        b.extend([1, 2, 3]);
    }
    let mut s = q::make_result_stream(&b);
    match q::deserialize_frame(&mut s) {
        Ok(_) => vx::cover("accepted"),
        Err(_) => vx::cover("rejected"),
    }
}

/// version negotiation with ids of given lengths and n more bytes
#[no_mangle]
pub extern "C" fn crash_vn() {
    let (dl, sl, n) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let mut b = vec![0x80 | vx::u8(), 0, 0, 0, 0, dl as u8];
    b.extend(vx::bytes(dl));
    b.push(sl as u8);
    b.extend(vx::bytes(sl + n));
    feed(&b, 1);
}
