use crate::{alloc, crypt, util, vx};
use cryptomodel::{state, Open};
use quic_sea::verif_hooks as q;

/// what decoding n received bytes may request at once
fn limit(n: usize) -> usize {
    256 * n + 1024
}
/// what decoding a single frame of n received bytes may request at once
fn frame_limit(n: usize) -> usize {
    64 * n + 256
}

/// a frame of given type with any n bytes after it
#[no_mangle]
pub extern "C" fn memory_frame() {
    let (t, n) = (vx::param(0) as u8, vx::param(1) as usize);
    let mut b = vx::bytes(n);
    b.insert(0, t);
    let mut s = q::make_result_stream(&b);
    alloc::arm(frame_limit(b.len()));
    let r = q::deserialize_frame(&mut s);
    alloc::disarm();
    if r.is_ok() {
        vx::cover("accepted");
    } else {
        vx::cover("rejected");
    }
}

/// payloads of any n bytes
#[no_mangle]
pub extern "C" fn memory_frames() {
    let b = vx::bytes(vx::param(0) as usize);
    let mut s = q::make_result_stream(&b);
    alloc::arm(limit(b.len()));
    let r = q::deserialize_frames(&mut s);
    alloc::disarm();
    if r.is_ok() {
        vx::cover("accepted");
    } else {
        vx::cover("rejected");
    }
}

/// a datagram: long (kind 0..2), version negotiation (4) or short (3) header followed by any k bytes
#[no_mangle]
pub extern "C" fn memory_datagram() {
    let (kind, dl, k) = (vx::param(0), vx::param(1) as usize, vx::param(2) as usize);
    let mut b;
    if kind == 3 {
        b = vx::bytes(9 + k);
        b[0] &= 0x7f;
    } else {
        b = vx::bytes(7 + dl + k);
        b[0] = b[0] & 0xcf | 0x80 | (kind as u8 & 3) << 4;
        b[1] = 0;
        b[2] = 0;
        b[3] = 0;
        b[4] = (kind != 4) as u8;
        b[5] = dl as u8;
        if kind != 4 {
            b[6 + dl] = 0;
        }
    }
    let mut c = util::connection(true, &[1, 2, 3, 4]);
    for s in 1..3 {
        let x = [s as u8; 32];
        c.verif_set_secrets(util::space(s), Some(util::secrets(&x)), Some(util::secrets(&x)));
    }
    state().open = Open::Arbitrary;
    state().plaintext = Some(vec![1, 1]);
    state().calls.reserve(64);
    state().opened.reserve(16);
    let mut s = q::make_result_stream(&b);
    alloc::arm(limit(b.len()));
    let r = q::decode_packets(&mut s, &c);
    alloc::disarm();
    if r.is_ok() {
        vx::cover("accepted");
    } else {
        vx::cover("rejected");
    }
}

/// an Initial whose token length, then whose length field, is any 8-byte integer
#[no_mangle]
pub extern "C" fn memory_lengths() {
    let (which, k) = (vx::param(0), vx::param(1) as usize);
    let mut b = crypt::long_head(0, 1, 1, &[1, 2, 3, 4], &[5], Some(&[]), 0);
    // drop the empty token and the length
    b.truncate(b.len() - 2);
    let mut l = vx::array::<8>();
    l[0] |= 0xc0;
    if which == 1 {
        b.push(0);
    }
    b.extend_from_slice(&l);
    b.extend(vx::bytes(k));
    let c = util::connection(true, &[1, 2, 3, 4]);
    state().open = Open::Arbitrary;
    state().plaintext = Some(vec![1, 1]);
    state().calls.reserve(64);
    state().opened.reserve(16);
    let mut s = q::make_result_stream(&b);
    alloc::arm(limit(b.len()));
    let r = q::decode_packets(&mut s, &c);
    alloc::disarm();
    if r.is_ok() {
        vx::cover("accepted");
    } else {
        vx::cover("rejected");
    }
}
