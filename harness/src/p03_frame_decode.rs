use crate::{spec, vx};
use quic_sea::verif_hooks as q;

pub fn one(b: &[u8]) {
    let mut s = q::make_result_stream(b);
    let got = q::deserialize_frame(&mut s);
    let left = s.count();
    let want = spec::frame(b, 0);
    match (got, want) {
        (Ok(f), Some((w, at))) => {
            vx::cover("decoded");
            vx::log(left as u64);
            vx::check(left == b.len() - at, "exactly the frame's bytes are consumed");
            let frames = [f];
            for last in [false, true] {
                let mut e = Vec::new();
                spec::put(&mut e, &w, !last);
                match q::serialize_frames(&frames, last) {
                    Ok(g) => {
                        vx::log_bytes(&g);
                        vx::check(vx::same(&g, &e), "the decoded frame carries the fields on the wire")
                    }
                    Err(_) => vx::check(false, "a decoded frame can be encoded again"),
                }
            }
        }
        (Err(_), None) => vx::cover("rejected"),
        (Ok(_), None) => vx::check(false, "incomplete or unknown frames are rejected"),
        (Err(_), Some((w, _))) => {
            // an over-long frame type may be refused, and so may frames that contradict themselves
            let short_type = b[0] < 0x40;
            vx::check(!short_type || !spec::meaningful(&w), "complete frames are accepted");
        }
    }
}

/// any n bytes
#[no_mangle]
pub extern "C" fn frame_decode() {
    let b = vx::bytes(vx::param(0) as usize);
    one(&b);
}

/// any n bytes after a given frame type
#[no_mangle]
pub extern "C" fn frame_decode_kind() {
    let mut b = vx::bytes(vx::param(1) as usize);
    b.insert(0, vx::param(0) as u8);
    one(&b);
}

/// a frame of the given type with one-byte integers and `n` bytes of data (ACK: `n` ranges), and a
/// PING after it where the frame says where it ends
#[no_mangle]
pub extern "C" fn frame_decode_sized() {
    let (t, n) = (vx::param(0) as u8, vx::param(1) as usize);
    let mut b = vec![t];
    let int = |b: &mut Vec<u8>| b.push(vx::u8() & 0x3f);
    let (ints, sized, data) = match t {
        0x02 | 0x03 => (2, true, 2 * n + 1 + if t == 3 { 3 } else { 0 }),
        0x06 => (1, true, n),
        0x07 => (0, true, n),
        0x08..=0x0f => (1 + (t as usize >> 2 & 1), t & 2 != 0, n),
        0x1c => (2, true, n),
        _ => (1, true, n),
    };
    for _ in 0..ints {
        int(&mut b);
    }
    if sized {
        spec::put_varint(&mut b, n as u64);
    }
    if t < 4 {
        for _ in 0..data {
            int(&mut b);
        }
    } else {
        b.extend(vx::bytes(data));
    }
    if sized {
        b.push(1);
    }
    one(&b);
}
