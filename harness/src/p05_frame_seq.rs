use crate::p04_frame_encode::make;
use crate::{spec, spec::F, vx};
use quic_sea::verif_hooks as q;

/// a payload of three frames of given kinds: order, boundaries, and the length of STREAM frames
#[no_mangle]
pub extern "C" fn frames_encode() {
    let last = vx::param(3) == 1;
    let mut fs = Vec::new();
    let mut ws: Vec<F> = Vec::new();
    for i in 0..3 {
        let k = vx::param(i);
        if k < 100 {
            let (f, w, _) = make(k, 2, true);
            fs.push(f);
            ws.push(w);
        }
    }
    let mut e = Vec::new();
    for (i, w) in ws.iter().enumerate() {
        spec::put(&mut e, w, !(last && i == ws.len() - 1));
    }
    match q::serialize_frames(&fs, last) {
        Ok(g) => {
            vx::cover("encoded");
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &e), "a payload is its frames in order, STREAM length omitted only at the end of a packet");
            let mut s = q::make_result_stream(&g);
            match q::deserialize_frames(&mut s) {
                Ok(back) => {
                    vx::check(back.len() == fs.len(), "every frame is read back, none added");
                    match q::serialize_frames(&back, last) {
                        Ok(g2) => vx::check(vx::same(&g2, &g), "frames are read back in order with their fields"),
                        Err(_) => vx::check(false, "frames read back can be encoded"),
                    }
                }
                Err(_) => vx::check(false, "an encoded payload can be read back"),
            }
        }
        Err(_) => vx::check(false, "a payload of valid frames is encoded"),
    }
}

fn all(b: &[u8]) {
    // the reference: frames one after the other until the payload ends
    let mut p = 0;
    let mut ws: Vec<F> = Vec::new();
    let mut bad = false;
    let mut lenient = false;
    while p < b.len() {
        match spec::frame(b, p) {
            Some((f, at)) => {
                lenient |= b[p] >= 0x40 || !spec::meaningful(&f);
                ws.push(f);
                p = at;
            }
            None => {
                bad = true;
                break;
            }
        }
    }
    let mut s = q::make_result_stream(b);
    match q::deserialize_frames(&mut s) {
        Ok(fs) => {
            vx::cover("decoded");
            vx::check(!bad, "a payload with a broken frame is rejected");
            vx::log(fs.len() as u64);
            vx::check(fs.len() == ws.len(), "every frame of the payload is delivered, none added");
            let mut e = Vec::new();
            for (i, w) in ws.iter().enumerate() {
                spec::put(&mut e, w, i + 1 != ws.len());
            }
            match q::serialize_frames(&fs, true) {
                Ok(g) => vx::check(vx::same(&g, &e), "frames are delivered in order with their fields"),
                Err(_) => vx::check(false, "delivered frames can be encoded again"),
            }
        }
        Err(_) => {
            vx::cover("rejected");
            vx::check(bad || lenient, "a payload of complete frames is accepted");
        }
    }
}

/// any payload of n bytes
#[no_mangle]
pub extern "C" fn frames_decode() {
    let b = vx::bytes(vx::param(0) as usize);
    all(&b);
}

/// payloads of n bytes whose first frame has the given type and one-byte integers
#[no_mangle]
pub extern "C" fn frames_decode_after() {
    let t = vx::param(0) as u8;
    let k = vx::param(1) as usize;
    let n = vx::param(2) as usize;
    let mut b = vx::bytes(k + n);
    for i in 0..k {
        vx::assume(b[i] < 4);
    }
    b.insert(0, t);
    all(&b);
}

/// `n` frames of one kind (100: all kinds in turn), then one more of another
#[no_mangle]
pub extern "C" fn frames_many() {
    let (k, n, after) = (vx::param(0), vx::param(1), vx::param(2));
    let mut fs = Vec::new();
    let mut ws: Vec<F> = Vec::new();
    for i in 0..n {
        let (f, w, _) = make(if k == 100 { i % crate::p04_frame_encode::KINDS } else { k }, 2, true);
        fs.push(f);
        ws.push(w);
    }
    if after < 100 {
        let (f, w, _) = make(after, 3, true);
        fs.push(f);
        ws.push(w);
    }
    let mut e = Vec::new();
    for w in ws.iter() {
        spec::put(&mut e, w, true);
    }
    match q::serialize_frames(&fs, false) {
        Ok(g) => {
            vx::cover("encoded");
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &e), "a payload is its frames in order");
        }
        Err(_) => vx::check(false, "a payload of valid frames is encoded"),
    }
    // as the end of a packet: only a STREAM frame that is the last omits its length
    let mut e2 = Vec::new();
    for (i, w) in ws.iter().enumerate() {
        spec::put(&mut e2, w, i + 1 != ws.len());
    }
    match q::serialize_frames(&fs, true) {
        Ok(g) => vx::check(vx::same(&g, &e2), "a payload is its frames in order, STREAM length omitted only at the end of a packet"),
        Err(_) => vx::check(false, "a payload of valid frames is encoded"),
    }
    // the frames need no constructor's help to be read
    let mut s = q::make_result_stream(&e);
    match q::deserialize_frames(&mut s) {
        Ok(back) => {
            vx::cover("decoded");
            vx::check(back.len() == ws.len(), "every frame of the payload is delivered, none added");
            match q::serialize_frames(&back, false) {
                Ok(g2) => vx::check(vx::same(&g2, &e), "frames are read back in order with their fields"),
                Err(_) => vx::check(false, "frames read back can be encoded"),
            }
        }
        Err(_) => vx::check(false, "a payload of complete frames is accepted"),
    }
    // cut inside the last frame: rejected as a whole
    if after < 100 && after > 2 {
        let mut s = q::make_result_stream(&e[..e.len() - 1]);
        vx::check(q::deserialize_frames(&mut s).is_err(), "a payload with a broken frame is rejected");
    }
}

/// two frames of given types with one-byte integers below 4, each followed by k bytes
#[no_mangle]
pub extern "C" fn frames_pair() {
    let mut b = Vec::new();
    for i in [0, 2] {
        b.push(vx::param(i) as u8);
        for _ in 0..vx::param(i + 1) {
            b.push(vx::u8() & 3);
        }
    }
    all(&b);
}
