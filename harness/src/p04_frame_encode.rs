use crate::{spec, spec::F, vx};
use quic_sea::verif_hooks as q;
use q::Frame;

pub const KINDS: u64 = 20;


/// A frame of the given kind with any field values, as a sender builds it, and its meaning.
/// `small` limits integers to one-byte encodings; `n` is the length of variable-size data.
pub fn make(kind: u64, n: usize, small: bool) -> (Frame, F, Vec<u64>) {
    let int = || {
        let v = if small { vx::u8() as u64 } else { vx::u64() };
        if small {
            vx::assume(v < 64);
        }
        v
    };
    match kind {
        0 => (Frame::Padding, F::Padding, vec![]),
        1 => (Frame::Ping, F::Ping, vec![]),
        2 => (Frame::HandshakeDone, F::Done, vec![]),
        3 => {
            let (a, b, c) = (int(), int(), int());
            (Frame::ResetStream(q::FrameResetStream::new(a, b, c)), F::Reset(a, b, c), vec![a, b, c])
        }
        4 => {
            let (a, b) = (int(), int());
            (Frame::StopSending(q::FrameStopSending::new(a, b)), F::Stop(a, b), vec![a, b])
        }
        5 => {
            let d = vx::bytes(n);
            (Frame::Crypto(q::FrameCrypto::new(d.clone())), F::Crypto { off: 0, data: d }, vec![])
        }
        6 => {
            let d = vx::bytes(n);
            (Frame::NewToken(q::FrameNewToken::new(d.clone())), F::NewToken(d), vec![])
        }
        7 => {
            let a = int();
            let d = vx::bytes(n);
            let fin = vx::bool();
            (
                Frame::Stream(q::FrameStream::new(a, d.clone(), fin)),
                F::Stream { id: a, off: 0, data: d, fin },
                vec![a],
            )
        }
        8 => {
            let a = int();
            (Frame::MaxData(q::FrameMaxData::new(a)), F::MaxData(a), vec![a])
        }
        9 => {
            let (a, b) = (int(), int());
            (Frame::MaxStreamData(q::FrameMaxStreamData::new(a, b)), F::MaxStreamData(a, b), vec![a, b])
        }
        10 => {
            let a = int();
            let uni = vx::bool();
            (Frame::MaxStreams(q::FrameMaxStreams::new(a, uni)), F::MaxStreams { uni, max: a }, vec![a])
        }
        11 => {
            let a = int();
            (Frame::DataBlocked(q::FrameDataBlocked::new(a)), F::DataBlocked(a), vec![a])
        }
        12 => {
            let (a, b) = (int(), int());
            (
                Frame::StreamDataBlocked(q::FrameStreamDataBlocked::new(a, b)),
                F::StreamDataBlocked(a, b),
                vec![a, b],
            )
        }
        13 => {
            let a = int();
            let uni = vx::bool();
            (
                Frame::StreamsBlocked(q::FrameStreamsBlocked::new(a, uni)),
                F::StreamsBlocked { uni, max: a },
                vec![a],
            )
        }
        14 => {
            let (a, b) = (int(), int());
            let id: [u8; 20] = vx::array();
            let token: [u8; 16] = vx::array();
            (
                Frame::NewConnectionId(q::FrameNewConnectionId::new(a, b, crate::util::u160(&id), u128::from_be_bytes(token))),
                F::NewCid { seq: a, retire: b, cid: id[12..].to_vec(), token },
                vec![a, b],
            )
        }
        15 => {
            let a = int();
            (Frame::RetireConnectionId(q::FrameRetireConnectionId::new(a)), F::Retire(a), vec![a])
        }
        16 => {
            let d: [u8; 8] = vx::array();
            (Frame::PathChallenge(q::FramePathChallenge::new(u64::from_be_bytes(d))), F::Challenge(d), vec![])
        }
        17 => {
            let d: [u8; 8] = vx::array();
            (Frame::PathResponse(q::FramePathResponse::new(u64::from_be_bytes(d))), F::Response(d), vec![])
        }
        18 => {
            let (a, b) = (int(), int());
            let d = vx::bytes(n);
            (
                Frame::ConnectionClose(q::FrameConnectionClose::new_error(a, b, d.clone())),
                F::Close { code: a, kind: b, reason: d },
                vec![a, b],
            )
        }
        _ => {
            let a = int();
            let d = vx::bytes(n);
            (
                Frame::ConnectionClose(q::FrameConnectionClose::new_application_error(a, d.clone())),
                F::AppClose { code: a, reason: d },
                vec![a],
            )
        }
    }
}

/// one frame of a kind, any field values: wire image, refusal, and reading it back
#[no_mangle]
pub extern "C" fn frame_encode() {
    let kind = vx::param(0);
    let n = vx::param(1) as usize;
    let (f, w, ints) = make(kind, n, false);
    let last = vx::choose(2) == 1;
    let mut fits = true;
    for v in &ints {
        fits &= *v <= spec::VARINT_MAX;
    }
    match q::serialize_frames(&[f], last) {
        Err(_) => {
            vx::cover("refused");
            vx::check(!fits, "frames whose fields fit are encoded");
        }
        Ok(g) => {
            vx::cover("encoded");
            vx::check(fits, "fields above 2^62-1 are refused");
            let mut e = Vec::new();
            spec::put(&mut e, &w, !last);
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &e), "the wire image is the RFC 9000 layout");
            // reading it back
            let mut s = q::make_result_stream(&g);
            match q::deserialize_frame(&mut s) {
                Ok(f2) => {
                    vx::check(s.count() == 0, "reading back consumes the whole frame");
                    match q::serialize_frames(&[f2], last) {
                        Ok(g2) => vx::check(vx::same(&g2, &g), "reading back gives an equal frame"),
                        Err(_) => vx::check(false, "a frame read back can be encoded"),
                    }
                }
                Err(_) => vx::check(!spec::meaningful(&w), "every encoded frame can be read back"),
            }
        }
    }
}

/// frames that arrive with fields no constructor sets (ACK ranges, offsets), encoded again
/// covered by the decoder's harnesses; here: offsets and ranges survive a second trip.
#[no_mangle]
pub extern "C" fn frame_twice() {
    let mut b = vx::bytes(vx::param(1) as usize);
    b.insert(0, vx::param(0) as u8);
    let mut s = q::make_result_stream(&b);
    if let Ok(f) = q::deserialize_frame(&mut s) {
        vx::cover("decoded");
        let w = spec::frame(&b, 0);
        let g = match q::serialize_frames(&[f], false) {
            Ok(g) => g,
            Err(_) => {
                vx::check(false, "a decoded frame can be encoded again");
                return;
            }
        };
        if let Some((w, _)) = w {
            let mut e = Vec::new();
            spec::put(&mut e, &w, true);
            vx::check(vx::same(&g, &e), "the wire image is the RFC 9000 layout");
        } else {
            vx::check(false, "only complete frames are decoded");
        }
        let mut s = q::make_result_stream(&g);
        match q::deserialize_frame(&mut s) {
            Ok(f2) => {
                vx::check(s.count() == 0, "reading back consumes the whole frame");
                match q::serialize_frames(&[f2], false) {
                    Ok(g2) => vx::check(vx::same(&g2, &g), "reading back gives an equal frame"),
                    Err(_) => vx::check(false, "a frame read back can be encoded"),
                }
            }
            Err(_) => vx::check(false, "every encoded frame can be read back"),
        }
    }
}
