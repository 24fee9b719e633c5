//! Reference wire format, written from RFC 9000/9001/8446, independent of the library.
pub const VARINT_MAX: u64 = (1 << 62) - 1;

/// value and position after it
pub fn varint(b: &[u8], at: usize) -> Option<(u64, usize)> {
    let first = *b.get(at)?;
    let n = crate::vx::fork(1u64 << (first >> 6)) as usize;
    if b.len() - at < n {
        return None;
    }
    let mut v = (first & 0x3f) as u64;
    for i in 1..n {
        v = (v << 8) | b[at + i] as u64;
    }
    Some((v, at + n))
}

/// the shortest encoding; v must not exceed VARINT_MAX
pub fn put_varint(out: &mut Vec<u8>, v: u64) {
    if v < 1 << 6 {
        out.push(v as u8);
    } else if v < 1 << 14 {
        out.push(0x40 | (v >> 8) as u8);
        out.push(v as u8);
    } else if v < 1 << 30 {
        out.push(0x80 | (v >> 24) as u8);
        out.push((v >> 16) as u8);
        out.push((v >> 8) as u8);
        out.push(v as u8);
    } else {
        out.push(0xc0 | (v >> 56) as u8);
        for s in [48, 40, 32, 24, 16, 8, 0] {
            out.push((v >> s) as u8);
        }
    }
}

/// A frame as RFC 9000 section 19 describes it.
pub enum F {
    Padding,
    Ping,
    Ack { largest: u64, delay: u64, first: u64, ranges: Vec<(u64, u64)>, ecn: Option<[u64; 3]> },
    Reset(u64, u64, u64),
    Stop(u64, u64),
    Crypto { off: u64, data: Vec<u8> },
    NewToken(Vec<u8>),
    Stream { id: u64, off: u64, data: Vec<u8>, fin: bool },
    MaxData(u64),
    MaxStreamData(u64, u64),
    MaxStreams { uni: bool, max: u64 },
    DataBlocked(u64),
    StreamDataBlocked(u64, u64),
    StreamsBlocked { uni: bool, max: u64 },
    NewCid { seq: u64, retire: u64, cid: Vec<u8>, token: [u8; 16] },
    Retire(u64),
    Challenge([u8; 8]),
    Response([u8; 8]),
    Close { code: u64, kind: u64, reason: Vec<u8> },
    AppClose { code: u64, reason: Vec<u8> },
    Done,
}

fn take(b: &[u8], at: &mut usize, n: u64) -> Option<Vec<u8>> {
    if n > (b.len() - *at) as u64 {
        return None;
    }
    let n = n as usize;
    let v = b[*at..*at + n].to_vec();
    *at += n;
    Some(v)
}
fn vi(b: &[u8], at: &mut usize) -> Option<u64> {
    let (v, p) = varint(b, *at)?;
    *at = p;
    Some(v)
}
fn fixed<const N: usize>(b: &[u8], at: &mut usize) -> Option<[u8; N]> {
    if b.len() - *at < N {
        return None;
    }
    let mut r = [0u8; N];
    for i in 0..N {
        r[i] = b[*at + i];
    }
    *at += N;
    Some(r)
}

/// the frame at `at` and the position after it; None if no complete, known frame is there
pub fn frame(b: &[u8], at: usize) -> Option<(F, usize)> {
    let mut p = at;
    let t = vi(b, &mut p)?;
    let f = match t {
        0x00 => F::Padding,
        0x01 => F::Ping,
        0x02 | 0x03 => {
            let largest = vi(b, &mut p)?;
            let delay = vi(b, &mut p)?;
            let count = vi(b, &mut p)?;
            let first = vi(b, &mut p)?;
            let mut ranges = Vec::new();
            let mut i = 0;
            while i < count {
                let gap = vi(b, &mut p)?;
                let len = vi(b, &mut p)?;
                ranges.push((gap, len));
                i += 1;
            }
            let ecn = if t == 0x03 {
                Some([vi(b, &mut p)?, vi(b, &mut p)?, vi(b, &mut p)?])
            } else {
                None
            };
            F::Ack { largest, delay, first, ranges, ecn }
        }
        0x04 => F::Reset(vi(b, &mut p)?, vi(b, &mut p)?, vi(b, &mut p)?),
        0x05 => F::Stop(vi(b, &mut p)?, vi(b, &mut p)?),
        0x06 => {
            let off = vi(b, &mut p)?;
            let n = vi(b, &mut p)?;
            F::Crypto { off, data: take(b, &mut p, n)? }
        }
        0x07 => {
            let n = vi(b, &mut p)?;
            F::NewToken(take(b, &mut p, n)?)
        }
        0x08..=0x0f => {
            let id = vi(b, &mut p)?;
            let off = if t & 4 != 0 { vi(b, &mut p)? } else { 0 };
            let n = if t & 2 != 0 { vi(b, &mut p)? } else { (b.len() - p) as u64 };
            F::Stream { id, off, data: take(b, &mut p, n)?, fin: t & 1 != 0 }
        }
        0x10 => F::MaxData(vi(b, &mut p)?),
        0x11 => F::MaxStreamData(vi(b, &mut p)?, vi(b, &mut p)?),
        0x12 | 0x13 => F::MaxStreams { uni: t == 0x13, max: vi(b, &mut p)? },
        0x14 => F::DataBlocked(vi(b, &mut p)?),
        0x15 => F::StreamDataBlocked(vi(b, &mut p)?, vi(b, &mut p)?),
        0x16 | 0x17 => F::StreamsBlocked { uni: t == 0x17, max: vi(b, &mut p)? },
        0x18 => {
            let seq = vi(b, &mut p)?;
            let retire = vi(b, &mut p)?;
            let n = fixed::<1>(b, &mut p)?[0];
            if n < 1 || n > 20 {
                return None;
            }
            let cid = take(b, &mut p, n as u64)?;
            F::NewCid { seq, retire, cid, token: fixed(b, &mut p)? }
        }
        0x19 => F::Retire(vi(b, &mut p)?),
        0x1a => F::Challenge(fixed(b, &mut p)?),
        0x1b => F::Response(fixed(b, &mut p)?),
        0x1c => {
            let code = vi(b, &mut p)?;
            let kind = vi(b, &mut p)?;
            let n = vi(b, &mut p)?;
            F::Close { code, kind, reason: take(b, &mut p, n)? }
        }
        0x1d => {
            let code = vi(b, &mut p)?;
            let n = vi(b, &mut p)?;
            F::AppClose { code, reason: take(b, &mut p, n)? }
        }
        0x1e => F::Done,
        _ => return None,
    };
    Some((f, p))
}

/// Some receivers must reject these well-formed frames for what they say (RFC 9000 section 19);
/// the library leaves that to later layers, so neither outcome is judged.
pub fn meaningful(f: &F) -> bool {
    match f {
        F::Ack { largest, first, ranges, .. } => {
            let mut low = *largest;
            if *first > low {
                return false;
            }
            low -= *first;
            for (gap, len) in ranges {
                if *gap + 2 > low || *len > low - *gap - 2 {
                    return false;
                }
                low = low - *gap - 2 - *len;
            }
            true
        }
        F::Crypto { off, data } => *off <= VARINT_MAX - data.len() as u64,
        F::Stream { off, data, .. } => *off <= VARINT_MAX - data.len() as u64,
        F::NewToken(t) => !t.is_empty(),
        F::MaxStreams { max, .. } | F::StreamsBlocked { max, .. } => *max <= 1 << 60,
        F::NewCid { seq, retire, .. } => *retire <= *seq,
        _ => true,
    }
}

/// The canonical encoding: shortest integers, STREAM offset present only when nonzero, STREAM
/// length present when asked for.
pub fn put(out: &mut Vec<u8>, f: &F, stream_len: bool) {
    let mut ints = |t: u8, v: &[u64]| {
        out.push(t);
        for x in v {
            put_varint(out, *x);
        }
    };
    match f {
        F::Padding => out.push(0x00),
        F::Ping => out.push(0x01),
        F::Ack { largest, delay, first, ranges, ecn } => {
            ints(if ecn.is_some() { 3 } else { 2 }, &[*largest, *delay, ranges.len() as u64, *first]);
            for (g, l) in ranges {
                put_varint(out, *g);
                put_varint(out, *l);
            }
            if let Some(e) = ecn {
                for x in e {
                    put_varint(out, *x);
                }
            }
        }
        F::Reset(a, b, c) => ints(0x04, &[*a, *b, *c]),
        F::Stop(a, b) => ints(0x05, &[*a, *b]),
        F::Crypto { off, data } => {
            ints(0x06, &[*off, data.len() as u64]);
            out.extend_from_slice(data);
        }
        F::NewToken(t) => {
            ints(0x07, &[t.len() as u64]);
            out.extend_from_slice(t);
        }
        F::Stream { id, off, data, fin } => {
            let has_off = *off != 0;
            let t = 0x08 | if has_off { 4 } else { 0 } | if stream_len { 2 } else { 0 } | *fin as u8;
            ints(t, &[*id]);
            if has_off {
                put_varint(out, *off);
            }
            if stream_len {
                put_varint(out, data.len() as u64);
            }
            out.extend_from_slice(data);
        }
        F::MaxData(a) => ints(0x10, &[*a]),
        F::MaxStreamData(a, b) => ints(0x11, &[*a, *b]),
        F::MaxStreams { uni, max } => ints(0x12 | *uni as u8, &[*max]),
        F::DataBlocked(a) => ints(0x14, &[*a]),
        F::StreamDataBlocked(a, b) => ints(0x15, &[*a, *b]),
        F::StreamsBlocked { uni, max } => ints(0x16 | *uni as u8, &[*max]),
        F::NewCid { seq, retire, cid, token } => {
            ints(0x18, &[*seq, *retire]);
            out.push(cid.len() as u8);
            out.extend_from_slice(cid);
            out.extend_from_slice(token);
        }
        F::Retire(a) => ints(0x19, &[*a]),
        F::Challenge(d) => {
            out.push(0x1a);
            out.extend_from_slice(d);
        }
        F::Response(d) => {
            out.push(0x1b);
            out.extend_from_slice(d);
        }
        F::Close { code, kind, reason } => {
            ints(0x1c, &[*code, *kind, reason.len() as u64]);
            out.extend_from_slice(reason);
        }
        F::AppClose { code, reason } => {
            ints(0x1d, &[*code, reason.len() as u64]);
            out.extend_from_slice(reason);
        }
        F::Done => out.push(0x1e),
    }
}
