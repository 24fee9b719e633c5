use crate::vx;
use quic_sea::verif_hooks as q;
use q::{DecodeFromBytes, Error, FromDatagram};

/// n bytes of which reading the one at `bad` fails
#[derive(Clone)]
struct Source<'a> {
    b: &'a [u8],
    at: usize,
    bad: usize,
}
impl<'a> Iterator for Source<'a> {
    type Item = q::Result<u8>;
    fn next(&mut self) -> Option<q::Result<u8>> {
        let i = self.at;
        if i >= self.b.len() {
            return None;
        }
        self.at += 1;
        if i == self.bad {
            Some(Err(Error::ConnectionRefused))
        } else {
            Some(Ok(self.b[i]))
        }
    }
}
fn source(b: &[u8], bad: usize) -> Source<'_> {
    Source { b, at: 0, bad }
}
fn refused<T>(r: &q::Result<T>) -> bool {
    matches!(r, Err(Error::ConnectionRefused))
}

macro_rules! fixed {
    ($t:ty, $n:expr, $b:expr, $bad:expr) => {{
        let b = $b;
        let bad = $bad;
        let mut want: $t = 0;
        for i in 0..$n {
            if i < b.len() {
                want |= (b[i] as $t) << (8 * ($n - 1 - i));
            }
        }
        let r = <$t>::decode_from_bytes(b);
        match r {
            Ok((v, k)) => {
                vx::check(b.len() >= $n, "short input is rejected");
                vx::check(v == want && k == $n, "fixed-width integers are big endian");
                vx::log(v as u64);
            }
            Err(_) => vx::check(b.len() < $n, "complete integers are read"),
        }
        let mut s = source(b, bad);
        let r = <$t>::from_datagram(&mut s);
        if bad < $n && bad < b.len() {
            vx::cover("failing source");
            vx::check(refused(&r), "a failing source is reported");
        } else {
            match r {
                Ok(v) => {
                    vx::cover("read");
                    vx::check(b.len() >= $n, "short input is rejected");
                    vx::check(v == want, "fixed-width integers are big endian");
                    vx::check(s.at == $n, "exactly the integer is consumed");
                }
                Err(_) => vx::check(b.len() < $n, "complete integers are read"),
            }
        }
    }};
}

/// fixed-width integers from n bytes
#[no_mangle]
pub extern "C" fn read_fixed() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let bad = vx::choose(n as u64 + 1) as usize;
    fixed!(u8, 1, &b, bad);
    fixed!(u16, 2, &b, bad);
    fixed!(u32, 4, &b, bad);
    fixed!(u64, 8, &b, bad);
    fixed!(u128, 16, &b, bad);
}

/// counted bytes, counted 32-bit numbers and the rest of the input
#[no_mangle]
pub extern "C" fn read_counted() {
    let (n, bytes) = (vx::param(0) as usize, vx::param(1) == 1);
    let b = vx::bytes(n);
    let bad = vx::choose(n as u64 + 1) as usize;
    let mut s = source(&b, bad);
    if bytes {
        // any count up to the largest a 62-bit length field can announce
        let want = if vx::choose(2) == 1 { vx::u64() } else { vx::choose(n as u64 + 2) };
        vx::assume(want <= crate::spec::VARINT_MAX);
        let want = if want > n as u64 + 1 { want } else { vx::fork(want) };
        let r = q::var_bytes_from_stream(&mut s, want as usize);
        if bad < n && (bad as u64) < want {
            vx::cover("failing source");
            vx::check(refused(&r), "a failing source is reported");
        } else {
            match r {
                Ok(v) => {
                    vx::cover("read");
                    vx::check(want <= n as u64, "short input is rejected");
                    vx::check(vx::same(&v, &b[..want as usize]), "the bytes are those on the wire");
                    vx::check(s.at == want as usize, "exactly the counted bytes are consumed");
                }
                Err(_) => vx::check(want > n as u64, "complete input is read"),
            }
        }
        let r = q::decode_bytes(&b, want as usize);
        match r {
            Ok((v, k)) => vx::check(want <= n as u64 && k as u64 == want && vx::same(&v, &b[..k]), "the bytes are those given"),
            Err(_) => vx::check(want > n as u64, "complete input is read"),
        }
    } else {
        let mut s2 = source(&b, bad);
        let r = q::all_bytes_from_stream(&mut s2);
        if bad < n {
            vx::check(refused(&r), "a failing source is reported");
        } else {
            match r {
                Ok(v) => vx::check(vx::same(&v, &b), "the rest is all that is left"),
                Err(_) => vx::check(false, "the rest is read"),
            }
        }
        let k = vx::choose(5) as usize;
        let r = q::var_u32_from_stream(&mut s, k);
        if bad < n && bad < k {
            vx::cover("failing source");
            vx::check(refused(&r), "a failing source is reported");
        } else {
            match r {
                Ok(v) => {
                    vx::cover("read");
                    vx::check(k <= n, "short input is rejected");
                    let mut w = 0u32;
                    for i in 0..k {
                        w = w << 8 | b[i] as u32;
                    }
                    vx::check(v == w && s.at == k, "the number is big endian");
                }
                Err(_) => vx::check(k > n, "complete input is read"),
            }
        }
    }
}

/// variable-length integers and ids from a source that fails at any point
#[no_mangle]
pub extern "C" fn read_failing() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let bad = vx::choose(n as u64) as usize;
    let len = vx::fork(1u64 << (b[0] >> 6)) as usize;
    let need = if bad == 0 { 1 } else { len };
    let (mut s, mut t) = (source(&b, bad), source(&b, bad));
    let (r, q2) = (q::var_int_from_stream(&mut s), q::var_int_with_bytes_from_stream(&mut t));
    if bad < need {
        vx::cover("failing source");
        vx::check(refused(&r) && refused(&q2), "a failing source is reported");
    } else {
        vx::check(!refused(&r) && !refused(&q2), "nothing past the integer is read");
    }
    let k = vx::choose(n as u64 + 1) as usize;
    let mut s = source(&b, bad);
    let r = q::var_u160_from_stream(&mut s, k as u8);
    vx::check(refused(&r) == (bad < k), "a failing source is reported");
    let mut s = source(&b, bad);
    let r = q::fixed_len_dcid_from_stream(&mut s);
    vx::check(refused(&r) == (bad < 8), "a failing source is reported");
}

/// frames and headers from a source that fails: never delivered
#[no_mangle]
pub extern "C" fn read_failing_frames() {
    let (t, n) = (vx::param(0) as u8, vx::param(1) as usize);
    let mut b = vx::bytes(n);
    b.insert(0, t);
    let bad = vx::choose(n as u64 + 1) as usize;
    let mut s = source(&b, bad);
    let r = q::deserialize_frame(&mut s);
    match r {
        Ok(_) => {
            vx::cover("complete before");
            vx::check(s.at <= bad, "no frame is made of bytes that could not be read");
        }
        Err(e) => {
            if s.at > bad {
                vx::cover("failing source");
                vx::check(matches!(e, Error::ConnectionRefused), "a failing source is reported");
            }
        }
    }
    let mut s = source(&b, bad);
    let r = q::deserialize_frames(&mut s);
    vx::check(r.is_err(), "a payload that could not be read is not delivered");
}
#[no_mangle]
pub extern "C" fn read_failing_header() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let bad = vx::choose(n as u64) as usize;
    let mut s = source(&b, bad);
    match q::next_header_from_stream(&mut s) {
        Ok(_) => {
            vx::cover("complete before");
            vx::check(s.at <= bad, "no header is made of bytes that could not be read");
        }
        Err(e) => {
            if s.at > bad {
                vx::cover("failing source");
                vx::check(matches!(e, Error::ConnectionRefused), "a failing source is reported");
            }
        }
    }
}

/// counted bytes from a long source
#[no_mangle]
pub extern "C" fn read_large() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let want = [0, n / 2, n - 1, n, n + 1][vx::choose(5) as usize];
    let bad = [0, n / 2 - 1, n / 2, n - 1, n][vx::choose(5) as usize];
    let mut s = source(&b, bad);
    let r = q::var_bytes_from_stream(&mut s, want);
    if bad < want.min(n) {
        vx::cover("failing source");
        vx::check(refused(&r), "a failing source is reported");
    } else {
        match r {
            Ok(v) => {
                vx::cover("read");
                vx::check(want <= n, "short input is rejected");
                vx::check(vx::same(&v, &b[..want]), "the bytes are those on the wire");
                vx::check(s.at == want, "exactly the counted bytes are consumed");
            }
            Err(_) => vx::check(want > n, "complete input is read"),
        }
    }
    match q::decode_bytes(&b, want) {
        Ok((v, k)) => vx::check(want <= n && k == want && vx::same(&v, &b[..k]), "the bytes are those given"),
        Err(_) => vx::check(want > n, "complete input is read"),
    }
    let mut s = source(&b, bad);
    let r = q::all_bytes_from_stream(&mut s);
    if bad < n {
        vx::check(refused(&r), "a failing source is reported");
    } else {
        match r {
            Ok(v) => vx::check(vx::same(&v, &b), "the rest is all that is left"),
            Err(_) => vx::check(false, "the rest is read"),
        }
    }
}

/// any count of bytes from a source of n
#[no_mangle]
pub extern "C" fn read_any_count() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let want = vx::choose(n as u64 + 2) as usize;
    let mut s = source(&b, n);
    match q::var_bytes_from_stream(&mut s, want) {
        Ok(v) => {
            vx::cover("read");
            vx::check(want <= n, "short input is rejected");
            vx::check(vx::same(&v, &b[..want]), "the bytes are those on the wire");
            vx::check(s.at == want, "exactly the counted bytes are consumed");
        }
        Err(_) => vx::check(want > n, "complete input is read"),
    }
    match q::decode_bytes(&b, want) {
        Ok((v, k)) => vx::check(want <= n && k == want && vx::same(&v, &b[..k]), "the bytes are those given"),
        Err(_) => vx::check(want > n, "complete input is read"),
    }
}
