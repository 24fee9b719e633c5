use crate::{util, vx};
use quic_sea::verif_hooks as q;
use q::FromDatagram;

/// what an id feeds to a hash
struct Fed(Vec<u8>);
impl std::hash::Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
fn fed(v: &q::U160) -> Vec<u8> {
    let mut f = Fed(Vec::new());
    std::hash::Hash::hash(v, &mut f);
    f.0
}

/// ids of n bytes read from the wire and written again
#[no_mangle]
pub extern "C" fn id_read() {
    let (n, extra) = (vx::param(0) as usize, vx::param(1) as usize);
    let b = vx::bytes(n + extra);
    let mut s = q::make_result_stream(&b);
    match q::var_u160_from_stream(&mut s, n as u8) {
        Ok(v) => {
            vx::cover("read");
            vx::check(s.count() == extra, "exactly the id is consumed");
            let w = util::u160(&b[..n]);
            vx::check(vx::same(&fed(&v), &fed(&w)), "equal ids hash alike");
            vx::check(v.idx0 == w.idx0 && v.idx1 == w.idx1, "the id is the number its bytes spell");
            vx::check(vx::same(&v.to_var_bytes(n), &b[..n]), "writing the id gives its bytes");
            let mut full = vec![0u8; 20 - n];
            full.extend_from_slice(&b[..n]);
            vx::log_bytes(&v.to_bytes());
            vx::check(vx::same(&v.to_bytes(), &full), "the full form is the id with zeroes in front");
        }
        Err(_) => vx::check(false, "a complete id is read"),
    }
    // cut short at any point
    if n > 0 {
        let k = vx::choose(n as u64) as usize;
        let mut s = q::make_result_stream(&b[..k]);
        vx::check(q::var_u160_from_stream(&mut s, n as u8).is_err(), "an incomplete id is rejected");
        vx::cover("cut");
    }
}

/// any id written with any length
#[no_mangle]
pub extern "C" fn id_write() {
    let b: [u8; 20] = vx::array();
    let v = util::u160(&b);
    vx::check(vx::same(&v.to_bytes(), &b), "the full form is the number, most significant byte first");
    let n = vx::choose(21) as usize;
    vx::cover("written");
    vx::check(vx::same(&v.to_var_bytes(n), &b[20 - n..]), "an id of n bytes is the low n bytes");
    let c: [u8; 20] = vx::array();
    let w = util::u160(&c);
    vx::check((v == w) == vx::same(&b, &c), "ids are equal exactly if their bytes are");
    vx::check(!vx::same(&b, &c) || vx::same(&fed(&v), &fed(&w)), "equal ids hash alike");
    let mut s = q::make_result_stream(&b);
    match q::U160::from_datagram(&mut s) {
        Ok(r) => {
            vx::check(r == v, "twenty bytes are read as one id");
            vx::check(s.count() == 0, "exactly the id is consumed");
        }
        Err(_) => vx::check(false, "a complete id is read"),
    }
    let k = vx::choose(20) as usize;
    let mut s = q::make_result_stream(&b[..k]);
    vx::check(q::U160::from_datagram(&mut s).is_err(), "an incomplete id is rejected");
    let z = q::U160::zero();
    vx::check(vx::same(&z.to_bytes(), &[0; 20]), "zero is zero");
}

/// 8-byte ids, as this endpoint issues them
#[no_mangle]
pub extern "C" fn id_u64() {
    let n = vx::param(0) as usize;
    let x = vx::u64();
    let v = q::U160::from(x);
    vx::check(vx::same(&v.to_var_bytes(8), &x.to_be_bytes()), "an issued id is its eight bytes");
    vx::check(vx::same(&v.to_bytes()[..12], &[0; 12]), "an issued id has no more than eight bytes");
    let b = vx::bytes(n);
    let mut s = q::make_result_stream(&b);
    match q::fixed_len_dcid_from_stream(&mut s) {
        Ok(d) => {
            vx::cover("read");
            vx::check(n >= 8, "an incomplete id is rejected");
            if n >= 8 {
                vx::check(s.count() == n - 8, "exactly the id is consumed");
                vx::check(vx::same(&d.to_var_bytes(8), &b[..8]), "the id is the one on the wire");
                vx::check(!vx::same(&b[..8], &x.to_be_bytes()) || vx::same(&fed(&d), &fed(&v)), "equal ids hash alike");
                vx::check((d == v) == vx::same(&b[..8], &x.to_be_bytes()), "an issued id is recognised on the wire");
            }
        }
        Err(_) => vx::check(n < 8, "a complete id is read"),
    }
    // what a connection keeps
    let len = vx::choose(21) as usize;
    let id = vx::bytes(len);
    let mut c = util::connection(true, &id);
    vx::check(c.get_scid().is_err(), "no source id before one is set");
    c.set_scid(v, 8);
    let (d, dl) = c.get_dcid();
    vx::check(dl as usize == len && vx::same(&d.to_var_bytes(len), &id), "a connection keeps its destination id");
    vx::check(matches!(c.get_scid(), Ok((s, 8)) if s == v), "a connection keeps its source id");
}
