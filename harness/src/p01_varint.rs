use crate::{spec, vx};
use quic_sea::verif_hooks as q;

/// all decoders on every buffer of n bytes
#[no_mangle]
pub extern "C" fn varint_decode() {
    let n = vx::param(0) as usize;
    let b = vx::bytes(n);
    let want = spec::varint(&b, 0);

    match (q::decode_var_int(&b), want) {
        (Ok((v, used)), Some((w, at))) => {
            vx::cover("slice ok");
            vx::log(v);
            vx::check(v == w, "slice decoder returns the encoded value");
            vx::check(used == at, "slice decoder reports the encoded length");
        }
        (Err(_), None) => vx::cover("slice truncated"),
        (Ok(_), None) => vx::check(false, "slice decoder rejects truncated integers"),
        (Err(_), Some(_)) => vx::check(false, "slice decoder accepts complete integers"),
    }

    let mut s = q::make_result_stream(&b);
    match (q::var_int_from_stream(&mut s), want) {
        (Ok(v), Some((w, at))) => {
            vx::cover("stream ok");
            vx::check(v == w, "stream decoder returns the encoded value");
            vx::check(s.count() == n - at, "stream decoder consumes exactly the integer");
        }
        (Err(_), None) => vx::cover("stream truncated"),
        (Ok(_), None) => vx::check(false, "stream decoder rejects truncated integers"),
        (Err(_), Some(_)) => vx::check(false, "stream decoder accepts complete integers"),
    }

    let mut s = q::make_result_stream(&b);
    match (q::var_int_with_bytes_from_stream(&mut s), want) {
        (Ok((v, raw)), Some((w, at))) => {
            vx::check(v == w, "recording decoder returns the encoded value");
            vx::check(vx::same(&raw, &b[..at]), "recording decoder returns the exact bytes read");
            vx::check(s.count() == n - at, "recording decoder consumes exactly the integer");
        }
        (Err(_), None) => {}
        (Ok(_), None) => vx::check(false, "recording decoder rejects truncated integers"),
        (Err(_), Some(_)) => vx::check(false, "recording decoder accepts complete integers"),
    }
}

/// the encoder on every 64-bit value
#[no_mangle]
pub extern "C" fn varint_encode() {
    let v = vx::u64();
    match q::encode_var_int(v) {
        Ok(e) => {
            vx::cover("encoded");
            vx::check(v <= spec::VARINT_MAX, "values above 2^62-1 are refused");
            let mut w = Vec::new();
            spec::put_varint(&mut w, v);
            vx::log_bytes(&e);
            vx::check(vx::same(&e, &w), "the encoding is the shortest big-endian form");
            match q::decode_var_int(&e) {
                Ok((d, used)) => {
                    vx::check(d == v && used == e.len(), "decoding an encoding gives the value back")
                }
                Err(_) => vx::check(false, "every encoding decodes"),
            }
        }
        Err(_) => {
            vx::cover("refused");
            vx::check(v > spec::VARINT_MAX, "values up to 2^62-1 are encoded");
        }
    }
}
