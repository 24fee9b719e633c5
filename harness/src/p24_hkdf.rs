use crate::{crypt, vx};
use cryptomodel::{function, Kind};
use quic_sea::verif_hooks as q;

/// HKDF-Expand-Label with labels, contexts and outputs of given lengths and any content
#[no_mangle]
pub extern "C" fn expand_label() {
    let (ll, cl, ol) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let secret = vx::bytes(32);
    let (label, context) = (vx::bytes(ll), vx::bytes(cl));
    let mut out = vec![0u8; ol];
    let r = q::tls::hkdf_expand_label_sha256(&secret, &label, &context, &mut out);
    let fits = ll + 6 <= 255 && cl <= 255 && ol <= 255 * 32;
    match r {
        Ok(()) => {
            vx::cover("derived");
            vx::check(fits, "labels, contexts and outputs too long for their length fields are refused");
            if fits {
                let info = crypt::hkdf_label(ol, &label, &context);
                vx::log_bytes(&info);
                let want = function(Kind::Expand, &secret, false, &info, ol);
                vx::check(vx::same(&want, &out), "the secret is expanded with the HkdfLabel of RFC 8446 section 7.1");
            }
        }
        Err(_) => {
            vx::cover("refused");
            vx::check(!fits, "labels, contexts and outputs that fit are accepted");
        }
    }
}

/// HKDF-Extract with salts and keying material of given lengths
#[no_mangle]
pub extern "C" fn extract() {
    let (sl, il, some) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) == 1);
    let (salt, ikm) = (vx::bytes(sl), vx::bytes(il));
    let g = q::tls::hkdf_extract_sha256(if some { Some(&salt) } else { None }, &ikm);
    vx::cover("derived");
    // no salt is the same as an empty one
    let want = function(Kind::Extract, if some { &salt } else { &[] }, false, &ikm, 32);
    vx::check(vx::same(&want, &g), "salt and keying material are used as given");
}
