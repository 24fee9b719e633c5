use crate::{crypt::Keys, util, vx};
use quic_sea::verif_hooks as q;

fn sample(b: &[u8]) -> impl Iterator<Item = q::Result<u8>> + '_ {
    q::make_result_stream(b)
}

/// Initial keys of both roles for any destination id of a given length
#[no_mangle]
pub extern "C" fn initial_keys() {
    let dl = vx::param(0) as usize;
    let server = vx::bool();
    let dcid = vx::bytes(dl);
    let c = util::connection(server, &dcid);
    let (mine, theirs) = (Keys::initial(server, &dcid), Keys::initial(!server, &dcid));
    let pt = vx::bytes(3);
    let aad = vx::bytes(2);
    let pn = vx::u64();
    let block = vx::bytes(16);
    match c.encrypt_local_payload(util::space(0), &pt, &aad, pn) {
        Ok(g) => {
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &mine.seal(pn, &aad, &pt)), "packets are sealed with the keys RFC 9001 derives for this role");
            vx::check(
                matches!(c.get_local_protected_payload_len(util::space(0), pt.len()), Ok(n) if n == g.len()),
                "the announced protected length is the actual one",
            );
        }
        Err(_) => vx::check(false, "Initial payloads can be sealed"),
    }
    let w = theirs.seal(pn, &aad, &pt);
    match c.decrypt_remote_payload(util::space(0), &w, &aad, pn) {
        Ok(g) => vx::check(vx::same(&g, &pt), "packets of the peer are opened with the peer's keys"),
        Err(_) => vx::check(false, "packets of the peer are opened with the peer's keys"),
    }
    match (c.get_local_hp_mask(util::space(0), &mut sample(&block)), c.get_remote_hp_mask(util::space(0), &mut sample(&block))) {
        (Ok(a), Ok(b)) => {
            vx::check(vx::same(&a, &mine.mask(&block)[..5]), "the own header protection key is the one RFC 9001 derives");
            vx::check(vx::same(&b, &theirs.mask(&block)[..5]), "the peer's header protection key is the one RFC 9001 derives");
        }
        _ => vx::check(false, "masks can be computed"),
    }
    vx::cover("derived");
}

/// keys from any traffic secret
#[no_mangle]
pub extern "C" fn traffic_keys() {
    let secret = vx::bytes(vx::param(0) as usize);
    match q::tls::Secrets::from_secret(&q::tls::TLS13_AES_128_GCM_SHA256, &secret) {
        Ok(s) => {
            vx::cover("derived");
            let k = Keys::of(&secret);
            let (pt, aad, pn, block) = (vx::bytes(2), vx::bytes(3), vx::u64(), vx::bytes(16));
            match s.encrypt_payload(&pt, Some(&aad), pn) {
                Ok(g) => vx::check(vx::same(&g, &k.seal(pn, &aad, &pt)), "payloads are sealed under the derived key and nonce"),
                Err(_) => vx::check(false, "payloads can be sealed"),
            }
            match s.decrypt_payload(&k.seal(pn, &aad, &pt), Some(&aad), pn) {
                Ok(g) => vx::check(vx::same(&g, &pt), "payloads are opened under the derived key and nonce"),
                Err(_) => vx::check(false, "payloads are opened under the derived key and nonce"),
            }
            match s.get_header_protection_mask(&mut sample(&block)) {
                Ok(m) => vx::check(vx::same(&m, &k.mask(&block)[..5]), "masks are computed with the derived header protection key"),
                Err(_) => vx::check(false, "masks can be computed"),
            };
        }
        Err(_) => {
            vx::cover("refused");
            vx::check(secret.len() < 32, "secrets of the hash length are accepted");
        }
    }
}
