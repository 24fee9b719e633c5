use quic_sea::verif_hooks as q;
use q::PacketNumberSpace as S;

pub fn u160(b: &[u8]) -> q::U160 {
    let mut hi = 0u32;
    let mut lo = 0u128;
    for x in b {
        hi = hi << 8 | (lo >> 120) as u32;
        lo = lo << 8 | *x as u128;
    }
    q::U160 { idx0: hi, idx1: lo }
}
pub fn space(i: u64) -> S {
    match i {
        0 => S::Initial,
        1 => S::Handshake,
        _ => S::Application,
    }
}
/// a connection, or a failed check
pub fn connection(server: bool, dcid: &[u8]) -> q::Connection {
    match q::Connection::new(server, q::Version::V1, u160(dcid), dcid.len()) {
        Ok(c) => c,
        Err(_) => {
            crate::vx::check(false, "a connection can be created");
            crate::vx::assume(false);
            unreachable!()
        }
    }
}
pub fn secrets(secret: &[u8]) -> q::tls::Secrets {
    cryptomodel::given(secret);
    match q::tls::Secrets::from_secret(&q::tls::TLS13_AES_128_GCM_SHA256, secret) {
        Ok(s) => s,
        Err(_) => {
            crate::vx::check(false, "keys can be derived from a secret");
            crate::vx::assume(false);
            unreachable!()
        }
    }
}
