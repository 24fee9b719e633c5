//! Reference packet protection (RFC 9001 section 5, RFC 8446 section 7.1) over the idealised
//! primitives; independent of the library's own derivations.
use cryptomodel::{function, seal, Kind};

pub const SALT_V1: [u8; 20] = [
    0x38, 0x76, 0x2c, 0xf7, 0xf5, 0x59, 0x34, 0xb3, 0x4d, 0x17, 0x9a, 0xe6, 0xa4, 0xc8, 0x0c, 0xad, 0xcc, 0xbb, 0x7f, 0x0a,
];

pub fn hkdf_label(len: usize, label: &[u8], context: &[u8]) -> Vec<u8> {
    let mut v = vec![(len >> 8) as u8, len as u8, (6 + label.len()) as u8];
    v.extend_from_slice(b"tls13 ");
    v.extend_from_slice(label);
    v.push(context.len() as u8);
    v.extend_from_slice(context);
    v
}
pub fn expand(secret: &[u8], label: &[u8], len: usize) -> Vec<u8> {
    function(Kind::Expand, secret, false, &hkdf_label(len, label, b""), len)
}
pub fn initial_secret(server: bool, dcid: &[u8]) -> Vec<u8> {
    let s = function(Kind::Extract, &SALT_V1, false, dcid, 32);
    expand(&s, if server { b"server in" } else { b"client in" }, 32)
}

#[derive(Clone)]
pub struct Keys {
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub hp: Vec<u8>,
}
impl Keys {
    pub fn of(secret: &[u8]) -> Keys {
        Keys { hp: expand(secret, b"quic hp", 16), iv: expand(secret, b"quic iv", 12), key: expand(secret, b"quic key", 16) }
    }
    pub fn initial(server: bool, dcid: &[u8]) -> Keys {
        Keys::of(&initial_secret(server, dcid))
    }
    pub fn nonce(&self, pn: u64) -> Vec<u8> {
        let mut n = self.iv.clone();
        for i in 0..8 {
            n[4 + i] ^= (pn >> (56 - 8 * i)) as u8;
        }
        n
    }
    pub fn mask(&self, sample: &[u8]) -> Vec<u8> {
        function(Kind::Block, &self.hp, false, sample, 16)
    }
    /// ciphertext and tag
    pub fn seal(&self, pn: u64, aad: &[u8], pt: &[u8]) -> Vec<u8> {
        let (mut ct, tag) = seal(&self.key, &self.nonce(pn), aad, pt, 16);
        ct.extend_from_slice(&tag);
        ct
    }
    /// `head` is the whole unprotected header before the packet number.  None when the payload is
    /// too short to be sampled.
    pub fn protect(&self, head: &[u8], pn: u64, pn_len: usize, pt: &[u8]) -> Option<Vec<u8>> {
        let pnb = &pn.to_be_bytes()[8 - pn_len..];
        let mut aad = head.to_vec();
        aad.extend_from_slice(pnb);
        let body = self.seal(pn, &aad, pt);
        if body.len() + pn_len < 20 {
            return None;
        }
        let mask = self.mask(&body[4 - pn_len..20 - pn_len]);
        let mut out = aad;
        out[0] ^= mask[0] & if out[0] & 0x80 != 0 { 0x0f } else { 0x1f };
        let at = head.len();
        for i in 0..pn_len {
            out[at + i] ^= mask[1 + i];
        }
        out.extend_from_slice(&body);
        Some(out)
    }
}

/// long header up to and excluding the packet number
pub fn long_head(kind: u8, pn_len: usize, version: u32, dcid: &[u8], scid: &[u8], token: Option<&[u8]>, pt_len: usize) -> Vec<u8> {
    long_head_enc(kind, pn_len, version, dcid, scid, token, pt_len, (0, 0))
}
/// appends `x` in 1, 2, 4 or 8 bytes (code 1..4), or the shortest form (code 0)
pub fn put_varint_as(h: &mut Vec<u8>, x: u64, code: u64) {
    match code {
        0 => crate::spec::put_varint(h, x),
        _ => {
            let n = 1usize << (code - 1);
            let at = h.len();
            h.extend_from_slice(&x.to_be_bytes()[8 - n..]);
            h[at] |= (code as u8 - 1) << 6;
        }
    }
}
/// as `long_head`, with the sizes of the token length and length fields chosen by the sender
pub fn long_head_enc(
    kind: u8, pn_len: usize, version: u32, dcid: &[u8], scid: &[u8], token: Option<&[u8]>, pt_len: usize, enc: (u64, u64),
) -> Vec<u8> {
    let mut h = vec![0xc0 | kind << 4 | (pn_len as u8 - 1)];
    h.extend_from_slice(&version.to_be_bytes());
    h.push(dcid.len() as u8);
    h.extend_from_slice(dcid);
    h.push(scid.len() as u8);
    h.extend_from_slice(scid);
    if let Some(t) = token {
        put_varint_as(&mut h, t.len() as u64, enc.0);
        h.extend_from_slice(t);
    }
    put_varint_as(&mut h, (pn_len + pt_len + 16) as u64, enc.1);
    h
}
