use crate::{spec::VARINT_MAX, util, vx};
use cryptomodel::state;
use quic_sea::verif_hooks as q;

/// k packets of any mix of kinds from any sending state: no key and nonce is used twice
#[no_mangle]
pub extern "C" fn nonce_unique() {
    let k = vx::param(0);
    let server = vx::bool();
    let dcid = vx::bytes(4);
    let mut c = util::connection(server, &dcid);
    c.set_scid(q::U160::from(7), 8);
    c.verif_set_secrets(util::space(1), Some(util::secrets(&[1u8; 32])), Some(util::secrets(&[2u8; 32])));
    for s in 0..2 {
        let n = vx::u64();
        vx::assume(n < VARINT_MAX - 8);
        // four-byte numbers (the acknowledged one lies 2^24 to 2^30 back) or shorter ones
        let d = vx::u64();
        let (lo, hi) = [(24, 30), (0, 6), (8, 14), (16, 22)][vx::param(2) as usize & 3];
        vx::assume(d >= 1 << lo && d < 1 << hi && d <= n);
        c.verif_set_next_pn(util::space(s), n);
        c.verif_set_largest_local_ack(util::space(s), Some(n - d));
    }
    let mut sent = 0;
    for i in 0..k {
        let kind = if vx::param(1) > 0 { vx::param(1) >> i & 1 } else { vx::choose(2) };
        let d = vx::bytes(4);
        let fs = vec![q::Frame::Crypto(q::FrameCrypto::new(d))];
        let r = if kind == 0 {
            q::PacketInitial::new(fs, None, &mut c).and_then(|p| p.verif_serialize(&c))
        } else {
            q::PacketHandshake::new(fs, &mut c).and_then(|p| p.verif_serialize(&c))
        };
        if r.is_ok() {
            vx::cover("sent");
            sent += 1;
        } else {
            vx::check(false, "packets are written");
        }
    }
    let u = &state().seals;
    vx::check(u.len() >= sent, "every packet is sealed");
    for i in 0..u.len() {
        for j in 0..i {
            vx::check(!(vx::same(&u[i].0, &u[j].0) && vx::same(&u[i].1, &u[j].1)), "no key and nonce is used twice");
        }
    }
}

/// different packet numbers give different nonces, whatever the keys, in both directions
#[no_mangle]
pub extern "C" fn nonce_injective() {
    let s = util::secrets(&vx::bytes(32));
    let (a, b) = (vx::u64(), vx::u64());
    vx::assume(a != b);
    let p = [0u8; 1];
    let _ = s.encrypt_payload(&p, Some(&p), a);
    let _ = s.encrypt_payload(&p, Some(&p), b);
    let u = &state().seals;
    vx::check(u.len() == 2, "every payload is sealed");
    if u.len() == 2 {
        vx::cover("sealed");
        vx::check(u[0].1.len() == 12 && u[1].1.len() == 12, "nonces have twelve bytes");
        vx::check(vx::same(&u[0].0, &u[1].0), "the key stays the same");
        vx::check(!vx::same(&u[0].1, &u[1].1), "different numbers give different nonces");
    }
    let _ = s.decrypt_payload(&[0u8; 17], Some(&p), a);
    let o = &state().opened;
    vx::check(o.len() == 1 && vx::same(&o[0].iv, &u[0].1) && vx::same(&o[0].key, &u[0].0), "opening uses the nonce sealing uses");
}

/// what was sealed before, under any number below the last one issued, is not repeated by
/// attempts to send from any state, failed ones included
#[no_mangle]
pub extern "C" fn nonce_earlier() {
    let (kind, attempts, acked) = (vx::param(0), vx::param(1), vx::param(2) == 1);
    let mut c = util::connection(vx::bool(), &[1, 2, 3, 4]);
    c.set_scid(q::U160::from(7), 8);
    c.verif_set_secrets(util::space(1), Some(util::secrets(&[1u8; 32])), Some(util::secrets(&[2u8; 32])));
    let (n, m) = (vx::u64(), vx::u64());
    vx::assume(n < VARINT_MAX - 8 && m < n);
    c.verif_set_next_pn(util::space(kind), n);
    if acked {
        let a = vx::u64();
        vx::assume(a < n);
        c.verif_set_largest_local_ack(util::space(kind), Some(a));
    }
    let earlier = c.encrypt_local_payload(util::space(kind), &[0; 3], &[0; 3], m);
    vx::check(earlier.is_ok(), "payloads are sealed");
    for _ in 0..attempts {
        let fs = vec![q::Frame::Crypto(q::FrameCrypto::new(vec![9; 4]))];
        let r = if kind == 0 {
            q::PacketInitial::new(fs, None, &mut c).and_then(|p| p.verif_serialize(&c))
        } else {
            q::PacketHandshake::new(fs, &mut c).and_then(|p| p.verif_serialize(&c))
        };
        vx::cover(if r.is_ok() { "sent" } else { "refused" });
    }
    let u = &state().seals;
    for i in 0..u.len() {
        for j in 0..i {
            vx::check(!(vx::same(&u[i].0, &u[j].0) && vx::same(&u[i].1, &u[j].1)), "no key and nonce is used twice");
        }
    }
}
