use crate::p12_packet_read::{send, space_of};
use crate::{crypt::Keys, util, vx};
use quic_sea::verif_hooks as q;

/// without keys nothing is sent or accepted in a space
#[no_mangle]
pub extern "C" fn keys_missing() {
    let sp = vx::param(0);
    let server = vx::bool();
    let dcid = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let mut c = util::connection(server, &dcid);
    c.set_scid(q::U160::from(7), 8);
    // which directions have keys in the space
    let (l, r) = (vx::choose(2) == 1, vx::choose(2) == 1);
    let (a, b) = ([1u8; 32], [2u8; 32]);
    c.verif_set_secrets(
        util::space(sp),
        if l { Some(util::secrets(&a)) } else { None },
        if r { Some(util::secrets(&b)) } else { None },
    );
    // and all others do
    for o in 0..3 {
        if o != sp {
            let s = [3 + o as u8; 32];
            c.verif_set_secrets(util::space(o), Some(util::secrets(&s)), Some(util::secrets(&s)));
        }
    }
    let (pt, aad, pn, block) = (vx::bytes(2), vx::bytes(2), vx::u64(), vx::bytes(16));
    match c.encrypt_local_payload(util::space(sp), &pt, &aad, pn) {
        Ok(g) => {
            vx::cover("sealed");
            vx::check(l, "nothing is sealed without keys");
            vx::check(vx::same(&g, &Keys::of(&a).seal(pn, &aad, &pt)), "a space seals with its own keys");
        }
        Err(_) => vx::check(!l, "a space with keys seals"),
    }
    vx::check(c.get_local_protected_payload_len(util::space(sp), 5).is_ok() == l, "no protected length without keys");
    match c.get_local_hp_mask(util::space(sp), &mut q::make_result_stream(&block)) {
        Ok(m) => {
            vx::check(l, "no mask without keys");
            vx::check(vx::same(&m, &Keys::of(&a).mask(&block)[..5]), "a space masks with its own keys");
        }
        Err(_) => vx::check(!l, "a space with keys masks"),
    };
    match c.get_remote_hp_mask(util::space(sp), &mut q::make_result_stream(&block)) {
        Ok(m) => {
            vx::check(r, "no mask without keys");
            vx::check(vx::same(&m, &Keys::of(&b).mask(&block)[..5]), "a space unmasks with its own keys");
        }
        Err(_) => vx::check(!r, "a space with keys unmasks"),
    };
    let w = Keys::of(&b).seal(pn, &aad, &pt);
    match c.decrypt_remote_payload(util::space(sp), &w, &aad, pn) {
        Ok(g) => {
            vx::cover("opened");
            vx::check(r, "nothing is opened without keys");
            vx::check(vx::same(&g, &pt), "a space opens with its own keys");
        }
        Err(_) => vx::check(!r, "a space with keys opens"),
    }
    // packets need the keys to be written
    let fs = vec![q::Frame::Ping, q::Frame::Ping, q::Frame::Ping, q::Frame::Ping];
    if sp == 0 {
        let w = q::PacketInitial::new(fs, None, &mut c).and_then(|p| p.verif_serialize(&c));
        vx::check(w.is_ok() == l, "Initial packets are written with Initial keys only");
    } else if sp == 1 {
        let w = q::PacketHandshake::new(fs, &mut c).and_then(|p| p.verif_serialize(&c));
        vx::check(w.is_ok() == l, "Handshake packets are written with Handshake keys only");
    }
}

/// A packet of one kind protected with the keys of another space or of the wrong direction (or
/// arriving where its space has no keys) is not accepted.
#[no_mangle]
pub extern "C" fn keys_wrong() {
    let (kind, with, pn_len) = (vx::param(0), vx::param(1), vx::param(2) as usize);
    let server = vx::bool();
    let dcid = [1u8, 2, 3, 4, 5, 6, 7, 8];
    let mut c = util::connection(server, &dcid);
    // with: 0..2 remote keys of that space, 10..12 own keys of that space, 20 no keys at all
    let mut keys = Keys::of(&[9u8; 32]);
    for s in 0..3u64 {
        let (l, r) = if s == 0 {
            (Keys::initial(server, &dcid), Keys::initial(!server, &dcid))
        } else {
            let (a, b) = ([10 + s as u8; 32], [20 + s as u8; 32]);
            if !(with == 20 && s == space_of(kind)) {
                c.verif_set_secrets(util::space(s), Some(util::secrets(&a)), Some(util::secrets(&b)));
            }
            (Keys::of(&a), Keys::of(&b))
        };
        if with == s || with == 20 && s == space_of(kind) {
            keys = r;
        } else if with == 10 + s {
            keys = l;
        }
    }
    if with == 20 && kind == 0 {
        c.verif_set_secrets(util::space(0), None, None);
    }
    let pn = vx::u64();
    vx::assume(pn >> (8 * pn_len) == 0);
    let mut payload = vec![6, 0, 3];
    payload.extend(vx::bytes(3));
    let s = match send(&keys, kind, &dcid, &[9], 1, pn, pn_len, payload) {
        Some(s) => s,
        None => return,
    };
    let mut st = q::make_result_stream(&s.wire);
    let r = q::decode_packets(&mut st, &c);
    vx::cover("sent");
    vx::log_bytes(&s.wire);
    if with == space_of(kind) {
        vx::check(r.is_ok(), "packets protected with the right keys are accepted");
    } else {
        vx::check(r.is_err(), "packets protected with other keys are not accepted");
    }
}
