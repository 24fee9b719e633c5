use crate::{spec::VARINT_MAX, util, vx};

/// k requests for packet numbers in any mix of spaces, from any state
#[no_mangle]
pub extern "C" fn pn_sequence() {
    let k = vx::param(0);
    let server = vx::bool();
    let mut c = util::connection(server, &[1, 2, 3, 4]);
    let mut last = [0u64; 3];
    for s in 0..3u64 {
        let n = vx::u64();
        vx::assume(n <= VARINT_MAX);
        c.verif_set_next_pn(util::space(s), n);
        last[s as usize] = n;
        if vx::choose(2) == 1 {
            let a = vx::u64();
            vx::assume(a <= n);
            c.verif_set_largest_local_ack(util::space(s), Some(a));
        }
    }
    for _ in 0..k {
        let s = vx::choose(3);
        // a lone connection that only ever used this space
        let mut o = util::connection(server, &[1, 2, 3, 4]);
        o.verif_set_next_pn(util::space(s), last[s as usize]);
        match c.get_next_pn(util::space(s)) {
            Ok((n, b)) => {
                vx::cover("issued");
                vx::log(n);
                vx::check(n > last[s as usize], "numbers of a space strictly increase");
                vx::check(n <= VARINT_MAX, "no number beyond 2^62-1 is issued");
                vx::check(!b.is_empty() && b.len() <= 4 && vx::same(&b, &n.to_be_bytes()[8 - b.len()..]), "the encoding is that of the number");
                if let Ok((m, _)) = o.get_next_pn(util::space(s)) {
                    vx::check(n == m, "numbers do not depend on the other spaces");
                }
                last[s as usize] = n;
            }
            Err(_) => vx::cover("refused"),
        }
    }
}

/// a fresh connection: numbers start the same way in every space
#[no_mangle]
pub extern "C" fn pn_fresh() {
    let k = vx::param(0);
    let mut c = util::connection(vx::bool(), &[1, 2, 3, 4]);
    let mut n: [Option<u64>; 3] = [None; 3];
    for _ in 0..k {
        let s = vx::choose(3) as usize;
        match c.get_next_pn(util::space(s as u64)) {
            Ok((x, b)) => {
                vx::cover("issued");
                vx::log(x);
                vx::check(vx::same(&b, &x.to_be_bytes()[8 - b.len()..]), "the encoding is that of the number");
                match n[s] {
                    None => vx::check(x <= 1, "a space starts at its first number"),
                    Some(y) => vx::check(x == y + 1, "numbers of a space are consecutive"),
                }
                n[s] = Some(x);
            }
            Err(_) => vx::check(false, "a fresh connection issues numbers"),
        }
    }
}

/// Sends by digit of the second parameter (lowest first): 0 Initial, 1 Handshake, 2 an Initial and 3 a
/// Handshake too short to be protected, 4 keys of the Handshake space come, 5 the own id is set, 6 the
/// peer acknowledges what was sent.  Attempts before the id or the keys are there fail.
#[no_mangle]
pub extern "C" fn pn_packets() {
    use quic_sea::verif_hooks as q;
    let (k, mut plan) = (vx::param(0), vx::param(1));
    let mut c = util::connection(vx::bool(), &[1, 2, 3, 4]);
    let mut last = [0u64; 2];
    for s in 0..2u64 {
        let n = vx::u64();
        vx::assume(n < VARINT_MAX - 16);
        c.verif_set_next_pn(util::space(s), n);
        last[s as usize] = n;
        let d = vx::u64();
        vx::assume(d >= 1 << 24 && d < 1 << 30 && d <= n);
        c.verif_set_largest_local_ack(util::space(s), Some(n - d));
    }
    for _ in 0..k {
        let what = plan % 10;
        plan /= 10;
        let fs = if what == 2 || what == 3 {
            vec![]
        } else {
            vec![q::Frame::Ping, q::Frame::Ping, q::Frame::Ping, q::Frame::Ping]
        };
        let (s, r) = match what {
            0 | 2 => (
                0,
                match q::PacketInitial::new(fs, None, &mut c) {
                    Ok(p) => {
                        let _ = p.verif_serialize(&c);
                        Some(q::Packet::Initial(p))
                    }
                    Err(_) => None,
                },
            ),
            1 | 3 => (
                1,
                match q::PacketHandshake::new(fs, &mut c) {
                    Ok(p) => {
                        let _ = p.verif_serialize(&c);
                        Some(q::Packet::Handshake(p))
                    }
                    Err(_) => None,
                },
            ),
            4 => {
                c.verif_set_secrets(util::space(1), Some(util::secrets(&[1u8; 32])), Some(util::secrets(&[2u8; 32])));
                continue;
            }
            5 => {
                c.set_scid(q::U160::from(7), 8);
                continue;
            }
            _ => {
                c.verif_set_largest_local_ack(util::space(0), Some(last[0]));
                c.verif_set_largest_local_ack(util::space(1), Some(last[1]));
                continue;
            }
        };
        match r {
            Some(p) => {
                vx::cover("sent");
                if let Some((_, n, b, _)) = p.verif_parts() {
                    vx::log(n);
                    vx::check(n > last[s], "numbers of a space strictly increase");
                    vx::check(n <= VARINT_MAX, "no number beyond 2^62-1 is issued");
                    vx::check(!b.is_empty() && b.len() <= 4 && vx::same(b, &n.to_be_bytes()[8 - b.len()..]), "the encoding is that of the number");
                    last[s] = n;
                }
            }
            None => vx::cover("failed"),
        }
    }
    // what was sealed: every nonce is that of a different number
    let u = &cryptomodel::state().seals;
    for i in 0..u.len() {
        for j in 0..i {
            vx::check(!(vx::same(&u[i].0, &u[j].0) && vx::same(&u[i].1, &u[j].1)), "no packet is sealed under a number used before");
        }
    }
}
