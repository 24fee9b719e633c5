use crate::{spec::VARINT_MAX, util, vx};
use quic_sea::verif_hooks as q;

/// what a sender writes for any packet number and any acknowledged number, and what any receiver
/// whose largest received number lies between makes of it
#[no_mangle]
pub extern "C" fn pn_send_recv() {
    let (sp, acked) = (vx::param(0), vx::param(1) == 1);
    let pn = vx::u64();
    vx::assume(pn >= 1 && pn <= VARINT_MAX);
    let mut c = util::connection(true, &[1, 2, 3, 4]);
    c.verif_set_next_pn(util::space(sp), pn - 1);
    let largest = vx::u64();
    if acked {
        vx::assume(largest < pn);
        c.verif_set_largest_local_ack(util::space(sp), Some(largest));
    }
    // numbers of the other spaces must not matter
    for o in 0..3 {
        if o != sp {
            c.verif_set_next_pn(util::space(o), 7);
            c.verif_set_largest_local_ack(util::space(o), Some(5));
            c.verif_set_largest_remote_ack(util::space(o), Some(0x1234_5678_9a));
        }
    }
    let (n, b) = match c.get_next_pn(util::space(sp)) {
        Ok(x) => x,
        Err(_) => {
            vx::cover("refused");
            if acked {
                vx::check(pn - largest >= 1 << 31, "numbers within half of the 32-bit window can be sent");
            } else {
                vx::check(pn >= (1 << 31) - 1, "numbers can be sent before the first acknowledgement");
            }
            return;
        }
    };
    vx::cover("sent");
    vx::log(n);
    vx::log_bytes(&b);
    vx::check(n == pn, "the next number follows the last");
    let len = b.len();
    vx::check(len >= 1 && len <= 4, "a packet number takes one to four bytes");
    if len < 1 || len > 4 {
        return;
    }
    match len {
        1 => vx::cover("one byte"),
        2 => vx::cover("two bytes"),
        3 => vx::cover("three bytes"),
        _ => vx::cover("four bytes"),
    }
    vx::check(vx::same(&b, &pn.to_be_bytes()[8 - len..]), "the low bytes of the number are sent");
    let half = 1u64 << (8 * len - 1);
    if acked {
        vx::check(pn - largest <= half, "the encoding covers twice the unacknowledged range");
    }
    // any receiver that has seen what was acknowledged and nothing far beyond
    let r = vx::u64();
    vx::assume(r <= VARINT_MAX && r < pn.wrapping_add(half - 1));
    let mut d = util::connection(false, &[1, 2, 3, 4]);
    for o in 0..3 {
        if o != sp {
            d.verif_set_largest_remote_ack(util::space(o), Some(0x1234_5678_9a));
        }
    }
    if acked || vx::choose(2) == 1 {
        if acked {
            vx::assume(r >= largest);
        } else {
            vx::assume(pn <= half || r + 1 >= pn - half);
        }
        d.verif_set_largest_remote_ack(util::space(sp), Some(r));
    }
    match d.reconstruct_remote_pn(util::space(sp), &b) {
        Ok(x) => {
            vx::log(x);
            vx::check(x == pn, "the receiver recovers the full packet number");
        }
        Err(_) => vx::check(false, "the receiver recovers the full packet number"),
    }
}

/// recovery of any truncated number against any largest received number (RFC 9000 A.3)
#[no_mangle]
pub extern "C" fn pn_recover() {
    let (sp, len, some) = (vx::param(0), vx::param(1) as usize, vx::param(2) == 1);
    let b = vx::bytes(len);
    let mut t = 0u64;
    for x in &b {
        t = t << 8 | *x as u64;
    }
    let mut d = util::connection(false, &[1, 2, 3, 4]);
    let r = vx::u64();
    vx::assume(r < VARINT_MAX);
    if some {
        d.verif_set_largest_remote_ack(util::space(sp), Some(r));
    }
    match d.reconstruct_remote_pn(util::space(sp), &b) {
        Ok(x) => {
            vx::cover("recovered");
            vx::log(x);
            let win = 1u64 << (8 * len);
            vx::check(x % win == t, "the recovered number ends in the bytes sent");
            vx::check(x <= VARINT_MAX, "a recovered number is a packet number");
            if some {
                // the candidate closest to the next expected number, unless that is no packet number
                let e = r + 1;
                let half = win / 2;
                let near = if x >= e { x - e <= half } else { e - x < half };
                let near = near || x < win && x > e || (x > VARINT_MAX - win && x < e);
                vx::check(near, "the recovered number is the one closest to the next expected number");
            } else {
                vx::check(x == t, "the first number is taken as it is");
            }
        }
        Err(_) => vx::check(false, "every truncated number is recovered"),
    }
}
