use crate::vx;
use quic_sea::verif_hooks as q;
use q::PacketHeader;

/// protecting and unprotecting any header with any mask
#[no_mangle]
pub extern "C" fn hp_header() {
    let long = vx::param(0) == 1;
    let mut b = vx::bytes(if long { 16 } else { 9 });
    let m: [u8; 5] = vx::array();
    let m2: [u8; 5] = vx::array();
    if long {
        b[0] |= 0x80;
        vx::assume(b[1] != 0 || b[4] != 0);
        b[5] = 4;
        b[10] = 5;
    } else {
        b[0] &= 0x7f;
    }
    let mut s = q::make_result_stream(&b);
    match q::next_header_from_stream(&mut s) {
        Ok(PacketHeader::Long(mut h)) => {
            vx::cover("long");
            vx::check(long, "form");
            let retry = b[0] & 0x30 == 0x30;
            if retry {
                vx::cover("retry");
                // Retry carries neither header protection nor a packet number
                let w = h.to_bytes();
                h.remove_protection(&m);
                vx::check(vx::same(&h.to_bytes(), &w), "Retry headers are not protected");
                return;
            }
            vx::check(h.packet_number_length().is_err(), "a protected header does not tell its packet number length");
            h.remove_protection(&m);
            let mut w = b.clone();
            w[0] ^= m[0] & 0x0f;
            vx::log_bytes(&w);
            vx::check(vx::same(&h.to_bytes(), &w), "removal flips only the low four bits of a long header");
            match h.packet_number_length() {
                Ok(n) => vx::check(n == (w[0] & 3) as usize + 1, "the packet number length is read from the unprotected byte"),
                Err(_) => vx::check(false, "an unprotected header tells its packet number length"),
            }
            h.remove_protection(&m2);
            vx::check(vx::same(&h.to_bytes(), &w), "protection is removed once");
            h.add_protection(&m);
            vx::check(vx::same(&h.to_bytes(), &b), "adding the same mask restores the protected header");
            h.add_protection(&m2);
            vx::check(vx::same(&h.to_bytes(), &b), "protection is added once");
            vx::check(h.packet_number_length().is_err(), "a protected header does not tell its packet number length");
        }
        Ok(PacketHeader::Short(mut h)) => {
            vx::cover("short");
            vx::check(!long, "form");
            vx::check(
                h.packet_number_length().is_err() && h.key_phase().is_err() && h.reserved_bits().is_err(),
                "a protected short header does not tell its protected bits",
            );
            h.remove_protection(&m);
            let mut w = b.clone();
            w[0] ^= m[0] & 0x1f;
            vx::check(vx::same(&h.to_bytes(), &w), "removal flips only the low five bits of a short header");
            let ok = match (h.packet_number_length(), h.key_phase(), h.reserved_bits(), h.spin_bit()) {
                (Ok(n), Ok(k), Ok(r), Ok(sp)) => {
                    n == (w[0] & 3) as usize + 1 && k == (w[0] & 4 != 0) && r == (w[0] >> 3) & 3 && sp == (w[0] & 0x20 != 0)
                }
                _ => false,
            };
            vx::check(ok, "an unprotected short header tells its bits");
            h.remove_protection(&m2);
            vx::check(vx::same(&h.to_bytes(), &w), "protection is removed once");
            h.add_protection(&m);
            vx::check(vx::same(&h.to_bytes(), &b), "adding the same mask restores the protected header");
            h.add_protection(&m2);
            vx::check(vx::same(&h.to_bytes(), &b), "protection is added once");
        }
        Err(_) => vx::check(false, "complete headers are accepted"),
    }
}
