//! Several checks in one run: what one call leaves behind must not change what the next one does.
use crate::vx;

/// number of the entry, number of its parameters, the parameters; and so on until 0
#[no_mangle]
pub extern "C" fn sequence() {
    let mut at = 0;
    loop {
        let (code, n) = (vx::param(at), vx::param(at + 1));
        if code == 0 {
            return;
        }
        vx::windowed(at + 2, n, entry(code));
        at += 2 + n;
    }
}
fn entry(code: u64) -> extern "C" fn() {
    match code {
        1 => crate::p01_varint::varint_decode,
        2 => crate::p01_varint::varint_encode,
        3 => crate::p03_frame_decode::frame_decode,
        4 => crate::p03_frame_decode::frame_decode_kind,
        5 => crate::p03_frame_decode::frame_decode_sized,
        6 => crate::p04_frame_encode::frame_encode,
        7 => crate::p04_frame_encode::frame_twice,
        8 => crate::p05_frame_seq::frames_encode,
        9 => crate::p05_frame_seq::frames_decode,
        10 => crate::p05_frame_seq::frames_decode_after,
        11 => crate::p06_header::header_decode,
        12 => crate::p06_header::header_decode_ids,
        13 => crate::p07_version_negotiation::vn_decode,
        14 => crate::p07_version_negotiation::vn_decode_ids,
        15 => crate::p08_header_protection::hp_header,
        16 => crate::p09_packet_number::pn_send_recv,
        17 => crate::p09_packet_number::pn_recover,
        18 => crate::p11_packet_write::packet_write,
        19 => crate::p12_packet_read::packet_read,
        20 => crate::p12_packet_read::packet_between,
        21 => crate::p13_coalesced::coalesced,
        22 => crate::p14_tamper::tamper,
        23 => crate::p15_initial_keys::initial_keys,
        24 => crate::p15_initial_keys::traffic_keys,
        25 => crate::p16_ids::id_read,
        26 => crate::p16_ids::id_write,
        27 => crate::p16_ids::id_u64,
        28 => crate::p17_readers::read_fixed,
        29 => crate::p17_readers::read_counted,
        30 => crate::p17_readers::read_failing,
        31 => crate::p18_transport::transport_parameter,
        32 => crate::p21_key_spaces::keys_missing,
        33 => crate::p21_key_spaces::keys_wrong,
        34 => crate::p22_receive::receive_for,
        35 => crate::p22_receive::receive_unknown,
        36 => crate::p24_hkdf::expand_label,
        37 => crate::p24_hkdf::extract,
        _ => nothing,
    }
}
extern "C" fn nothing() {
    vx::check(false, "the entry exists");
}
