use crate::vx;
use quic_sea::verif_hooks as q;
use q::{PacketHeader, PacketType};

pub fn kind(t: &PacketType) -> u64 {
    match t {
        PacketType::VersionNegotiation => 1,
        PacketType::Initial => 2,
        PacketType::ZeroRtt => 3,
        PacketType::Handshake => 4,
        PacketType::Retry => 5,
        PacketType::OneRtt => 6,
        PacketType::StatelessReset => 7,
    }
}

pub struct H {
    pub kind: u64,
    pub version: u32,
    pub dcid: Vec<u8>,
    pub scid: Vec<u8>,
    pub end: usize,
}

/// the header of a datagram by RFC 9000 section 17 (8-byte ids in short headers)
pub fn reference(b: &[u8]) -> Option<H> {
    if b.is_empty() {
        return None;
    }
    if b[0] & 0x80 == 0 {
        if b.len() < 9 {
            return None;
        }
        return Some(H { kind: 6, version: 0, dcid: b[1..9].to_vec(), scid: vec![], end: 9 });
    }
    if b.len() < 6 {
        return None;
    }
    let version = (b[1] as u32) << 24 | (b[2] as u32) << 16 | (b[3] as u32) << 8 | b[4] as u32;
    let vn = version == 0;
    let dl = vx::fork(b[5] as u64) as usize;
    if !vn && dl > 20 || b.len() < 7 + dl {
        return None;
    }
    let sl = vx::fork(b[6 + dl] as u64) as usize;
    if !vn && sl > 20 || b.len() < 7 + dl + sl {
        return None;
    }
    let kind = if vn {
        1
    } else {
        match b[0] >> 4 & 3 {
            0 => 2,
            1 => 3,
            2 => 4,
            _ => 5,
        }
    };
    Some(H { kind, version, dcid: b[6..6 + dl].to_vec(), scid: b[7 + dl..7 + dl + sl].to_vec(), end: 7 + dl + sl })
}

fn headers(b: &[u8]) {
    let mut s = q::make_result_stream(b);
    let got = q::next_header_from_stream(&mut s);
    let left = s.count();
    match (got, reference(b)) {
        (Ok(h), Some(w)) => {
            vx::check(left == b.len() - w.end, "exactly the header is consumed");
            vx::check(kind(&h.get_packet_type()) == w.kind, "the packet type is the one on the wire");
            vx::log(w.kind);
            if w.kind != 1 {
                vx::check(h.get_destination_id_length() as usize == w.dcid.len(), "the destination id length is the one on the wire");
                vx::check(
                    vx::same(&h.get_destination_id().to_var_bytes(w.dcid.len()), &w.dcid),
                    "the destination id is the one on the wire",
                );
            }
            match h {
                PacketHeader::Long(h) => {
                    vx::cover("long");
                    vx::check(w.kind != 6, "the form bit decides between long and short headers");
                    vx::check(h.version == w.version, "the version is the one on the wire");
                    vx::check(kind(&h.packet_type()) == w.kind, "the packet type is the one on the wire");
                    vx::check(
                        h.destination_connection_id_length as usize == w.dcid.len()
                            && h.source_connection_id_length as usize == w.scid.len(),
                        "id lengths are those on the wire",
                    );
                    if w.kind == 1 {
                        vx::cover("version negotiation");
                        match h.verif_version_negotiation() {
                            Some(v) => vx::check(
                                vx::same(&v.destination_connection_id, &w.dcid) && vx::same(&v.source_connection_id, &w.scid),
                                "ids are those on the wire",
                            ),
                            None => vx::check(false, "version negotiation ids are kept"),
                        }
                    } else {
                        vx::check(
                            vx::same(&h.destination_connection_id.to_var_bytes(w.dcid.len()), &w.dcid)
                                && vx::same(&h.source_connection_id.to_var_bytes(w.scid.len()), &w.scid),
                            "ids are those on the wire",
                        );
                    }
                    vx::check(vx::same(&h.to_bytes(), &b[..w.end]), "writing the header again gives the same bytes");
                }
                PacketHeader::Short(h) => {
                    vx::cover("short");
                    vx::check(w.kind == 6, "the form bit decides between long and short headers");
                    vx::check(
                        vx::same(&h.destination_connection_id.to_var_bytes(8), &w.dcid),
                        "ids are those on the wire",
                    );
                    vx::check(vx::same(&h.to_bytes(), &b[..w.end]), "writing the header again gives the same bytes");
                }
            }
        }
        (Err(_), None) => vx::cover("rejected"),
        (Ok(_), None) => vx::check(false, "truncated headers and over-long ids are rejected"),
        (Err(_), Some(_)) => vx::check(false, "complete headers are accepted"),
    }
}

/// any n bytes
#[no_mangle]
pub extern "C" fn header_decode() {
    let b = vx::bytes(vx::param(0) as usize);
    headers(&b);
}

/// long headers with given id lengths and any content, followed by k more bytes
#[no_mangle]
pub extern "C" fn header_decode_ids() {
    let (dl, sl, k, version0) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize, vx::param(3) == 1);
    let mut b = vx::bytes(7 + dl + sl + k);
    b[0] |= 0x80;
    if version0 {
        for i in 1..5 {
            b[i] = 0;
        }
    } else {
        vx::assume(b[1] != 0 || b[2] != 0 || b[3] != 0 || b[4] != 0);
    }
    b[5] = dl as u8;
    b[6 + dl] = sl as u8;
    headers(&b);
}
