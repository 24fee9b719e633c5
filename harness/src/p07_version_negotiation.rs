use crate::p06_header::reference;
use crate::{util, vx};
use quic_sea::verif_hooks as q;

fn vn(b: &[u8]) {
    let c = util::connection(vx::choose(2) == 1, &[1, 2, 3, 4]);
    let want = reference(b);
    let mut s = q::make_result_stream(b);
    match q::decode_packets(&mut s, &c) {
        Ok(ps) => {
            vx::cover("decoded");
            vx::check(s.count() == 0, "the packet extends to the end of the datagram");
            let w = match want {
                Some(w) => w,
                None => {
                    vx::check(false, "truncated version negotiation is rejected");
                    return;
                }
            };
            vx::check((b.len() - w.end) % 4 == 0, "version lists that are not whole 32-bit words are rejected");
            vx::check(ps.len() == 1, "one datagram is one version negotiation packet");
            match ps.into_iter().next() {
                Some(q::Packet::VersionNegotiation(p)) => {
                    let vs = p.verif_supported_versions();
                    let mut raw = Vec::new();
                    for v in vs {
                        raw.extend_from_slice(&v.to_be_bytes());
                    }
                    vx::log_bytes(&raw);
                    vx::check(vx::same(&raw, &b[w.end..]), "the versions are those listed, in order");
                    match p.verif_header().verif_version_negotiation() {
                        Some(v) => vx::check(
                            vx::same(&v.destination_connection_id, &w.dcid) && vx::same(&v.source_connection_id, &w.scid),
                            "both ids are those on the wire, whatever their length",
                        ),
                        None => vx::check(false, "both ids are kept"),
                    }
                    vx::check(vx::same(&p.verif_header().to_bytes(), &b[..w.end]), "the header can be written again");
                }
                _ => vx::check(false, "version 0 is version negotiation whatever the type bits"),
            }
        }
        Err(_) => {
            vx::cover("rejected");
            if let Some(w) = want {
                vx::check((b.len() - w.end) % 4 != 0, "complete version negotiation is accepted");
            }
        }
    }
    vx::check(cryptomodel::state().opened.is_empty(), "no keys are used");
}

/// any n bytes with version 0 and the long form bit
#[no_mangle]
pub extern "C" fn vn_decode() {
    let mut b = vx::bytes(vx::param(0) as usize);
    if !b.is_empty() {
        b[0] |= 0x80;
    }
    for i in 1..5 {
        if i < b.len() {
            b[i] = 0;
        }
    }
    vn(&b);
}

/// given id lengths, k more bytes
#[no_mangle]
pub extern "C" fn vn_decode_ids() {
    let (dl, sl, k) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let mut b = vx::bytes(7 + dl + sl + k);
    b[0] |= 0x80;
    for i in 1..5 {
        b[i] = 0;
    }
    b[5] = dl as u8;
    b[6 + dl] = sl as u8;
    vn(&b);
}
