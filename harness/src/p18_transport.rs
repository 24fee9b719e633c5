use crate::{spec, vx};
use quic_sea::verif_hooks as q;
use q::TransportParameter as T;
use std::net::{Ipv4Addr, Ipv6Addr};

/// any parameter of a kind: identifier, length, value (RFC 9000 section 18)
#[no_mangle]
pub extern "C" fn transport_parameter() {
    let (id, n) = (vx::param(0), vx::param(1) as usize);
    let v = vx::u64();
    let d = vx::bytes(n);
    let int = |v: u64| {
        let mut o = Vec::new();
        if v <= spec::VARINT_MAX {
            spec::put_varint(&mut o, v);
            Some(o)
        } else {
            None
        }
    };
    let (p, value): (T, Option<Vec<u8>>) = match id {
        0x00 => (T::OriginalDestinationConnectionId(d.clone()), Some(d)),
        0x01 => (T::MaxIdleTimeout(v), int(v)),
        0x02 => {
            let t: [u8; 16] = vx::array();
            (T::StatelessResetToken(t), Some(t.to_vec()))
        }
        0x03 => (T::MaxUdpPayloadSize(v), int(v)),
        0x04 => (T::InitialMaxData(v), int(v)),
        0x05 => (T::InitialMaxStreamDataBidiLocal(v), int(v)),
        0x06 => (T::InitialMaxStreamDataBidiRemote(v), int(v)),
        0x07 => (T::InitialMaxStreamDataUni(v), int(v)),
        0x08 => (T::InitialMaxStreamsBidi(v), int(v)),
        0x09 => (T::InitialMaxStreamsUni(v), int(v)),
        0x0a => (T::AckDelayExponent(v), int(v)),
        0x0b => (T::MaxAckDelay(v), int(v)),
        0x0c => (T::DisableActiveMigration, Some(vec![])),
        0x0d => {
            let a4: [u8; 4] = vx::array();
            let a6: [u8; 16] = vx::array();
            let (p4, p6) = (vx::u16(), vx::u16());
            let token: [u8; 16] = vx::array();
            let mut w = a4.to_vec();
            w.extend_from_slice(&p4.to_be_bytes());
            w.extend_from_slice(&a6);
            w.extend_from_slice(&p6.to_be_bytes());
            w.push(n as u8);
            w.extend_from_slice(&d);
            w.extend_from_slice(&token);
            (T::PreferredAddress(q::PreferredAddress::verif_new(Ipv4Addr::from(a4), p4, Ipv6Addr::from(a6), p6, d, token)), Some(w))
        }
        0x0e => (T::ActiveConnectionIdLimit(v), int(v)),
        0x0f => (T::InitialSourceConnectionId(d.clone()), Some(d)),
        _ => (T::RetrySourceConnectionId(d.clone()), Some(d)),
    };
    vx::check(p.identifier_val() == id, "the identifier is the registered one");
    match (p.serialize(), value) {
        (Ok(g), Some(w)) => {
            vx::cover("written");
            let mut e = Vec::new();
            spec::put_varint(&mut e, id);
            spec::put_varint(&mut e, w.len() as u64);
            e.extend_from_slice(&w);
            vx::log_bytes(&g);
            vx::check(vx::same(&g, &e), "a parameter is its identifier, the length of its value and its value");
        }
        (Err(_), None) => vx::cover("refused"),
        (Ok(_), None) => vx::check(false, "values above 2^62-1 are refused"),
        (Err(_), Some(_)) => vx::check(false, "values that fit are written"),
    }
}
