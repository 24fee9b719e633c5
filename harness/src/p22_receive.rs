use crate::p12_packet_read::{matches, send, Sent};
use crate::{crypt::Keys, util, vx};
use quic_sea::verif_hooks as q;
use q::routing::Socket;
use std::net::{Ipv4Addr, SocketAddr};

fn addr() -> SocketAddr {
    SocketAddr::from((Ipv4Addr::new(127, 0, 0, 1), 1000))
}

struct Peer {
    id: [u8; 8],
    keys: [Keys; 3],
}

/// k connections of one socket, each with its own keys in every space
fn socket(k: usize, log: bool) -> (Socket, Vec<Peer>) {
    let mut s = match Socket::bind(addr()) {
        Ok(s) => s,
        Err(_) => {
            vx::check(false, "a socket can be bound");
            vx::assume(false);
            unreachable!()
        }
    };
    s.set_log_traffic(log);
    let mut ps: Vec<Peer> = Vec::new();
    for i in 0..k {
        // among many connections the first and the last have any ids and keys of their own
        let id: [u8; 8] = if k > 3 && i > 0 && i + 1 < k { [i as u8; 8] } else { vx::array() };
        let i = if k > 3 { (i > 0) as usize + (i + 1 == k) as usize } else { i };
        for o in &ps {
            vx::assume(!vx::same(&o.id, &id));
        }
        let (c, keys) = connection(i);
        s.insert(q::U160::from(u64::from_be_bytes(id)), c);
        ps.push(Peer { id, keys });
    }
    (s, ps)
}

/// a connection with keys of its own, and the peer's
fn connection(i: usize) -> (q::Connection, [Keys; 3]) {
    // the id the client chose for its first packet
    let odcid = [i as u8 + 1; 8];
    let mut c = util::connection(true, &odcid);
    let (h, a) = ([40 + i as u8; 32], [60 + i as u8; 32]);
    let other = [80 + i as u8; 32];
    c.verif_set_secrets(util::space(1), Some(util::secrets(&other)), Some(util::secrets(&h)));
    c.verif_set_secrets(util::space(2), Some(util::secrets(&other)), Some(util::secrets(&a)));
    (c, [Keys::initial(false, &odcid), Keys::of(&h), Keys::of(&a)])
}

fn make(keys: &Keys, kind: u64, dcid: &[u8], pn_len: usize) -> Sent {
    let pn = vx::u64();
    vx::assume(pn >> (8 * pn_len) == 0);
    let mut payload = vec![6, 0, 2];
    payload.extend(vx::bytes(2));
    match send(keys, kind, dcid, &[7, 8], 0, pn, pn_len, payload) {
        Some(s) => s,
        None => {
            vx::check(false, "test packets are long enough");
            vx::assume(false);
            unreachable!()
        }
    }
}

fn keys_of(p: &Peer, kind: u64) -> &Keys {
    match kind {
        0 => &p.keys[0],
        2 => &p.keys[1],
        _ => &p.keys[2],
    }
}

/// a datagram for connection i, sealed with the keys of connection j
#[no_mangle]
pub extern "C" fn receive_for() {
    let (k, i, j) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let (kind, pn_len) = (vx::param(3), vx::param(4) as usize);
    let (s, ps) = socket(k, vx::param(5) == 1);
    let p = make(keys_of(&ps[j], kind), kind, &ps[i].id, pn_len);
    vx::cover("sent");
    vx::log_bytes(&p.wire);
    match s.packets(p.wire.clone(), addr()) {
        Ok(got) => {
            vx::check(i == j, "packets of another connection are not accepted");
            vx::check(got.len() == 1, "one packet is delivered once");
            for g in &got {
                matches(g, &p);
            }
        }
        Err(_) => vx::check(i != j, "a packet is opened with the keys of the connection it is for"),
    }
    vx::check(s.len() == k, "connections stay registered");
}

/// a datagram for no registered connection, sealed with the keys of one
#[no_mangle]
pub extern "C" fn receive_unknown() {
    let (k, kind, dropped) = (vx::param(0) as usize, vx::param(1), vx::param(2) == 1);
    let (s, ps) = socket(k, false);
    let len = if vx::param(3) == 0 { 8 } else { vx::param(3) as usize - 1 };
    let id = vx::bytes(len);
    if dropped {
        s.drop_connection(q::U160::from(u64::from_be_bytes(ps[0].id)));
        vx::assume(vx::same(&ps[0].id, &id));
    } else {
        // no leading zeros of an id that is registered
        let number = util::u160(&id);
        for p in &ps {
            let n = util::u160(&p.id);
            vx::assume((n.idx0 != number.idx0) | (n.idx1 != number.idx1));
        }
    }
    let p = make(keys_of(&ps[0], kind), kind, &id, 1);
    vx::cover("sent");
    vx::check(s.packets(p.wire, addr()).is_err(), "datagrams for no connection are not accepted");
}

/// two packets in one datagram for connection i: the first sealed for it, the second for connection j
/// and addressed to i or j
#[no_mangle]
pub extern "C" fn receive_coalesced() {
    let (i, j, to) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let (a, b) = (vx::param(3), vx::param(4));
    let (s, ps) = socket(2, false);
    let x = make(keys_of(&ps[i], a), a, &ps[i].id, 1);
    let y = make(keys_of(&ps[j], b), b, &ps[to].id, 2);
    // a peer never uses a packet number twice
    vx::assume(x.pn != y.pn);
    vx::cover("sent");
    let mut wire = x.wire.clone();
    wire.extend_from_slice(&y.wire);
    match s.packets(wire, addr()) {
        Ok(got) => {
            if i == j && to == i {
                vx::check(got.len() == 2, "both packets are delivered");
            } else {
                vx::check(got.len() == 1, "packets of another connection are not accepted");
            }
            for (g, p) in got.iter().zip([&x, &y]) {
                matches(g, p);
            }
        }
        Err(_) => vx::check(i != j || to != i, "packets are opened with the keys of the connection they are for"),
    }
}

/// datagrams on one socket one after the other, each for connection i and sealed for connection j
/// (kind * 100 + i * 10 + j; 1000 more: connection i is dropped, and registered again afterwards)
#[no_mangle]
pub extern "C" fn receive_in_turn() {
    let (k, log, n) = (vx::param(0) as usize, vx::param(1) == 1, vx::param(2));
    let (s, ps) = socket(k, log);
    let mut numbers: Vec<u64> = Vec::new();
    for t in 0..n {
        let x = vx::param(3 + t);
        let (kind, i, j) = (x / 100 % 10, (x / 10 % 10) as usize, (x % 10) as usize);
        let key = q::U160::from(u64::from_be_bytes(ps[i].id));
        let p = make(keys_of(&ps[j], kind), kind, &ps[i].id, 1);
        vx::assume(p.pn < 127);
        for o in &numbers {
            vx::assume(*o != p.pn);
        }
        numbers.push(p.pn);
        if x >= 1000 {
            s.drop_connection(key);
            vx::check(s.packets(p.wire.clone(), addr()).is_err(), "datagrams for no connection are not accepted");
            s.insert(key, connection(i).0);
        }
        match s.packets(p.wire.clone(), addr()) {
            Ok(got) => {
                vx::check(i == j, "packets of another connection are not accepted");
                vx::check(got.len() == 1, "one packet is delivered once");
                for g in &got {
                    matches(g, &p);
                }
            }
            Err(_) => vx::check(i != j, "a packet is opened with the keys of the connection it is for"),
        }
    }
    vx::cover("sent");
    vx::check(s.len() == k, "connections stay registered");
}
