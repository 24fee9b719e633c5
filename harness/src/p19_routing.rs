use crate::p06_header::reference;
use crate::{net, util, vx};
use quic_sea::verif_hooks as q;
use q::routing::Socket;
use std::net::{Ipv4Addr, SocketAddr};

pub fn addr(port: u16) -> SocketAddr {
    SocketAddr::from((Ipv4Addr::new(127, 0, 0, 1), port))
}
pub fn bind() -> Socket {
    match Socket::bind(addr(4433)) {
        Ok(s) => s,
        Err(_) => {
            vx::check(false, "a socket can be bound");
            vx::assume(false);
            unreachable!()
        }
    }
}
/// k connections under any different 8-byte ids
pub fn register(s: &Socket, k: usize) -> Vec<[u8; 8]> {
    let mut ids: Vec<[u8; 8]> = Vec::new();
    for i in 0..k {
        // more than seven: all but the first two under given ids
        let id: [u8; 8] = if k > 7 && i > 1 { (i as u64 * 0x0123_4567_89ab).to_be_bytes() } else { vx::array() };
        for o in &ids {
            vx::assume(!vx::same(o, &id));
        }
        s.insert(q::U160::from(u64::from_be_bytes(id)), util::connection(true, &[1, 2, 3, 4]));
        ids.push(id);
    }
    ids
}

/// which connection a datagram belongs to: Some(Some(i)), nobody: Some(None), not judged: None
fn owner(b: &[u8], ids: &[[u8; 8]]) -> Option<Option<usize>> {
    let h = match reference(b) {
        None => return Some(None),
        Some(h) => h,
    };
    if h.kind == 1 {
        // version negotiation never concerns an accepted connection
        return None;
    }
    // ids of another length that spell the same number are not judged
    let mut v = vec![0u8; 20];
    v.extend_from_slice(&h.dcid);
    let tail = &v[v.len() - 20..];
    for (i, id) in ids.iter().enumerate() {
        if vx::same(&tail[12..], id) && vx::same(&tail[..12], &[0; 12]) {
            if h.dcid.len() != 8 {
                return None;
            }
            return Some(Some(i));
        }
    }
    Some(None)
}

fn datagram(form: u64, n: usize, dl: usize) -> Vec<u8> {
    let mut b = vx::bytes(n);
    match form {
        // short header
        0 => {
            if n > 0 {
                b[0] &= 0x7f;
            }
        }
        // long header of any version but 0 with ids of given length
        1 => {
            b[0] |= 0x80;
            b[5] = dl as u8;
            if n > 6 + dl {
                b[6 + dl] = 0;
            }
            vx::assume(b[1] != 0 || b[2] != 0 || b[3] != 0 || b[4] != 0);
        }
        _ => {}
    }
    b
}

/// one datagram and k connections: it is queued for its connection only
#[no_mangle]
pub extern "C" fn route_one() {
    let (k, form, n, dl) = (vx::param(0) as usize, vx::param(1), vx::param(2) as usize, vx::param(3) as usize);
    let s = bind();
    let ids = register(&s, k);
    let b = datagram(form, n, dl);
    let r = s.route(b.clone(), addr(7));
    match owner(&b, &ids) {
        Some(Some(i)) => {
            vx::cover("routed");
            vx::check(r.is_ok(), "a datagram for a registered connection is accepted");
            for (j, id) in ids.iter().enumerate() {
                let got = s.queued_from(q::U160::from(u64::from_be_bytes(*id)));
                if j == i {
                    match got {
                        Some((g, a)) => {
                            vx::check(a == addr(7), "the datagram keeps the address it came from");
                            vx::log_bytes(&g);
                            vx::check(vx::same(&g, &b), "the datagram reaches its connection unchanged");
                        }
                        None => vx::check(false, "the datagram reaches its connection"),
                    }
                    vx::check(s.queued(q::U160::from(u64::from_be_bytes(*id))).is_none(), "the datagram is queued once");
                } else {
                    vx::check(got.is_none(), "no other connection gets the datagram");
                }
            }
        }
        Some(None) => {
            vx::cover("dropped");
            vx::check(r.is_err(), "a datagram for no registered connection is reported");
            for id in &ids {
                vx::check(s.queued(q::U160::from(u64::from_be_bytes(*id))).is_none(), "a datagram for no registered connection reaches nobody");
            }
        }
        None => {}
    }
}

/// several datagrams: each connection receives its own, in order
#[no_mangle]
pub extern "C" fn route_order() {
    let (k, m, n) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2) as usize);
    let s = bind();
    let ids = register(&s, k);
    let mut want: Vec<Vec<Vec<u8>>> = ids.iter().map(|_| Vec::new()).collect();
    for _ in 0..m {
        let b = datagram(0, n, 8);
        let o = owner(&b, &ids);
        let r = s.route(b.clone(), addr(7));
        if let Some(Some(i)) = o {
            vx::check(r.is_ok(), "a datagram for a registered connection is accepted");
            want[i].push(b);
        } else {
            vx::check(r.is_err(), "a datagram for no registered connection is reported");
        }
    }
    for (i, id) in ids.iter().enumerate() {
        for w in &want[i] {
            vx::cover("routed");
            match s.queued(q::U160::from(u64::from_be_bytes(*id))) {
                Some(g) => vx::check(vx::same(&g, w), "datagrams keep their order"),
                None => vx::check(false, "the datagram reaches its connection"),
            }
        }
        vx::check(s.queued(q::U160::from(u64::from_be_bytes(*id))).is_none(), "nothing else is queued");
    }
}

/// dropping a connection stops delivery to it and to it only
#[no_mangle]
pub extern "C" fn route_drop() {
    let k = vx::param(0) as usize;
    let s = bind();
    let ids = register(&s, k);
    let d: [u8; 8] = vx::array();
    s.drop_connection(q::U160::from(u64::from_be_bytes(d)));
    let mut left = 0;
    for id in &ids {
        let gone = vx::same(id, &d);
        let key = q::U160::from(u64::from_be_bytes(*id));
        vx::check(s.contains(key) != gone, "exactly the dropped connection is gone");
        left += !gone as usize;
        let mut b = vec![0x40];
        b.extend_from_slice(id);
        b.push(5);
        let r = s.route(b.clone(), addr(7));
        if gone {
            vx::cover("gone");
            vx::check(r.is_err(), "datagrams for a dropped connection are refused");
        } else {
            vx::cover("kept");
            vx::check(r.is_ok(), "other connections keep receiving");
            match s.queued(key) {
                Some(g) => vx::check(vx::same(&g, &b), "other connections keep receiving"),
                None => vx::check(false, "other connections keep receiving"),
            }
        }
    }
    vx::check(s.len() == left, "nothing else changes");
}

/// any datagrams arriving at the socket: the first new Initial is returned, the rest is routed
#[no_mangle]
pub extern "C" fn recv_initial() {
    // ten more in the first parameter: with traffic logging
    let (k, m) = (vx::param(0) as usize % 10, vx::param(1) as usize);
    let mut s = bind();
    if vx::param(0) >= 10 {
        s.set_log_traffic(true);
    }
    let ids = register(&s, k);
    let mut sent = Vec::new();
    for i in 0..m {
        let p = vx::param(2 + i as u64);
        let b = datagram(p / 10000, (p % 10000) as usize, 8);
        net::incoming(b.clone(), 1000 + i as u16);
        sent.push(b);
    }
    let r = s.recv_new_initial();
    let mut want: Vec<Vec<(Vec<u8>, u16)>> = ids.iter().map(|_| Vec::new()).collect();
    let mut first = None;
    let mut judged = true;
    for (i, b) in sent.iter().enumerate() {
        let initial = match reference(b) {
            Some(h) => h.kind == 2,
            None => false,
        };
        match owner(b, &ids) {
            Some(Some(j)) => want[j].push((b.clone(), 1000 + i as u16)),
            Some(None) => {
                if initial {
                    first = Some(i);
                    break;
                }
            }
            None => judged = false,
        }
    }
    if !judged {
        return;
    }
    match (r, first) {
        (Ok((d, a)), Some(i)) => {
            vx::cover("returned");
            vx::log_bytes(&d);
            vx::check(vx::same(&d, &sent[i]), "the first Initial for no known connection is returned");
            vx::check(a == addr(1000 + i as u16), "with the address it came from");
            vx::check(net::taken() == i + 1, "later datagrams are left for the next call");
        }
        (Err(_), None) => {
            vx::cover("none");
            vx::check(net::taken() == sent.len(), "every datagram is taken");
        }
        (Ok(_), None) => vx::check(false, "only an Initial for no known connection is returned"),
        (Err(_), Some(_)) => vx::check(false, "a new Initial is returned"),
    }
    for (i, id) in ids.iter().enumerate() {
        for (w, port) in &want[i] {
            vx::cover("routed");
            match s.queued_from(q::U160::from(u64::from_be_bytes(*id))) {
                Some((g, a)) => vx::check(
                    vx::same(&g, w) && a == addr(*port),
                    "datagrams of known connections reach them in order, with their addresses",
                ),
                None => vx::check(false, "datagrams of known connections reach them in order"),
            }
        }
        vx::check(s.queued(q::U160::from(u64::from_be_bytes(*id))).is_none(), "nothing else is queued");
    }
}

/// the application drops its handle of one of k connections: that one goes, with or without
/// datagrams still queued, and no other
#[no_mangle]
pub extern "C" fn stream_drop() {
    let (k, i, queued) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2));
    let s = bind();
    let ids = register(&s, k);
    let key = |j: usize| q::U160::from(u64::from_be_bytes(ids[j]));
    let handles: Vec<_> = (0..k).map(|j| s.stream(key(j))).collect();
    let mut b = vec![0x40];
    b.extend_from_slice(&ids[i]);
    b.push(vx::u8());
    for _ in 0..queued {
        vx::check(s.route(b.clone(), addr(7)).is_ok(), "a datagram for a registered connection is accepted");
    }
    vx::check(s.len() == k, "connections live while their handles do");
    let mut gone = None;
    let mut rest = Vec::new();
    for (j, h) in handles.into_iter().enumerate() {
        if j == i {
            gone = Some(h);
        } else {
            rest.push(h);
        }
    }
    drop(gone);
    vx::cover("dropped");
    for j in 0..k {
        vx::check(s.contains(key(j)) == (j != i), "exactly the connection of the dropped handle is gone");
    }
    vx::check(s.len() == k - 1, "exactly the connection of the dropped handle is gone");
    vx::check(s.route(b.clone(), addr(7)).is_err(), "datagrams for a dropped connection are refused");
    // the id may be used again, and starts with an empty queue
    s.insert(key(i), util::connection(true, &[1, 2, 3, 4]));
    vx::check(s.queued(key(i)).is_none(), "a connection starts with nothing queued");
    vx::check(s.route(b.clone(), addr(7)).is_ok(), "a datagram for a registered connection is accepted");
    match s.queued(key(i)) {
        Some(g) => vx::check(vx::same(&g, &b), "the datagram reaches its connection unchanged"),
        None => vx::check(false, "the datagram reaches its connection"),
    }
    drop(rest);
    vx::check(s.len() == 1, "handles drop their own connections only");
}

/// m datagrams of any ids and forms, routed one by one, each read before or after the next arrives
#[no_mangle]
pub extern "C" fn route_mixed() {
    let (k, m) = (vx::param(0) as usize, vx::param(1) as usize);
    let s = bind();
    let ids = register(&s, k);
    let mut want: Vec<Vec<Vec<u8>>> = ids.iter().map(|_| Vec::new()).collect();
    let take = |want: &mut Vec<Vec<Vec<u8>>>, i: usize| {
        if want[i].is_empty() {
            vx::check(s.queued(q::U160::from(u64::from_be_bytes(ids[i]))).is_none(), "nothing else is queued");
        } else {
            let w = want[i].remove(0);
            match s.queued_from(q::U160::from(u64::from_be_bytes(ids[i]))) {
                Some((g, a)) => vx::check(vx::same(&g, &w) && a == addr(7), "datagrams keep their order"),
                None => vx::check(false, "the datagram reaches its connection"),
            }
        }
    };
    for j in 0..m {
        let p = vx::param(2 + j as u64);
        let b = datagram(p / 10000, (p % 10000) as usize, 8);
        let o = owner(&b, &ids);
        let r = s.route(b.clone(), addr(7));
        match o {
            Some(Some(i)) => {
                vx::cover("routed");
                vx::check(r.is_ok(), "a datagram for a registered connection is accepted");
                want[i].push(b);
            }
            Some(None) => vx::check(r.is_err(), "a datagram for no registered connection is reported"),
            None => return,
        }
        if j % 2 == 1 {
            take(&mut want, j % k);
        }
    }
    for i in 0..k {
        while !want[i].is_empty() {
            take(&mut want, i);
        }
        take(&mut want, i);
    }
}

/// many datagrams for two connections in turn before any is read
#[no_mangle]
pub extern "C" fn route_many() {
    let m = vx::param(0) as usize;
    let s = bind();
    let ids = register(&s, 2);
    let mut want: [Vec<Vec<u8>>; 2] = [Vec::new(), Vec::new()];
    let key = |i: usize| q::U160::from(u64::from_be_bytes(ids[i]));
    for j in 0..m {
        let i = (j % 3 == 1) as usize;
        let mut b = vec![0x40];
        b.extend_from_slice(&ids[i]);
        b.extend_from_slice(&(j as u16).to_be_bytes());
        b.push(vx::u8());
        vx::check(s.route(b.clone(), addr(7)).is_ok(), "a datagram for a registered connection is accepted");
        want[i].push(b);
    }
    vx::cover("routed");
    for i in 0..2 {
        for w in &want[i] {
            match s.queued(key(i)) {
                Some(g) => vx::check(vx::same(&g, w), "datagrams keep their order"),
                None => vx::check(false, "the datagram reaches its connection"),
            }
        }
        vx::check(s.queued(key(i)).is_none(), "nothing else is queued");
    }
}

/// m datagrams that start no connection, of all sorts in turn, then a new Initial
#[no_mangle]
pub extern "C" fn recv_initial_after() {
    let m = vx::param(0) as usize;
    let s = bind();
    let ids = register(&s, 1);
    let key = q::U160::from(u64::from_be_bytes(ids[0]));
    let new: [u8; 8] = vx::array();
    vx::assume(!vx::same(&new, &ids[0]));
    let long = |first: u8, id: &[u8; 8], tag: u8| {
        let mut b = vec![first, 0, 0, 0, 1, 8];
        b.extend_from_slice(id);
        b.extend_from_slice(&[0, tag]);
        b
    };
    let short = |id: &[u8; 8], tag: u8| {
        let mut b = vec![0x40];
        b.extend_from_slice(id);
        b.push(tag);
        b
    };
    let mut want = Vec::new();
    for j in 0..m {
        let b = match if vx::param(1) == 9 { j as u64 % 7 } else { vx::param(1) } {
            // for the registered connection
            0 => short(&ids[0], vx::u8()),
            1 => long(0xc0 | (j as u8 & 3) << 4, &ids[0], vx::u8()),
            // for nobody: other kinds
            2 => short(&new, vx::u8()),
            3 => long(0xe0, &new, vx::u8()),
            4 => long(0xd0, &new, vx::u8()),
            // unreadable
            5 => vec![0xc0, 1, vx::u8()],
            _ => Vec::new(),
        };
        if b.len() > 9 && vx::same(&b[if b[0] & 0x80 != 0 { 6 } else { 1 }..][..8], &ids[0]) {
            want.push(b.clone());
        }
        net::incoming(b, 5);
    }
    let first = long(0xc0 | vx::u8() & 0x0f, &new, 7);
    net::incoming(first.clone(), 4321);
    net::incoming(long(0xc0, &new, 8), 6);
    match s.recv_new_initial() {
        Ok((d, a)) => {
            vx::cover("returned");
            vx::check(vx::same(&d, &first), "the first Initial for no known connection is returned");
            vx::check(a == addr(4321), "with the address it came from");
            vx::check(net::taken() == m + 1, "later datagrams are left for the next call");
        }
        Err(_) => vx::check(false, "a new Initial is returned"),
    }
    for w in &want {
        match s.queued(key) {
            Some(g) => vx::check(vx::same(&g, w), "datagrams of known connections reach them in order"),
            None => vx::check(false, "datagrams of known connections reach them in order"),
        }
    }
    vx::check(s.queued(key).is_none(), "nothing else is queued");
}

/// k connections under any 20-byte ids: a datagram reaches the one whose id it carries, and dropping
/// any id drops that connection only
#[no_mangle]
pub extern "C" fn route_wide() {
    let (k, dl) = (vx::param(0) as usize, vx::param(1) as usize);
    let s = bind();
    let mut ids: Vec<[u8; 20]> = Vec::new();
    for _ in 0..k {
        let id: [u8; 20] = vx::array();
        for o in &ids {
            vx::assume(!vx::same(o, &id));
        }
        s.insert(util::u160(&id), util::connection(true, &[1, 2, 3, 4]));
        ids.push(id);
    }
    let to = vx::bytes(dl);
    let mut wide = vec![0u8; 20 - dl];
    wide.extend_from_slice(&to);
    let mut b = vec![0xe0 | (vx::u8() & 0x0f), 0, 0, 0, 1, dl as u8];
    b.extend_from_slice(&to);
    b.push(0);
    b.push(vx::u8());
    let from = SocketAddr::from((Ipv4Addr::from(vx::u32()), vx::u16()));
    let r = s.route(b.clone(), from);
    let mut known = false;
    for id in &ids {
        let mine = vx::same(id, &wide);
        known |= mine;
        match s.queued_from(util::u160(id)) {
            // shorter ids that spell the same number are not judged
            Some((g, a)) => {
                vx::cover("routed");
                vx::check(mine, "a datagram reaches no other connection");
                vx::check(vx::same(&g, &b) && a == from, "the datagram is queued unchanged with its address");
            }
            None => vx::check(!mine || dl != 20, "a datagram reaches its connection"),
        }
        vx::check(s.queued(util::u160(id)).is_none(), "the datagram is queued once");
    }
    vx::check(dl != 20 || r.is_ok() == known, "exactly datagrams for registered connections are accepted");
    let gone: [u8; 20] = vx::array();
    s.drop_connection(util::u160(&gone));
    let mut left = 0;
    for id in &ids {
        let this = vx::same(id, &gone);
        if this {
            vx::cover("gone");
        }
        vx::check(s.contains(util::u160(id)) != this, "exactly the dropped connection is gone");
        left += !this as usize;
    }
    vx::check(s.len() == left, "nothing else changes");
}

/// an Initial from any address is returned with it, and a datagram before it from any address
/// is queued with it
#[no_mangle]
pub extern "C" fn recv_from_any() {
    let v6 = vx::param(0) == 1;
    let s = bind();
    let ids = register(&s, 1);
    let mut from = Vec::new();
    for i in 0..2 {
        let b = if i == 0 {
            let mut b = vec![0x40];
            b.extend_from_slice(&ids[0]);
            b.push(7);
            b
        } else {
            let id: [u8; 8] = vx::array();
            vx::assume(!vx::same(&id, &ids[0]));
            let mut b = vec![0xc0, 0, 0, 0, 1, 8];
            b.extend_from_slice(&id);
            b.extend_from_slice(&[0, 1]);
            b
        };
        let port = vx::u16();
        let a = if v6 {
            let ip: [u8; 16] = vx::array();
            let (flow, scope) = (vx::u32(), vx::u32());
            net::incoming_v6(b.clone(), ip, port, flow, scope);
            SocketAddr::V6(std::net::SocketAddrV6::new(ip.into(), port, flow, scope))
        } else {
            let ip: [u8; 4] = vx::array();
            net::incoming_v4(b.clone(), ip, port);
            SocketAddr::from((ip, port))
        };
        from.push((b, a));
    }
    match s.recv_new_initial() {
        Ok((d, a)) => {
            vx::cover("returned");
            vx::check(vx::same(&d, &from[1].0), "the first Initial for no known connection is returned");
            vx::check(a == from[1].1, "with the address it came from");
        }
        Err(_) => vx::check(false, "a new Initial is returned"),
    }
    match s.queued_from(q::U160::from(u64::from_be_bytes(ids[0]))) {
        Some((d, a)) => vx::check(vx::same(&d, &from[0].0) && a == from[0].1, "datagrams of known connections reach them with their addresses"),
        None => vx::check(false, "datagrams of known connections reach them"),
    }
}
