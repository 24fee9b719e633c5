use crate::p19_routing::{addr, bind, register};
use crate::crypt::Keys;
use crate::p12_packet_read::{matches, send};
use crate::{net, th, util, vx};
use q::routing::Socket;
use q::U160;
use quic_sea::verif_hooks as q;

fn key(id: &[u8; 8]) -> U160 {
    U160::from(u64::from_be_bytes(*id))
}
/// a datagram for `id`: 0 short header, 1 Initial, 2 Handshake
fn datagram(kind: u64, id: &[u8; 8], tag: u8) -> Vec<u8> {
    let mut b = Vec::new();
    if kind == 0 {
        b.push(0x40);
        b.extend_from_slice(id);
    } else {
        b.push(if kind == 1 { 0xc0 } else { 0xe0 });
        b.extend_from_slice(&[0, 0, 0, 1, 8]);
        b.extend_from_slice(id);
        b.push(0);
        if kind == 1 {
            b.push(0);
        }
        b.push(1);
    }
    b.push(tag);
    b
}

/// Threads on one socket with `k` connections under any ids. Datagrams under way and threads are
/// listed in the parameters; the schedule is any with at most `preemptions` preemptions.
///   k, preemptions, number of datagrams, their kinds.., threads..
/// threads: 1 waits for new connections until the network ends, 2 drops connection 0, 3 drops the
/// handle of connection 0, 4 registers a connection, 5 decodes a datagram for connection 0, 6 the
/// same for the last one, 7 routes a datagram to the last connection, 8 accepts one connection, 9
/// decodes a correct packet for the last connection
#[no_mangle]
pub extern "C" fn threads() {
    // ten more connections: with traffic logging; twenty more: the generator may yield an id again
    let (k, pre, m) = (vx::param(0) as usize % 10, vx::param(1), vx::param(2) as usize);
    let again = vx::param(0) / 20 == 1;
    let mut s = bind();
    if vx::param(0) / 10 % 2 == 1 {
        s.set_log_traffic(true);
    }
    let s = s;
    let ids = register(&s, k);
    let fresh: [u8; 8] = vx::array();
    for o in &ids {
        vx::assume(!vx::same(o, &fresh));
    }
    let mut sent = Vec::new();
    let mut to = Vec::new();
    let mut dids: Vec<[u8; 8]> = Vec::new();
    for i in 0..m {
        let kind = vx::param(3 + i as u64);
        let id: [u8; 8] = vx::array();
        let b = datagram(kind, &id, i as u8);
        net::incoming(b.clone(), 1000 + i as u16);
        // whom it is for: a connection, the new one (k) or nobody (k + 1)
        let mut o = k + 1;
        for (j, x) in ids.iter().enumerate() {
            if vx::same(x, &id) {
                o = j;
            }
        }
        if vx::same(&fresh, &id) {
            o = k;
        }
        to.push(o);
        dids.push(id);
        sent.push(b);
    }
    let returned: std::cell::RefCell<Vec<Vec<u8>>> = Default::default();
    let (routed, finished) = (std::cell::Cell::new(0usize), std::cell::Cell::new(0usize));
    let (mut dropped, mut added, mut receivers, mut acceptors) = (false, false, 0, 0);
    let (sr, ids_r, returned_r, routed_r, finished_r): (&Socket, _, _, _, _) = (&s, &ids, &returned, &routed, &finished);
    let mut i = 3 + m as u64;
    while vx::param(i) != 0 {
        let role = vx::param(i);
        i += 1;
        match role {
            1 => {
                receivers += 1;
                th::spawn(true, move || {
                    while let Ok((d, a)) = sr.recv_new_initial() {
                        vx::check(a == addr(1000 + d[d.len() - 1] as u16), "with the address it came from");
                        returned_r.borrow_mut().push(d);
                    }
                })
            }
            2 => {
                dropped = true;
                th::spawn(false, move || sr.drop_connection(key(&ids_r[0])))
            }
            3 => {
                dropped = true;
                let h = s.stream(key(&ids[0]));
                th::spawn(false, move || drop(h))
            }
            4 => {
                added = true;
                let c = util::connection(true, &[1, 2, 3, 4]);
                th::spawn(false, move || sr.insert(key(&fresh), c))
            }
            5 | 6 => {
                let b = datagram(if role == 5 { 0 } else { 2 }, &ids[if role == 5 { 0 } else { k - 1 }], 200);
                th::spawn(false, move || {
                    let _ = sr.packets(b.clone(), addr(7));
                })
            }
            9 => {
                let p = send(&Keys::initial(false, &[1, 2, 3, 4]), 0, &ids[k - 1], &[7, 8], 0, 5, 2, vec![6, 0, 2, 1, 2]);
                let p = match p {
                    Some(p) => p,
                    None => {
                        vx::check(false, "test packets are long enough");
                        return;
                    }
                };
                let gone = k == 1;
                th::spawn(false, move || match sr.packets(p.wire.clone(), addr(7)) {
                    Ok(ps) => {
                        vx::cover("opened");
                        vx::check(ps.len() == 1, "one packet is delivered once");
                        for g in &ps {
                            matches(g, &p);
                        }
                    }
                    Err(_) => vx::check(gone, "a packet for a registered connection is opened"),
                })
            }
            8 => {
                // unfinished: it panics when the connection is registered
                acceptors += 1;
                th::spawn(true, move || {
                    if sr.accept().is_ok() {
                        finished_r.set(finished_r.get() + 1);
                    }
                })
            }
            _ => {
                let b = datagram(0, &ids[k - 1], 100);
                th::spawn(false, move || {
                    if sr.route(b, addr(7)).is_ok() {
                        routed_r.set(routed_r.get() + 1);
                    } else {
                        vx::check(false, "a datagram for a registered connection is accepted");
                    }
                })
            }
        }
    }
    if acceptors > 0 {
        cryptomodel::limit_draws(acceptors + again as usize);
        vx::panics_end();
    }
    th::run(pre);
    vx::cover("finished");
    // ids drawn for new connections are none of those in play (P29 is about those that are)
    let mut new: Vec<[u8; 8]> = Vec::new();
    for d in cryptomodel::drawn() {
        let mut x = [0u8; 8];
        x.copy_from_slice(d);
        for o in ids.iter().chain(std::iter::once(&fresh)).chain(&dids) {
            vx::assume(!vx::same(o, &x));
        }
        let mut known = false;
        for o in &new {
            known |= vx::same(o, &x);
        }
        if again && known {
            vx::cover("drawn again");
            continue;
        }
        vx::assume(!known);
        new.push(x);
    }
    let accepted = th::panicked() + finished.get();
    if acceptors > 0 {
        let there = k - dropped as usize + added as usize;
        vx::check(s.len() == there + accepted, "every accepted connection is registered");
        let mut n = 0;
        for x in &new {
            n += s.contains(key(x)) as usize;
        }
        vx::check(n == accepted, "every accepted connection is registered");
    }
    if receivers > 0 {
        vx::check(net::taken() == m, "every datagram is taken");
    }
    // what each connection was given
    let mut queued: Vec<Vec<u8>> = Vec::new();
    for (j, id) in ids.iter().chain(std::iter::once(&fresh)).enumerate() {
        let there = if j == 0 { k > 0 && !dropped } else if j == k { added } else { true };
        vx::check(s.contains(key(id)) == there, "exactly the dropped connections are gone");
        while let Some(d) = s.queued(key(id)) {
            let tag = d[d.len() - 1] as usize;
            if tag == 100 {
                vx::check(j == k - 1, "no other connection gets the datagram");
                routed.set(routed.get() - 1);
            } else {
                vx::check(tag < m && to[tag] == j, "no other connection gets the datagram");
            }
            queued.push(d);
        }
    }
    if !(dropped && k == 1) {
        vx::check(routed.get() == 0, "a datagram is queued once");
    }
    let count = |v: &Vec<Vec<u8>>, i: usize| {
        let mut n = 0;
        for d in v {
            if d[d.len() - 1] as usize == i {
                vx::check(vx::same(d, &sent[i]), "datagrams are not changed");
                n += 1;
            }
        }
        n
    };
    let returned = returned.borrow();
    // Initials for nobody, those that may be for nobody when they are looked at, and those returned
    let (mut sure, mut maybe, mut got) = (0, 0, accepted);
    for i in 0..net::taken() {
        let initial = vx::param(3 + i as u64) == 1;
        let (r, g) = (count(&returned, i), count(&queued, i));
        vx::check(r == 0 || initial, "only an Initial starts a connection");
        vx::check(r + g <= 1, "a datagram is returned or queued once");
        got += r;
        let o = to[i];
        if o == k + 1 || (o == k && !added) {
            vx::check(g == 0, "no other connection gets the datagram");
            sure += initial as usize;
        } else if o == k {
            if initial {
                maybe += 1 - g;
                sure += (1 - g) * (acceptors == 0) as usize;
            }
        } else if o == 0 && dropped {
            // returned, queued and gone with the connection, or dropped
            maybe += (initial && g == 0) as usize;
        } else {
            vx::cover("delivered");
            vx::check(g == 1, "no datagram is lost");
        }
    }
    vx::check(sure <= got, "an Initial for nobody is returned");
    vx::check(got <= sure + maybe, "an Initial is returned once");
}
