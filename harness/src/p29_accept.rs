use crate::p12_packet_read::{matches, send, Sent};
use crate::p19_routing::{addr, bind, register};
use crate::{crypt::Keys, net, util, vx};
use q::routing::Socket;
use q::U160;
use quic_sea::verif_hooks as q;

static mut SOCKET: Option<Socket> = None;
static mut RESULT: Option<Option<U160>> = None;

#[allow(static_mut_refs)]
fn the_socket() -> &'static Socket {
    unsafe { SOCKET.as_ref().unwrap() }
}
/// accepting, in a coroutine of its own: it is unfinished and panics once the connection is registered
extern "C" fn accepting(_: u64) {
    let r = the_socket().accept();
    unsafe { RESULT = Some(r.ok()) };
    vx::switch(0);
}

fn initial(keys: &Keys, dcid: &[u8], tag: u8) -> Sent {
    let pn = vx::u64();
    // a peer never uses a packet number twice
    vx::assume(pn >> 15 == (tag >= 0x40) as u64);
    let mut payload = vec![6, 0, 2, tag];
    payload.extend(vx::bytes(1));
    match send(keys, 0, dcid, &[7, 8], 0, pn, 2, payload) {
        Some(s) => s,
        None => {
            vx::check(false, "test packets are long enough");
            vx::assume(false);
            unreachable!()
        }
    }
}

/// k registered connections with a queued datagram each, then `rounds` clients whose first packet
/// is addressed to any id of `len` bytes; in between, datagrams for registered connections if `between`
#[no_mangle]
#[allow(static_mut_refs)]
pub extern "C" fn accept() {
    let (k, len, rounds, between) = (vx::param(0) as usize, vx::param(1) as usize, vx::param(2), vx::param(3));
    let s = bind();
    let mut ids = register(&s, k);
    unsafe { SOCKET = Some(s) };
    let s = the_socket();
    // the generator yields ids in use at most p4 times
    cryptomodel::limit_draws(rounds as usize + vx::param(4) as usize);
    let mut queued: Vec<Vec<Vec<u8>>> = Vec::new();
    let short = |id: &[u8; 8], tag: u8| {
        let mut b = vec![0x40];
        b.extend_from_slice(id);
        b.push(tag);
        b
    };
    for (i, id) in ids.iter().enumerate() {
        let b = short(id, i as u8);
        vx::check(s.route(b.clone(), addr(5)).is_ok(), "a datagram for a registered connection is queued");
        queued.push(vec![b]);
    }
    let mut clients: Vec<(Vec<u8>, [u8; 8])> = Vec::new();
    for r in 0..rounds {
        let dcid = vx::bytes(len);
        let number = util::u160(&dcid);
        for id in &ids {
            let n = util::u160(id);
            vx::assume((n.idx0 != number.idx0) | (n.idx1 != number.idx1));
        }
        for (d, _) in &clients {
            vx::assume(!vx::same(d, &dcid));
        }
        let keys = Keys::initial(false, &dcid);
        if between != 0 && !ids.is_empty() {
            let j = vx::choose(ids.len() as u64) as usize;
            let b = short(&ids[j], 77);
            net::incoming(b.clone(), 1);
            queued[j].push(b);
        }
        let first = initial(&keys, &dcid, r as u8);
        net::incoming(first.wire.clone(), 900);
        unsafe { RESULT = None };
        let c = vx::coro(accepting, 0);
        vx::panics_end();
        vx::switch(c);
        vx::check(s.len() == ids.len() + 1, "accepting registers exactly one connection");
        for id in &ids {
            vx::check(s.contains(U160::from(u64::from_be_bytes(*id))), "accepting leaves the other connections registered");
        }
        let mut new = None;
        for key in s.keys() {
            let mut old = false;
            for id in &ids {
                old |= (key.idx0 == 0) & (key.idx1 == u64::from_be_bytes(*id) as u128);
            }
            if !old {
                new = Some(key);
            }
        }
        let new = match new {
            Some(x) => x,
            None => {
                vx::check(false, "the new connection has an id of its own");
                return;
            }
        };
        if let Some(Some(x)) = unsafe { RESULT } {
            vx::check(x == new, "the id returned is that of the new connection");
        }
        vx::check((new.idx0 == 0) & (new.idx1 >> 64 == 0), "issued ids have eight bytes");
        match s.scid(new) {
            Some((x, n)) => vx::check((x.idx0 == new.idx0) & (x.idx1 == new.idx1) & (n == 8), "the connection knows the id it was given"),
            None => vx::check(false, "the connection knows the id it was given"),
        }
        let id = (new.idx1 as u64).to_be_bytes();
        if cryptomodel::drawn().len() > r as usize + 1 {
            vx::cover("the random id was in use");
        }
        ids.push(id);
        queued.push(Vec::new());
        clients.push((dcid, id));
        vx::cover("accepted");
    }
    // nothing queued was lost or moved
    for (id, q) in ids.iter().zip(&queued) {
        for b in q {
            match s.queued(U160::from(u64::from_be_bytes(*id))) {
                Some(x) => vx::check(vx::same(&x, b), "queued datagrams stay with their connection"),
                None => vx::check(false, "queued datagrams stay with their connection"),
            }
        }
        vx::check(s.queued(U160::from(u64::from_be_bytes(*id))).is_none(), "nothing else is queued");
    }
    // the clients go on under the ids they were given
    for (i, (dcid, id)) in clients.iter().enumerate() {
        let next = initial(&Keys::initial(false, dcid), id, 0x40 + i as u8);
        match s.packets(next.wire.clone(), addr(900)) {
            Ok(ps) => {
                vx::check(ps.len() == 1, "a client's next packet is opened");
                if ps.len() == 1 {
                    matches(&ps[0], &next);
                }
            }
            Err(_) => vx::check(false, "a client's next packet is opened"),
        }
    }
}
