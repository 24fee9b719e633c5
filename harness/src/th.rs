//! Threads of one harness, one running at a time. Which one runs next is decided by symbolic
//! bytes at the points where a thread takes a lock (`th_point`, put before every acquiring
//! compare-and-swap of the compiled code), waits (`th_futex`, `th::wait_network`) or ends.
use crate::vx;

#[derive(Clone, Copy, PartialEq)]
enum S {
    Ready,
    Lock(usize),
    Network,
    Done,
}
struct Thread {
    coro: u64,
    state: S,
    /// may wait for the network
    receives: bool,
    body: Option<Box<dyn FnOnce()>>,
}
static mut THREADS: Vec<Thread> = Vec::new();
static mut ACTIVE: bool = false;
static mut CUR: usize = 0;
static mut BUDGET: u64 = 0;
static mut CLOSED: bool = false;
static mut PANICKED: usize = 0;

#[allow(static_mut_refs)]
fn threads() -> &'static mut Vec<Thread> {
    unsafe { &mut THREADS }
}

extern "C" fn body(i: u64) {
    let b = threads()[i as usize].body.take();
    if let Some(b) = b {
        b()
    }
    threads()[i as usize].state = S::Done;
    next();
    loop {
        vx::check(false, "a finished thread runs");
        vx::assume(false);
    }
}

/// a thread; what it borrows must outlive `run`
pub fn spawn<'a>(receives: bool, f: impl FnOnce() + 'a) {
    let f: Box<dyn FnOnce() + 'a> = Box::new(f);
    let f: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(f) };
    let coro = vx::coro(body, threads().len() as u64);
    threads().push(Thread { coro, state: S::Ready, receives, body: Some(f) });
}

/// runs all threads to their end under any schedule with at most `preemptions` switches away
/// from a thread that could go on
pub fn run(preemptions: u64) {
    unsafe {
        ACTIVE = true;
        BUDGET = preemptions;
    }
    loop {
        next_from(None);
        if threads().iter().all(|t| t.state == S::Done) {
            break;
        }
        // back here although threads are left: the last one panicked
        threads()[unsafe { CUR }].state = S::Done;
        unsafe { PANICKED += 1 };
        vx::panics_end();
    }
    unsafe { ACTIVE = false };
}
/// threads that panicked (they end the check unless `vx::panics_end` was called before `run`)
pub fn panicked() -> usize {
    unsafe { PANICKED }
}

/// the running thread cannot go on: any other that can
fn next() {
    next_from(Some(unsafe { CUR }))
}
fn ready() -> Vec<usize> {
    (0..threads().len()).filter(|i| threads()[*i].state == S::Ready).collect()
}
fn next_from(me: Option<usize>) {
    let mut r = ready();
    if r.is_empty() {
        if threads().iter().all(|t| t.state == S::Done) {
            if me.is_some() {
                vx::switch(0);
            }
            return;
        }
        let waiting = threads().iter().any(|t| t.state == S::Network);
        let stuck = threads().iter().any(|t| t.state != S::Done && !t.receives);
        vx::check(waiting, "no schedule deadlocks");
        vx::check(!stuck, "threads that receive nothing finish although no datagram arrives");
        // nothing left to do: the network ends
        unsafe { CLOSED = true };
        for t in threads().iter_mut() {
            if t.state == S::Network {
                t.state = S::Ready;
            }
        }
        r = ready();
    }
    let k = if r.len() > 1 { vx::choose(r.len() as u64) as usize } else { 0 };
    go(me, r[k]);
}
fn go(me: Option<usize>, to: usize) {
    if me == Some(to) {
        return;
    }
    unsafe { CUR = to };
    vx::switch(threads()[to].coro);
}

/// the running thread is about to take a lock: another one may run first
#[no_mangle]
#[inline(never)]
pub extern "C" fn th_point() {
    unsafe {
        if !ACTIVE || BUDGET == 0 {
            return;
        }
        let r = ready();
        if r.len() < 2 {
            return;
        }
        let me = CUR;
        let k = vx::choose(r.len() as u64) as usize;
        if r[k] != me {
            vx::cover("preempted");
            BUDGET -= 1;
            go(Some(me), r[k]);
        }
    }
}

/// Linux futexes: wait while *addr is val, wake up to val waiters
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn th_futex(addr: *const u32, op: i32, val: u32) -> i64 {
    match op & 0x7f {
        0 | 9 => {
            if std::ptr::read_volatile(addr) != val {
                return -1;
            }
            if !ACTIVE {
                vx::check(false, "a thread does not wait for a lock that it holds itself");
                vx::assume(false);
            }
            vx::cover("waited for a lock");
            threads()[CUR].state = S::Lock(addr as usize);
            next();
            0
        }
        1 | 10 => {
            let mut n = 0;
            for t in threads().iter_mut() {
                if n < val as i64 && t.state == S::Lock(addr as usize) {
                    t.state = S::Ready;
                    n += 1;
                }
            }
            n
        }
        _ => 0,
    }
}

/// no datagram is there: true when the network has ended
pub fn wait_network() -> bool {
    unsafe {
        if !ACTIVE || CLOSED {
            return true;
        }
        vx::cover("waited for a datagram");
        threads()[CUR].state = S::Network;
        next();
        CLOSED
    }
}
