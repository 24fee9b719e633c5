//! A network of one socket whose incoming datagrams the harness writes down first.
use std::ffi::c_void;

/// a datagram and the sockaddr it comes from
static mut QUEUE: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
static mut AT: usize = 0;

pub fn incoming(d: Vec<u8>, port: u16) {
    incoming_v4(d, [127, 0, 0, 1], port)
}
#[allow(static_mut_refs)]
pub fn incoming_v4(d: Vec<u8>, ip: [u8; 4], port: u16) {
    let mut a = vec![2, 0, (port >> 8) as u8, port as u8];
    a.extend_from_slice(&ip);
    a.resize(16, 0);
    unsafe { QUEUE.push((d, a)) }
}
#[allow(static_mut_refs)]
pub fn incoming_v6(d: Vec<u8>, ip: [u8; 16], port: u16, flow: u32, scope: u32) {
    let mut a = vec![10, 0, (port >> 8) as u8, port as u8];
    a.extend_from_slice(&flow.to_ne_bytes());
    a.extend_from_slice(&ip);
    a.extend_from_slice(&scope.to_ne_bytes());
    unsafe { QUEUE.push((d, a)) }
}
/// datagrams taken by the code under test so far
pub fn taken() -> usize {
    unsafe { AT }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
pub extern "C" fn socket(_d: i32, _t: i32, _p: i32) -> i32 {
    77
}
#[no_mangle]
pub extern "C" fn bind(_fd: i32, _a: *const c_void, _l: u32) -> i32 {
    0
}
#[no_mangle]
pub extern "C" fn setsockopt(_fd: i32, _a: i32, _b: i32, _v: *const c_void, _l: u32) -> i32 {
    0
}
#[no_mangle]
pub extern "C" fn close(_fd: i32) -> i32 {
    0
}
/// the next datagram, or ECONNRESET when there is none
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn recvfrom(_fd: i32, buf: *mut u8, len: usize, flags: i32, addr: *mut u8, alen: *mut u32) -> isize {
    if AT >= QUEUE.len() && crate::th::wait_network() {
        *__errno_location() = 104;
        return -1;
    }
    let (d, a) = &QUEUE[AT];
    // MSG_PEEK leaves it there
    AT += (flags & 2 == 0) as usize;
    let n = d.len().min(len);
    for i in 0..n {
        *buf.add(i) = d[i];
    }
    for i in 0..a.len() {
        *addr.add(i) = a[i];
    }
    *alen = a.len() as u32;
    n as isize
}
/// 127.0.0.1:4433
#[no_mangle]
pub unsafe extern "C" fn getsockname(_fd: i32, addr: *mut u8, alen: *mut u32) -> i32 {
    let a = [2u8, 0, (4433 >> 8) as u8, (4433 & 255) as u8, 127, 0, 0, 1];
    for i in 0..16 {
        *addr.add(i) = if i < 8 { a[i] } else { 0 };
    }
    *alen = 16;
    0
}
