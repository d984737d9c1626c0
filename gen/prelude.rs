#![allow(unused, deprecated, non_snake_case, non_camel_case_types)]
#![allow(clippy::all)]
use bytes::{Buf, BufMut, BytesMut};
use open_dis_rust::common::constants::*;
use open_dis_rust::common::data_types::*;
use open_dis_rust::common::dis_error::DISError;
use open_dis_rust::common::enums::{self as en, PduType, ProtocolFamily, ProtocolVersion};
use open_dis_rust::common::generic_header::GenericHeader;
use open_dis_rust::common::live_entity_pdu_header::LiveEntityPduHeader;
use open_dis_rust::common::pdu::Pdu;
use open_dis_rust::common::pdu_header::{PduHeader, PduStatusRecord};
use open_dis_rust::pdu_macro::{FieldDeserialize, FieldDeserializeWithLen, FieldLen, FieldSerialize};
use std::mem::forget;

// ---- interface to the checker -------------------------------------------------------------
#[cfg(not(feature = "replay"))]
mod vf {
    unsafe extern "C" {
        fn vf_any(p: *mut u8, n: usize);
        fn vf_assume(c: bool);
        fn vf_assert(c: bool, id: u32);
        fn vf_cover(id: u32);
        fn vf_heap(limit: usize, id: u32);
        fn vf_pause();
    }
    /// from now on no single request for memory may exceed the limit; 0: no limit any more
    #[inline(always)]
    pub fn heap(limit: usize, id: u32) {
        unsafe { vf_heap(limit, id) }
    }
    /// any time may pass before the next reading of the clock
    #[inline(always)]
    pub fn pause() {
        unsafe { vf_pause() }
    }
    #[inline(always)]
    pub fn any<const N: usize>() -> [u8; N] {
        let mut b = [0u8; N];
        unsafe { vf_any(b.as_mut_ptr(), N) };
        b
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vf_assume(c) }
    }
    #[inline(always)]
    pub fn chk(c: bool, id: u32) {
        unsafe { vf_assert(c, id) }
    }
    #[inline(always)]
    pub fn cover(id: u32) {
        unsafe { vf_cover(id) }
    }
}
#[cfg(feature = "replay")]
pub mod vf {
    use std::cell::RefCell;
    thread_local! {
        pub static INPUTS: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    pub fn any<const N: usize>() -> [u8; N] {
        INPUTS.with(|q| {
            let mut q = q.borrow_mut();
            if q.is_empty() {
                println!("REPLAY-SHORT");
                std::process::exit(4);
            }
            let v = q.remove(0);
            if v.len() != N {
                println!("REPLAY-MISMATCH {} {}", v.len(), N);
                std::process::exit(4);
            }
            v.try_into().unwrap()
        })
    }
    pub fn assume(c: bool) {
        if !c {
            println!("REPLAY-ASSUME");
            std::process::exit(3);
        }
    }
    pub fn chk(c: bool, id: u32) {
        if !c {
            println!("FAILED {id}");
        }
    }
    pub fn cover(id: u32) {
        println!("COVER {id}");
    }
    use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::Relaxed};
    static LIMIT: AtomicUsize = AtomicUsize::new(0);
    static LIMIT_ID: AtomicU32 = AtomicU32::new(0);
    pub fn heap(limit: usize, id: u32) {
        LIMIT_ID.store(id, Relaxed);
        LIMIT.store(limit, Relaxed);
    }
    pub fn pause() {}
    pub struct Watch;
    fn watch(n: usize) {
        let m = LIMIT.load(Relaxed);
        if m != 0 && n > m {
            LIMIT.store(0, Relaxed);
            println!("FAILED {}", LIMIT_ID.load(Relaxed));
        }
    }
    unsafe impl std::alloc::GlobalAlloc for Watch {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            watch(l.size());
            unsafe { std::alloc::System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            watch(l.size());
            unsafe { std::alloc::System.alloc_zeroed(l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            watch(n);
            unsafe { std::alloc::System.realloc(p, l, n) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            unsafe { std::alloc::System.dealloc(p, l) }
        }
    }
    #[global_allocator]
    static WATCH: Watch = Watch;
}
use vf::{any, assume, chk, cover, heap, pause};

// ---- reference encoder/decoder building blocks --------------------------------------------
pub struct Out {
    pub b: [u8; 8448],
    pub n: usize,
}
impl Out {
    #[inline(always)]
    fn new() -> Self {
        Out { b: [0; 8448], n: 0 }
    }
    #[inline(always)]
    fn p(&mut self, x: u8) {
        self.b[self.n] = x;
        self.n += 1;
    }
    #[inline(always)]
    fn put<const N: usize>(&mut self, x: [u8; N]) {
        let mut i = 0;
        while i < N {
            self.b[self.n + i] = x[i];
            i += 1;
        }
        self.n += N;
    }
}
#[inline(always)]
fn same(a: &[u8], ao: usize, r: &Out, s: usize, e: usize) -> bool {
    let mut ok = true;
    let mut i = s;
    while i < e {
        ok &= a[ao + i] == r.b[i];
        i += 1;
    }
    ok
}
#[inline(always)]
fn g<const N: usize>(b: &[u8], p: &mut usize) -> [u8; N] {
    let mut r = [0u8; N];
    let mut i = 0;
    while i < N {
        r[i] = b[*p + i];
        i += 1;
    }
    *p += N;
    r
}
#[inline(always)]
fn eqs(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    let mut i = 0;
    while i < a.len() {
        ok &= a[i] == b[i];
        i += 1;
    }
    ok
}
fn ru8() -> u8 { any::<1>()[0] }
fn ru16() -> u16 { u16::from_be_bytes(any()) }
fn ru32() -> u32 { u32::from_be_bytes(any()) }
fn ru64() -> u64 { u64::from_be_bytes(any()) }
fn ri8() -> i8 { ru8() as i8 }
fn ri16() -> i16 { ru16() as i16 }
fn ri32() -> i32 { ru32() as i32 }
fn ri64() -> i64 { ru64() as i64 }
fn rf32() -> f32 { f32::from_bits(ru32()) }
fn rf64() -> f64 { f64::from_bits(ru64()) }
/// `n` arbitrary bytes
fn rbytes(n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        v.push(ru8());
        i += 1;
    }
    v
}
/// a string of `n` characters, the first of two octets, the second of three and the last of four, the others ASCII
fn rtext(n: usize) -> String {
    let mut v = Vec::with_capacity(4 * n);
    let mut i = 0;
    while i < n {
        let [a, b, c, d] = any::<4>();
        if i == 0 {
            assume(a >= 0xc2 && a <= 0xdf && b >= 0x80 && b <= 0xbf);
            v.push(a);
            v.push(b);
        } else if i == 1 {
            assume(a > 0xe0 && a < 0xed && b >= 0x80 && b <= 0xbf && c >= 0x80 && c <= 0xbf);
            v.push(a);
            v.push(b);
            v.push(c);
        } else if i == n - 1 {
            assume(a > 0xf0 && a < 0xf4 && b >= 0x80 && b <= 0xbf && c >= 0x80 && c <= 0xbf && d >= 0x80 && d <= 0xbf);
            v.push(a);
            v.push(b);
            v.push(c);
            v.push(d);
        } else {
            assume(a != 0 && a < 0x80);
            v.push(a);
        }
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// a string of `n` arbitrary ASCII characters other than NUL
fn rascii(n: usize) -> String {
    let mut v = Vec::with_capacity(n);
    let mut i = 0;
    while i < n {
        let c = ru8();
        assume(c != 0 && c < 0x80);
        v.push(c);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
