//! Native runner: executes one harness on concrete inputs.
//! usage: replay HARNESS ARGS INPUTS  (comma-separated; inputs in hex)
//! prints "obs <hex>" lines, then "ok", or "FAILED <what>" (exit 3).
#![allow(clippy::all)]
include!("all.rs");

use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static INPUTS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
}
fn fail(m: &str) -> ! {
    println!("FAILED {}", m);
    std::process::exit(3)
}
#[no_mangle]
extern "C" fn __sym_bytes(p: *mut u8, n: usize) {
    let v = INPUTS.with(|i| i.borrow_mut().pop_front()).unwrap_or_default();
    for k in 0..n {
        unsafe { *p.add(k) = v.get(k).copied().unwrap_or(0) }
    }
}
#[no_mangle]
extern "C" fn __sym_assume(c: u32) {
    if c == 0 {
        println!("assumed away");
        std::process::exit(4)
    }
}
fn s(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
#[no_mangle]
extern "C" fn __sym_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        fail(&format!("check: {}", s(p, n)))
    }
}
#[no_mangle]
extern "C" fn __sym_reach(p: *const u8, n: usize) {
    println!("reach {}", s(p, n))
}
#[no_mangle]
extern "C" fn __sym_obs(p: *const u8, n: usize) {
    let b = unsafe { std::slice::from_raw_parts(p, n) };
    println!("obs {}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
}
#[no_mangle]
extern "C" fn __sym_flag(k: u64, v: u64) {
    if k == 1 {
        ALLOW.store(v, std::sync::atomic::Ordering::Relaxed)
    }
}
#[no_mangle]
extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C" fn __sym_ite(c: u32, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
static ALLOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// refuses absurd allocations so that a replayed one fails instead of exhausting memory
struct Limit;
unsafe impl std::alloc::GlobalAlloc for Limit {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 22 {
            let m = b"FAILED alloc: allocation out of proportion\n";
            extern "C" {
                fn write(fd: i32, p: *const u8, n: usize) -> isize;
                fn _exit(c: i32) -> !;
            }
            write(1, m.as_ptr(), m.len());
            _exit(3);
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Limit = Limit;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let args: Vec<u64> = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let inputs: VecDeque<Vec<u8>> =
        if a.len() < 4 || a[3].is_empty() { VecDeque::new() } else { a[3].split(',').map(|h| hex::decode(h).unwrap()).collect() };
    std::panic::set_hook(Box::new(|i| {
        if ALLOW.load(std::sync::atomic::Ordering::Relaxed) == 1 {
            println!("ok (panic allowed)");
            std::process::exit(0)
        }
        fail(&format!("panic: {}", i.to_string().replace('\n', " ")))
    }));
    let name = a[1].clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            INPUTS.with(|i| *i.borrow_mut() = inputs);
            if !run_harness(&name, &args) {
                println!("no such harness");
                std::process::exit(5)
            }
        })
        .unwrap();
    h.join().ok();
    println!("ok");
}
