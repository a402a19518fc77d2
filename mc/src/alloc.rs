//! Checking allocator: every block carries a header (magic, size, align); freed blocks are
//! poisoned and kept in a thread-local quarantine whose poison is verified on eviction.
//! Errors are recorded in thread-local counters (never a panic inside the allocator).
//! Under Miri or address sanitizer only the live counters are kept; the tool does the rest.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Checking;

#[global_allocator]
static GLOBAL: Checking = Checking;

const TOOL: bool = cfg!(miri) || cfg!(mc_asan);
const HDR: usize = 32;
const LIVE: u64 = 0x6c69_7665_b10c_4a11;
const DEAD: u64 = 0xdead_b10c_f4ee_d000;
const POISON: u8 = 0xD5;
const QLEN: usize = 192;
const QMAX: usize = 2048;
/// A thread holding more than this is taken to be in a runaway allocation loop.
const CAP: i64 = 3 << 30;

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq)]
pub struct Errors {
    pub double_free: u32,
    pub wrong_layout: u32,
    pub write_after_free: u32,
    pub wild_free: u32,
}

impl Errors {
    pub fn any(&self) -> bool {
        *self != Errors::default()
    }
}

struct Quarantine {
    slots: [(*mut u8, usize, usize); QLEN],
    pos: usize,
}

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static FREED: Cell<u64> = const { Cell::new(0) };
    static ERRS: Cell<Errors> = const { Cell::new(Errors { double_free: 0, wrong_layout: 0, write_after_free: 0, wild_free: 0 }) };
    static QUAR: UnsafeCell<Quarantine> = const { UnsafeCell::new(Quarantine { slots: [(std::ptr::null_mut(), 0, 0); QLEN], pos: 0 }) };
}

thread_local! {
    /// Sees every block freed on this thread first; `true`: it has taken the block over.
    pub static ON_FREE: Cell<Option<fn(*mut u8, Layout) -> bool>> = const { Cell::new(None) };
}

fn err(f: impl FnOnce(&mut Errors)) {
    let _ = ERRS.try_with(|e| {
        let mut v = e.get();
        f(&mut v);
        e.set(v);
    });
}

fn count(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
    let _ = BYTES.try_with(|c| {
        let v = c.get() + bytes;
        c.set(v);
        if v > CAP {
            let msg = b"MEMCAP: runaway allocation\n";
            unsafe {
                libc::write(2, msg.as_ptr().cast(), msg.len());
                libc::_exit(78)
            }
        }
    });
}

fn pad(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    // p is the user pointer; verify the poison, then give the memory back
    unsafe {
        let s = std::slice::from_raw_parts(p, size);
        if s.iter().any(|&b| b != POISON) {
            err(|e| e.write_after_free += 1);
        }
        let off = pad(align);
        // wipe the header, so that a stale pointer is not mistaken for a quarantined block
        p.sub(HDR).cast::<u64>().write(0);
        System.dealloc(p.sub(off), Layout::from_size_align_unchecked(size + off, align.max(16)));
    }
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1, l.size() as i64);
        if TOOL {
            return unsafe { System.alloc(l) };
        }
        unsafe {
            let off = pad(l.align());
            let base = System.alloc(Layout::from_size_align_unchecked(
                l.size() + off,
                l.align().max(16),
            ));
            if base.is_null() {
                return base;
            }
            let p = base.add(off);
            let h = p.sub(HDR).cast::<u64>();
            h.write(LIVE);
            h.add(1).write(l.size() as u64);
            h.add(2).write(l.align() as u64);
            p
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Ok(Some(h)) = ON_FREE.try_with(|h| h.get()) {
            if h(p, l) {
                return;
            }
        }
        let _ = FREED.try_with(|c| c.set(c.get() + 1));
        if TOOL {
            count(-1, -(l.size() as i64));
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let h = p.sub(HDR).cast::<u64>();
            match h.read() {
                LIVE => (),
                DEAD => {
                    err(|e| e.double_free += 1);
                    return;
                }
                _ => {
                    err(|e| e.wild_free += 1);
                    return;
                }
            }
            let (size, align) = (h.add(1).read() as usize, h.add(2).read() as usize);
            if size != l.size() || align != l.align() {
                err(|e| e.wrong_layout += 1);
            }
            count(-1, -(size as i64));
            h.write(DEAD);
            std::ptr::write_bytes(p, POISON, size);
            if size > QMAX {
                return release(p, size, align);
            }
            let parked = QUAR.try_with(|q| {
                let q = &mut *q.get();
                let old = std::mem::replace(&mut q.slots[q.pos], (p, size, align));
                q.pos = (q.pos + 1) % QLEN;
                old
            });
            match parked {
                Ok((old, s, a)) if !old.is_null() => release(old, s, a),
                Ok(_) => (),
                Err(_) => release(p, size, align),
            }
        }
    }
}

/// Verifies the poison of every block in this thread's quarantine, and gives them back.
pub fn flush() {
    if TOOL {
        return;
    }
    let _ = QUAR.try_with(|q| unsafe {
        let q = &mut *q.get();
        for i in 0..QLEN {
            let (p, s, a) = std::mem::replace(&mut q.slots[i], (std::ptr::null_mut(), 0, 0));
            if !p.is_null() {
                release(p, s, a);
            }
        }
        q.pos = 0;
    });
}

/// Verifies the poison of every block in this thread's quarantine without releasing them.
pub fn verify() {
    if TOOL {
        return;
    }
    let _ = QUAR.try_with(|q| unsafe {
        let q = &mut *q.get();
        for i in 0..QLEN {
            let (p, s, _) = q.slots[i];
            if !p.is_null() && std::slice::from_raw_parts(p, s).iter().any(|&b| b != POISON) {
                err(|e| e.write_after_free += 1);
                std::ptr::write_bytes(p, POISON, s);
            }
        }
    });
}

/// Blocks and bytes this thread has allocated minus those it has freed.
pub fn live() -> (i64, i64) {
    (BLOCKS.with(|c| c.get()), BYTES.with(|c| c.get()))
}

pub fn freed() -> u64 {
    FREED.with(|c| c.get())
}

pub fn take_errors() -> Errors {
    ERRS.with(|e| e.replace(Errors::default()))
}

/// Runs `f` without its allocations showing up in `live`.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let (b, y) = live();
    let r = f();
    BLOCKS.with(|c| c.set(b));
    BYTES.with(|c| c.set(y));
    r
}
