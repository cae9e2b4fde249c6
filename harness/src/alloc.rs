//! Checking allocator: every block carries a header, so double frees and foreign frees abort;
//! with `guard(true)` freed blocks are filled with 0xDD and kept in a quarantine whose contents
//! are verified on eviction (a write after free aborts), and the number of live blocks is
//! counted exactly (leaks).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

const LIVE: u64 = 0xA110_C8ED_B10C_0001;
const DEAD: u64 = 0xDEAD_B10C_DEAD_0002;
const QN: usize = 4096;
const QMAX: usize = 4096; // only blocks up to this size are kept back

pub struct Checked;
static GUARD: AtomicBool = AtomicBool::new(false);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static QPOS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy)]
struct Slot {
    p: *mut u8,
    size: usize,
    off: usize,
    align: usize,
}
static mut Q: [Slot; QN] = [Slot { p: std::ptr::null_mut(), size: 0, off: 0, align: 0 }; QN];

/// Quarantine on/off. Only used by single-threaded workers.
pub fn guard(on: bool) {
    GUARD.store(on, Relaxed);
}
pub fn blocks() -> i64 {
    BLOCKS.load(Relaxed)
}

fn off(l: &Layout) -> usize {
    l.align().max(16)
}

fn die(msg: &str) -> ! {
    unsafe {
        libc::write(2, msg.as_ptr() as *const _, msg.len());
        libc::abort()
    }
}

unsafe fn release(s: Slot) {
    let h = s.p.sub(16) as *mut u64;
    *h = 0;
    System.dealloc(s.p.sub(s.off), Layout::from_size_align_unchecked(s.size + s.off, s.align.max(16)));
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(&l);
        let b = System.alloc(Layout::from_size_align_unchecked(l.size() + o, l.align().max(16)));
        if b.is_null() {
            return b;
        }
        let p = b.add(o);
        *(p.sub(16) as *mut u64) = LIVE;
        *(p.sub(8) as *mut u64) = l.size() as u64;
        if GUARD.load(Relaxed) {
            std::ptr::write_bytes(p, 0xA5, l.size());
        }
        BLOCKS.fetch_add(1, Relaxed);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(16) as *mut u64;
        if *h != LIVE {
            die(if *h == DEAD { "ALLOC: double free\n" } else { "ALLOC: free of a foreign or corrupted block\n" });
        }
        if *(p.sub(8) as *mut u64) != l.size() as u64 {
            die("ALLOC: free with a different size\n");
        }
        *h = DEAD;
        BLOCKS.fetch_sub(1, Relaxed);
        let s = Slot { p, size: l.size(), off: off(&l), align: l.align() };
        if !GUARD.load(Relaxed) || l.size() > QMAX {
            return release(s);
        }
        std::ptr::write_bytes(p, 0xDD, l.size());
        let i = QPOS.fetch_add(1, Relaxed) as usize % QN;
        let q = std::ptr::addr_of_mut!(Q) as *mut Slot;
        let old = *q.add(i);
        *q.add(i) = s;
        if !old.p.is_null() {
            for k in 0..old.size {
                if *old.p.add(k) != 0xDD {
                    die("ALLOC: block written to after it was freed\n");
                }
            }
            release(old);
        }
    }
}
