//! Global allocator of the simulation: counts allocations made inside library calls, fails the one
//! the fault plan names, and keeps a header per block so that leaks, double frees and mismatched
//! frees are noticed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering};

pub struct SimAlloc;

thread_local! {
    /// True while the running thread is inside a library call.
    pub static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// Allocations so far in this library call.
    pub static ALLOCS: Cell<u64> = const { Cell::new(0) };
    /// Number of the allocation that fails (1-based; 0 = none).
    pub static OOM_AT: Cell<u64> = const { Cell::new(0) };
    /// Size of the last allocation.
    static LAST_SIZE: Cell<usize> = const { Cell::new(0) };
    pub static OOM_FIRED: Cell<bool> = const { Cell::new(false) };
}

/// Size of an inner node of the maps of this run. Such an allocation is not failed: the standard
/// library makes it in the middle of splitting a node and would lose entries of the map.
pub static INNER_NODE: AtomicUsize = AtomicUsize::new(0);

/// Finds the size of an inner node of `BTreeMap<usize, V>`: the twelfth entry needs the first one.
pub fn probe_nodes<V: Copy>(v: V) {
    let mut m = std::collections::BTreeMap::new();
    for k in 0..12usize {
        m.insert(k, v);
    }
    INNER_NODE.store(LAST_SIZE.get(), Ordering::Relaxed);
    drop(m);
}

/// Blocks obtained inside library calls and not yet returned.
pub static LIVE_LIB_BLOCKS: AtomicI64 = AtomicI64::new(0);

const MAGIC: u64 = 0x51_A1_10_C8_ED_B1_0C_77;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;
const HUGE: usize = 1 << 28;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    align: usize,
    lib: u64,
}

fn hdr(align: usize) -> usize {
    align.max(32)
}

fn die(msg: &str) -> ! {
    unsafe {
        extern "C" {
            fn write(fd: i32, buf: *const u8, n: usize) -> isize;
        }
        write(2, msg.as_ptr(), msg.len());
    }
    std::process::abort()
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let in_lib = IN_LIB.get();
        LAST_SIZE.set(l.size());
        if in_lib {
            let n = ALLOCS.get() + 1;
            ALLOCS.set(n);
            if n == OOM_AT.get() && l.size() == INNER_NODE.load(Ordering::Relaxed) {
                OOM_AT.set(n + 1);
            }
            if n == OOM_AT.get() || l.size() > HUGE {
                OOM_AT.set(0);
                OOM_FIRED.set(true);
                return std::ptr::null_mut();
            }
            crate::sim::alloc_event();
        }
        let h = hdr(l.align());
        let full = match l.size().checked_add(h) {
            Some(n) => match Layout::from_size_align(n, l.align().max(16)) {
                Ok(f) => f,
                Err(_) => return std::ptr::null_mut(),
            },
            None => return std::ptr::null_mut(),
        };
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let q = p.add(h);
        (q.sub(32) as *mut Header).write(Header {
            magic: MAGIC,
            size: l.size(),
            align: l.align(),
            lib: in_lib as u64,
        });
        if in_lib {
            LIVE_LIB_BLOCKS.fetch_add(1, Ordering::Relaxed);
        }
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        let hp = q.sub(32) as *mut Header;
        if (*hp).magic != MAGIC {
            die("HEAP: free of a block that is not live\n");
        }
        if (*hp).size != l.size() || (*hp).align != l.align() {
            die("HEAP: free with another layout than allocated\n");
        }
        (*hp).magic = DEAD;
        if (*hp).lib == 1 {
            LIVE_LIB_BLOCKS.fetch_sub(1, Ordering::Relaxed);
        }
        let h = hdr(l.align());
        System.dealloc(
            q.sub(h),
            Layout::from_size_align_unchecked(l.size() + h, l.align().max(16)),
        );
    }
}
