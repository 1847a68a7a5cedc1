//! Memory placement (guard pages and canaries), the checking allocator and the crash journal.
//!
//! Two backends: on plain Linux builds buffers live in mmapped arenas between inaccessible pages;
//! under ASan, Miri and WebAssembly (`heap_mode`) they are exact-size heap blocks, and the tool
//! itself notices stray accesses.

#[cfg(all(target_os = "linux", not(miri)))]
pub mod sys {
    use core::ffi::{c_int, c_void};
    extern "C" {
        pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
        pub fn munmap(a: *mut c_void, l: usize) -> c_int;
        pub fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
        pub fn madvise(a: *mut c_void, l: usize, advice: c_int) -> c_int;
        pub fn memfd_create(name: *const u8, flags: u32) -> c_int;
        pub fn ftruncate(fd: c_int, len: i64) -> c_int;
        pub fn close(fd: c_int) -> c_int;
        pub fn fork() -> c_int;
        pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
        pub fn _exit(code: c_int) -> !;
        pub fn alarm(s: u32) -> u32;
    }
    pub const RW: c_int = 3;
    pub const R: c_int = 1;
    pub const NONE: c_int = 0;
    pub const MAP_SHARED: c_int = 1;
    pub const MAP_PRIVATE: c_int = 2;
    pub const MAP_FIXED: c_int = 0x10;
    pub const MAP_ANON: c_int = 0x20;
    pub const MAP_NORESERVE: c_int = 0x4000;
    pub const PAGE: usize = 4096;

    pub unsafe fn map_anon(len: usize, prot: c_int) -> *mut u8 {
        let p = mmap(core::ptr::null_mut(), len, prot, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0);
        assert!(p as isize != -1, "harness: mmap failed");
        p.cast()
    }
}

/// Reserves `len` bytes so that a multiple of 2^32 is `before` bytes behind the start, if there is such a place.
#[cfg(all(target_os = "linux", not(miri)))]
unsafe fn map_near(len: usize, before: usize) -> *mut u8 {
    use sys::*;
    use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
    static NEXT: AtomicUsize = AtomicUsize::new(0x2100);
    if cfg!(target_pointer_width = "64") {
        for _ in 0..8 {
            let at = (NEXT.fetch_add(3, Relaxed) << 31 << 1) - before;
            let p = mmap(at as *mut _, len, NONE, MAP_PRIVATE | MAP_ANON | MAP_NORESERVE, -1, 0).cast::<u8>();
            if p as usize == at {
                return p;
            }
            if p as isize != -1 {
                munmap(p.cast(), len);
            }
        }
    }
    map_anon(len, NONE)
}

pub const CANARY: u8 = 0xC7;
const CANARY_LEN: usize = 192;

/// `true` where buffers are exact-size heap blocks instead of guard-page arenas
pub fn heap_mode() -> bool {
    cfg!(any(miri, not(target_os = "linux"))) || cfg!(simd_asan)
}

/// An exact-size heap block, part of which can be hidden from the program under ASan.
struct Raw {
    base: *mut u8,
    layout: std::alloc::Layout,
    hidden: usize,
}

impl Default for Raw {
    fn default() -> Self {
        Raw { base: core::ptr::null_mut(), layout: std::alloc::Layout::new::<u8>(), hidden: 0 }
    }
}

impl Raw {
    fn new(size: usize, align: usize) -> Self {
        let layout = std::alloc::Layout::from_size_align(size, align).unwrap();
        if size == 0 {
            // no block at all
            return Raw { base: core::ptr::null_mut::<u8>().wrapping_add(align), layout, hidden: 0 };
        }
        let base = unsafe { std::alloc::alloc(layout) };
        assert!(!base.is_null(), "harness: out of memory");
        Raw { base, layout, hidden: 0 }
    }

    /// Makes the first `n` bytes (a multiple of 8) inaccessible.
    fn hide(&mut self, n: usize) {
        self.hidden = n;
        #[cfg(simd_asan)]
        if n > 0 {
            unsafe { __asan_poison_memory_region(self.base.cast(), n) };
        }
    }
}

impl Drop for Raw {
    fn drop(&mut self) {
        #[cfg(simd_asan)]
        if self.hidden > 0 {
            unsafe { __asan_unpoison_memory_region(self.base.cast(), self.hidden) };
        }
        if self.layout.size() > 0 && !self.base.is_null() {
            unsafe { std::alloc::dealloc(self.base, self.layout) };
        }
    }
}

#[cfg(simd_asan)]
extern "C" {
    fn __asan_poison_memory_region(p: *const core::ffi::c_void, n: usize);
    fn __asan_unpoison_memory_region(p: *const core::ffi::c_void, n: usize);
}

/// A buffer region. `place` values: 0 = flush against the following guard page, 1 = flush against
/// the preceding guard page, `k >= 2` = in the middle at address offset `(k - 2) % 64` from a
/// 64-byte boundary, across a page boundary (of a multiple of 2^32, if possible) when longer than 64.
pub struct Region {
    #[cfg(all(target_os = "linux", not(miri)))]
    arenas: [(*mut u8, usize); 3],
    raw: Raw,
    /// memory of someone else, used by the next `put` instead of a copy
    adopted: Option<(*mut u8, usize)>,
    cur: *mut u8,
    cur_len: usize,
    lo: usize,
    hi: usize,
}

impl Default for Region {
    fn default() -> Self {
        Self::new()
    }
}

impl Region {
    pub fn new() -> Self {
        Region {
            #[cfg(all(target_os = "linux", not(miri)))]
            arenas: [(core::ptr::null_mut(), 0); 3],
            raw: Raw::default(),
            adopted: None,
            cur: core::ptr::null_mut(),
            cur_len: 0,
            lo: 0,
            hi: 0,
        }
    }

    /// Bytes of `len` at the given placement; surrounding bytes are canaries, the block itself holds
    /// `fill`.
    pub fn get(&mut self, len: usize, place: u32, fill: u8) -> *mut u8 {
        let p = self.block(len, place);
        if !cfg!(miri) {
            // (the interpreter tells uninitialised bytes)
            unsafe { core::ptr::write_bytes(p, fill, len) };
        }
        p
    }

    #[cfg(all(target_os = "linux", not(miri)))]
    fn block(&mut self, len: usize, place: u32) -> *mut u8 {
        use sys::*;
        if heap_mode() {
            return self.heap_block(len, place);
        }
        let need = len + 2 * PAGE + 128;
        let class = if need <= 16 * PAGE { 0 } else if need <= 1024 * PAGE { 1 } else { 2 };
        let cap = match class {
            0 => 16 * PAGE,
            1 => 1024 * PAGE,
            _ => (need + PAGE - 1) / PAGE * PAGE,
        };
        let a = &mut self.arenas[class];
        if a.0.is_null() || a.1 < cap {
            unsafe {
                if !a.0.is_null() {
                    munmap(a.0.sub(PAGE).cast(), a.1 + 2 * PAGE);
                }
                // blocks in the middle lie across a page boundary, if possible one of a multiple of 2^32
                let base = map_near(cap + 2 * PAGE, 2 * PAGE);
                let rw = base.add(PAGE);
                assert!(mprotect(rw.cast(), cap, RW) == 0);
                *a = (rw, cap);
            }
        }
        let (base, cap) = *a;
        let off = match place {
            0 => cap - len,
            1 => 0,
            k => PAGE - 64 + ((k - 2) % 64) as usize,
        };
        let lo = off.min(CANARY_LEN);
        let hi = (cap - off - len).min(CANARY_LEN);
        unsafe {
            let p = base.add(off);
            core::ptr::write_bytes(p.sub(lo), CANARY, lo);
            core::ptr::write_bytes(p.add(len), CANARY, hi);
            self.cur = p;
            self.cur_len = len;
            self.lo = lo;
            self.hi = hi;
            p
        }
    }

    #[cfg(not(all(target_os = "linux", not(miri))))]
    fn block(&mut self, len: usize, place: u32) -> *mut u8 {
        self.heap_block(len, place)
    }

    /// `len` bytes with nothing behind them, `off` bytes (as far as they can be told apart,
    /// inaccessible) in front, and everything aligned to `align`.
    fn exact(&mut self, off: usize, len: usize, align: usize) -> *mut u8 {
        // where no tool watches (WebAssembly), canaries have to do
        let tail = if cfg!(any(miri, simd_asan)) { 0 } else { 64 };
        self.raw = Raw::new(off + len + tail, align);
        let p = unsafe { self.raw.base.add(off) };
        let hidden = if cfg!(simd_asan) { off & !7 } else { 0 };
        if !cfg!(miri) {
            unsafe { core::ptr::write_bytes(self.raw.base, CANARY, off + len + tail) };
        }
        self.raw.hide(hidden);
        self.cur = p;
        self.cur_len = len;
        self.lo = if cfg!(miri) { 0 } else { off - hidden };
        self.hi = tail;
        p
    }

    fn heap_block(&mut self, len: usize, place: u32) -> *mut u8 {
        // (the interpreter picks addresses of its own)
        let off = if place >= 2 && !cfg!(miri) { ((place - 2) % 64) as usize } else { 0 };
        self.exact(off, len, if cfg!(miri) { 1 } else { 64 })
    }

    /// Like `block` for element type of size `elem`: keeps natural alignment.
    pub fn get_elems(&mut self, count: usize, elem: usize, place: u32, fill: u8) -> *mut u8 {
        let place = if place >= 2 { 2 + ((place - 2) as usize % (64 / elem) * elem) as u32 } else { place };
        if heap_mode() {
            let len = count * elem;
            let off = if place >= 2 && !cfg!(miri) { (place - 2) as usize } else { 0 };
            let p = self.exact(off, len, if cfg!(miri) { elem } else { 64 });
            if !cfg!(miri) {
                unsafe { core::ptr::write_bytes(p, fill, len) };
            }
            return p;
        }
        self.get(count * elem, place, fill)
    }

    pub fn adopt(&mut self, p: *const u8, len: usize) {
        self.adopted = Some((p.cast_mut(), len));
    }

    fn use_adopted(&mut self) -> Option<*const u8> {
        let (p, n) = self.adopted.take()?;
        (self.cur, self.cur_len, self.lo, self.hi) = (p, n, 0, 0);
        Some(p)
    }

    pub fn put(&mut self, data: &[u8], place: u32) -> *const u8 {
        if let Some(p) = self.use_adopted() {
            return p;
        }
        let p = self.block(data.len(), place);
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        p
    }

    pub fn put_u32(&mut self, data: &[u32], place: u32) -> *const u32 {
        if let Some(p) = self.use_adopted() {
            return p.cast();
        }
        let p = self.get_elems(data.len(), 4, place, 0).cast::<u32>();
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        p
    }

    pub fn put_u16(&mut self, data: &[u16], place: u32) -> *const u16 {
        if let Some(p) = self.use_adopted() {
            return p.cast();
        }
        let p = self.get_elems(data.len(), 2, place, 0).cast::<u16>();
        unsafe { core::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len()) };
        p
    }

    /// Overwrites the bytes around the current block (not where a tool watches them).
    pub fn neighbours(&mut self, f: &mut dyn FnMut(usize) -> u8) {
        if cfg!(any(miri, simd_asan)) {
            return;
        }
        unsafe {
            for i in 0..self.lo {
                *self.cur.sub(i + 1) = f(i);
            }
            for i in 0..self.hi {
                *self.cur.add(self.cur_len + i) = f(1000 + i);
            }
        }
    }

    /// Makes the pages of the current block read-only / writable again.
    pub fn protect(&mut self, read_only: bool) {
        #[cfg(all(target_os = "linux", not(miri)))]
        if !heap_mode() {
            use sys::*;
            let a = self.cur as usize & !(PAGE - 1);
            let e = (self.cur as usize + self.cur_len.max(1) + PAGE - 1) & !(PAGE - 1);
            // a zero-length block flush against the end would touch the guard page
            for arena in &self.arenas {
                let (b, c) = (arena.0 as usize, arena.1);
                if a >= b && a < b + c {
                    let e = e.min(b + c);
                    unsafe { assert!(mprotect(a as *mut _, e - a, if read_only { R } else { RW }) == 0) };
                }
            }
        }
        let _ = read_only;
    }

    /// Are the bytes around the block untouched?
    pub fn intact(&self) -> Result<(), String> {
        unsafe {
            for i in 0..self.lo {
                if *self.cur.sub(i + 1) != CANARY {
                    return Err(format!("byte {} before the buffer was overwritten", i + 1));
                }
            }
            for i in 0..self.hi {
                if *self.cur.add(self.cur_len + i) != CANARY {
                    return Err(format!("byte {} after the buffer was overwritten", i));
                }
            }
        }
        Ok(())
    }

    pub fn bytes(&self) -> &[u8] {
        unsafe { core::slice::from_raw_parts(self.cur, self.cur_len) }
    }
}

/// The checking allocator: while armed, allocations of the current thread come from guard-page slots,
/// filled with a chosen byte, and every release is checked against its allocation.
pub mod heap {
    use core::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
    use std::alloc::{GlobalAlloc, Layout, System};

    pub struct Checked;

    static ARMED: AtomicBool = AtomicBool::new(false);
    static OWNER: AtomicU64 = AtomicU64::new(0);
    static POISON: AtomicUsize = AtomicUsize::new(0xA5);
    static BASE: AtomicUsize = AtomicUsize::new(0);
    static BAD: AtomicUsize = AtomicUsize::new(0);
    static ALLOCS: AtomicUsize = AtomicUsize::new(0);
    static TOTAL: AtomicUsize = AtomicUsize::new(0);
    static FREES: AtomicUsize = AtomicUsize::new(0);

    // counting of allocations: wanted, and going on
    static COUNT: AtomicBool = AtomicBool::new(false);
    static ACTIVE: AtomicUsize = AtomicUsize::new(0);
    static LIVE: AtomicUsize = AtomicUsize::new(0);
    static CALLS: AtomicU64 = AtomicU64::new(0);
    static BYTES: AtomicUsize = AtomicUsize::new(0);
    static NOW: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    // the allocation to refuse (counted from 0 while ACTIVE), and the size that was refused
    static REFUSE: AtomicU64 = AtomicU64::new(u64::MAX);
    static REFUSED: AtomicUsize = AtomicUsize::new(0);

    /// The k-th allocation of the next counted call fails.
    pub fn refuse(k: Option<u64>) {
        REFUSE.store(k.unwrap_or(u64::MAX), Relaxed);
        REFUSED.store(0, Relaxed);
    }
    /// The size that was refused.
    pub fn refused() -> Option<usize> {
        match REFUSED.load(Relaxed) {
            0 => None,
            n => Some(n),
        }
    }

    #[derive(Clone, Copy, Default)]
    pub struct Use {
        pub calls: u64,
        pub bytes: usize,
        pub peak: usize,
    }

    pub fn count(on: bool) {
        COUNT.store(on, Relaxed);
        ACTIVE.fetch_and(!1, Relaxed);
    }
    /// Keeps the balance of all that is allocated and released from now on.
    pub fn track() {
        LIVE.store(0, Relaxed);
        ACTIVE.fetch_or(2, Relaxed);
    }
    pub fn tracked() -> isize {
        ACTIVE.fetch_and(!2, Relaxed);
        LIVE.load(Relaxed) as isize
    }
    pub fn counting() -> bool {
        COUNT.load(Relaxed)
    }
    pub fn restart() {
        CALLS.store(0, Relaxed);
        BYTES.store(0, Relaxed);
        NOW.store(0, Relaxed);
        PEAK.store(0, Relaxed);
        ACTIVE.fetch_or(1, Relaxed);
    }
    pub fn stop() {
        ACTIVE.fetch_and(!1, Relaxed);
    }
    pub fn used() -> Use {
        Use { calls: CALLS.load(Relaxed), bytes: BYTES.load(Relaxed), peak: PEAK.load(Relaxed) }
    }
    /// Whether the allocation may go on.
    #[cold]
    fn note_alloc(n: usize) -> bool {
        let on = ACTIVE.load(Relaxed);
        if on & 1 != 0 && CALLS.load(Relaxed) == REFUSE.load(Relaxed) {
            REFUSE.store(u64::MAX, Relaxed);
            REFUSED.store(n, Relaxed);
            return false;
        }
        if on & 2 != 0 {
            LIVE.store(LIVE.load(Relaxed).wrapping_add(n), Relaxed);
        }
        if on & 1 == 0 {
            return true;
        }
        CALLS.store(CALLS.load(Relaxed) + 1, Relaxed);
        BYTES.store(BYTES.load(Relaxed) + n, Relaxed);
        let now = NOW.load(Relaxed) + n;
        NOW.store(now, Relaxed);
        PEAK.store(PEAK.load(Relaxed).max(now), Relaxed);
        true
    }
    #[cold]
    fn note_free(n: usize) {
        let on = ACTIVE.load(Relaxed);
        if on & 2 != 0 {
            LIVE.store(LIVE.load(Relaxed).wrapping_sub(n), Relaxed);
        }
        if on & 1 == 0 {
            return;
        }
        NOW.store(NOW.load(Relaxed).saturating_sub(n), Relaxed);
    }

    const SLOTS: usize = 24;
    const SLOT_CAP: usize = 64 * 1024;
    const STRIDE: usize = SLOT_CAP + 4096;

    struct Slot {
        ptr: AtomicUsize,
        size: AtomicUsize,
        align: AtomicUsize,
        live: AtomicBool,
    }
    #[allow(clippy::declare_interior_mutable_const)]
    const EMPTY: Slot = Slot {
        ptr: AtomicUsize::new(0),
        size: AtomicUsize::new(0),
        align: AtomicUsize::new(0),
        live: AtomicBool::new(false),
    };
    static SLOT: [Slot; SLOTS] = [EMPTY; SLOTS];

    // The harness arms the allocator only in single-threaded phases.
    unsafe impl GlobalAlloc for Checked {
        #[inline]
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if ARMED.load(Relaxed) {
                return slot_alloc(l);
            }
            if ACTIVE.load(Relaxed) != 0 && !note_alloc(l.size()) {
                return core::ptr::null_mut();
            }
            System.alloc(l)
        }
        #[inline]
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let base = BASE.load(Relaxed);
            if base != 0 && (p as usize).wrapping_sub(base) < SLOTS * STRIDE + 4096 {
                return slot_free(p, l);
            }
            if ACTIVE.load(Relaxed) != 0 {
                note_free(l.size());
            }
            System.dealloc(p, l)
        }
        #[inline]
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            if ARMED.load(Relaxed) {
                let p = slot_alloc(l);
                core::ptr::write_bytes(p, 0, l.size());
                return p;
            }
            if ACTIVE.load(Relaxed) != 0 && !note_alloc(l.size()) {
                return core::ptr::null_mut();
            }
            System.alloc_zeroed(l)
        }
        #[inline]
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            let base = BASE.load(Relaxed);
            let in_slot = base != 0 && (p as usize).wrapping_sub(base) < SLOTS * STRIDE + 4096;
            if ARMED.load(Relaxed) || in_slot {
                let nl = Layout::from_size_align_unchecked(new, l.align());
                let q = self.alloc(nl);
                if !q.is_null() {
                    core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    self.dealloc(p, l);
                }
                return q;
            }
            if ACTIVE.load(Relaxed) != 0 {
                if !note_alloc(new) {
                    return core::ptr::null_mut();
                }
                note_free(l.size());
            }
            System.realloc(p, l, new)
        }
    }

    #[cfg(all(target_os = "linux", not(miri)))]
    unsafe fn slot_alloc(l: Layout) -> *mut u8 {
        use super::sys::*;
        TOTAL.fetch_add(1, Relaxed);
        if l.size() > SLOT_CAP || l.align() > 4096 {
            return System.alloc(l);
        }
        let mut base = BASE.load(Relaxed);
        if base == 0 {
            base = map_anon(SLOTS * STRIDE + 4096, NONE) as usize;
            for i in 0..SLOTS {
                assert!(mprotect((base + 4096 + i * STRIDE) as *mut _, SLOT_CAP, RW) == 0);
            }
            BASE.store(base, Relaxed);
        }
        let start = ALLOCS.fetch_add(1, Relaxed);
        for k in 0..SLOTS {
            let i = (start + k) % SLOTS;
            let s = &SLOT[i];
            if s.live.load(Relaxed) {
                continue;
            }
            let lo = base + 4096 + i * STRIDE;
            let p = (lo + SLOT_CAP - l.size()) & !(l.align() - 1);
            let from = (p - 256.min(p - lo)) as *mut u8;
            core::ptr::write_bytes(from, POISON.load(Relaxed) as u8, lo + SLOT_CAP - from as usize);
            s.ptr.store(p, Relaxed);
            s.size.store(l.size(), Relaxed);
            s.align.store(l.align(), Relaxed);
            s.live.store(true, Relaxed);
            return p as *mut u8;
        }
        ALLOCS.fetch_sub(1, Relaxed);
        System.alloc(l)
    }

    #[cfg(not(all(target_os = "linux", not(miri))))]
    unsafe fn slot_alloc(l: Layout) -> *mut u8 {
        System.alloc(l)
    }

    unsafe fn slot_free(p: *mut u8, l: Layout) {
        let base = BASE.load(Relaxed);
        let i = (p as usize - base - 4096) / STRIDE;
        let s = &SLOT[i];
        if !s.live.load(Relaxed) {
            BAD.store(1, Relaxed); // double free or free of a stale pointer
            return;
        }
        if s.ptr.load(Relaxed) != p as usize {
            BAD.store(2, Relaxed); // not the start of the block
        } else if s.size.load(Relaxed) != l.size() {
            BAD.store(3, Relaxed); // wrong size
        } else if s.align.load(Relaxed) != l.align() {
            BAD.store(4, Relaxed);
        }
        core::ptr::write_bytes(s.ptr.load(Relaxed) as *mut u8, 0xDD, s.size.load(Relaxed));
        s.live.store(false, Relaxed);
        FREES.fetch_add(1, Relaxed);
    }

    pub fn usable() -> bool {
        cfg!(all(target_os = "linux", not(miri), not(simd_asan)))
    }

    /// Runs `f` with allocations redirected to guarded slots filled with `poison`.
    pub fn armed<R>(poison: u8, f: impl FnOnce() -> R) -> R {
        struct Off;
        impl Drop for Off {
            fn drop(&mut self) {
                ARMED.store(false, Relaxed);
            }
        }
        let _ = &OWNER;
        POISON.store(poison as usize, Relaxed);
        if usable() {
            ARMED.store(true, Relaxed);
        }
        let _off = Off;
        f()
    }

    /// Number of guarded blocks still alive, to be called disarmed.
    pub fn live() -> usize {
        SLOT.iter().filter(|s| s.live.load(Relaxed)).count()
    }

    pub fn take_error() -> Option<&'static str> {
        match BAD.swap(0, Relaxed) {
            0 => None,
            1 => Some("heap block released twice"),
            2 => Some("heap block released through an interior pointer"),
            3 => Some("heap block released with a size other than it was allocated with"),
            _ => Some("heap block released with an alignment other than it was allocated with"),
        }
    }

    /// Forgets everything (after a panic unwound through armed code).
    pub fn reset() {
        for s in &SLOT {
            s.live.store(false, Relaxed);
        }
        BAD.store(0, Relaxed);
    }

    pub fn total() -> usize {
        TOTAL.load(Relaxed)
    }
}

#[cfg(target_arch = "wasm32")]
static JOURNAL: core::sync::atomic::AtomicPtr<u8> = core::sync::atomic::AtomicPtr::new(core::ptr::null_mut());
#[cfg(target_arch = "wasm32")]
pub fn journal_memory() -> *const u8 {
    JOURNAL.load(core::sync::atomic::Ordering::Relaxed)
}

/// A shared memory-mapped file that always holds the case being executed, so that the parent can
/// recover it after a crash.
pub struct Journal {
    ptr: *mut u8,
    cap: usize,
    /// where memory cannot be shared, the memory is written to this file
    path: Option<String>,
    own: Vec<u32>,
}

impl Journal {
    pub fn none() -> Self {
        Journal { ptr: core::ptr::null_mut(), cap: 0, path: None, own: Vec::new() }
    }

    #[cfg(all(target_os = "linux", not(miri)))]
    pub fn open(path: &str) -> Self {
        use std::os::fd::AsRawFd;
        let cap = 32 << 20;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .expect("harness: journal");
        f.set_len(cap as u64).expect("harness: journal size");
        unsafe {
            let p = sys::mmap(core::ptr::null_mut(), cap, sys::RW, sys::MAP_SHARED, f.as_raw_fd(), 0);
            assert!(p as isize != -1, "harness: journal mmap");
            Journal { ptr: p.cast(), cap, path: None, own: Vec::new() }
        }
    }

    #[cfg(target_arch = "wasm32")]
    pub fn open(_: &str) -> Self {
        let cap = 4 << 20;
        let ptr = Box::leak(vec![0u8; cap].into_boxed_slice()).as_mut_ptr();
        JOURNAL.store(ptr, core::sync::atomic::Ordering::Relaxed);
        Journal { ptr, cap, path: None, own: Vec::new() }
    }

    #[cfg(not(any(all(target_os = "linux", not(miri)), target_arch = "wasm32")))]
    pub fn open(path: &str) -> Self {
        let cap = 1 << 20;
        let mut own = vec![0u32; cap / 4];
        Journal { ptr: own.as_mut_ptr().cast(), cap, path: Some(path.to_string()), own }
    }

    #[inline]
    pub fn note(&mut self, c: &crate::case::Case) {
        if self.ptr.is_null() {
            return;
        }
        // layout: u32 valid, u32 fam, 6 x u32 params, u32 len a, u32 len b, a, b
        unsafe {
            let w = self.ptr.cast::<u32>();
            w.write(0);
            let (la, lb) = (c.a.len(), c.b.len());
            if 40 + la + lb > self.cap {
                return;
            }
            w.add(1).write(c.fam);
            for i in 0..6 {
                w.add(2 + i).write(c.p[i]);
            }
            w.add(8).write(la as u32);
            w.add(9).write(lb as u32);
            let d = self.ptr.add(40);
            core::ptr::copy_nonoverlapping(c.a.as_ptr(), d, la);
            core::ptr::copy_nonoverlapping(c.b.as_ptr(), d.add(la), lb);
            w.write(1);
            #[cfg(miri)]
            if let Some(p) = &self.path {
                let _ = std::fs::write(p, core::slice::from_raw_parts(self.ptr, 40 + la + lb));
            }
            let _ = (&self.path, &self.own);
        }
    }
}
