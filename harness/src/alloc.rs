//! Counting allocator with red zones. Observation point for the storage, release and heap clauses.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Tracker;
const MAGIC: u64 = 0x51ce_51ce_a110_c8ed;
const ZONE: u8 = 0xD9;
const PAD: usize = 64;

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// The largest single allocation.
pub static MAX: AtomicI64 = AtomicI64::new(0);
pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static BIG_LIVE: AtomicI64 = AtomicI64::new(0);
pub static BIG_PEAK: AtomicI64 = AtomicI64::new(0);
pub static BIG_MIN: AtomicI64 = AtomicI64::new(i64::MAX);
pub static HEAP_BAD: AtomicU64 = AtomicU64::new(0);
pub static EPOCH: AtomicU64 = AtomicU64::new(0);

/// Count allocations of every thread, not only of the calling one.
pub static ALL: AtomicBool = AtomicBool::new(false);
thread_local! {
	static MINE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
	static AWAY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Allocations of a callback are not those of the operation.
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
	let was = AWAY.with(|a| a.replace(true));
	let r = f();
	AWAY.with(|a| a.set(was));
	r
}
fn counted() -> bool {
	ACTIVE.load(Relaxed)
		&& AWAY.try_with(|a| !a.get()).unwrap_or(false)
		&& (ALL.load(Relaxed) || MINE.try_with(|m| m.get()).unwrap_or(false))
}

fn pad(layout: &Layout) -> usize {
	PAD.max(layout.align())
}

// Header (just below the user block): magic, size, epoch of allocation (0: outside of any window), alignment.
unsafe impl GlobalAlloc for Tracker {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		unsafe {
			let p = pad(&layout);
			let total = layout.size() + p + PAD;
			let Ok(l) = Layout::from_size_align(total, layout.align().max(16)) else {
				return std::ptr::null_mut();
			};
			let base = System.alloc(l);
			if base.is_null() {
				return base;
			}
			let u = base.add(p);
			let active = counted();
			let e = if active { EPOCH.load(Relaxed) } else { 0 };
			*(u.sub(8) as *mut u64) = MAGIC ^ layout.size() as u64;
			*(u.sub(16) as *mut u64) = e;
			*(u.sub(56) as *mut u64) = layout.align() as u64;
			std::ptr::write_bytes(u.sub(48), ZONE, 32);
			std::ptr::write_bytes(u.add(layout.size()), ZONE, PAD);
			if active {
				// Fresh storage is poisoned so that a read before a write is visible.
				std::ptr::write_bytes(u, 0xEB, layout.size());
				let s = layout.size() as i64;
				COUNT.fetch_add(1, Relaxed);
				MAX.fetch_max(s, Relaxed);
				let v = LIVE.fetch_add(s, Relaxed) + s;
				PEAK.fetch_max(v, Relaxed);
				if s >= BIG_MIN.load(Relaxed) {
					let v = BIG_LIVE.fetch_add(s, Relaxed) + s;
					BIG_PEAK.fetch_max(v, Relaxed);
				}
			}
			u
		}
	}
	unsafe fn dealloc(&self, u: *mut u8, layout: Layout) {
		unsafe {
			let p = pad(&layout);
			let total = layout.size() + p + PAD;
			let e = *(u.sub(16) as *const u64);
			let mut bad = *(u.sub(8) as *const u64) != MAGIC ^ layout.size() as u64
				|| *(u.sub(56) as *const u64) != layout.align() as u64;
			for i in 0..32 {
				bad |= *u.sub(48).add(i) != ZONE;
			}
			if !bad {
				for i in 0..PAD {
					bad |= *u.add(layout.size()).add(i) != ZONE;
				}
			}
			if bad {
				HEAP_BAD.fetch_add(1, Relaxed);
				// Leak: the block cannot be trusted any more.
				return;
			}
			let cur = EPOCH.load(Relaxed);
			if e != 0 && e == cur {
				let s = layout.size() as i64;
				LIVE.fetch_sub(s, Relaxed);
				if s >= BIG_MIN.load(Relaxed) {
					BIG_LIVE.fetch_sub(s, Relaxed);
				}
			}
			*(u.sub(8) as *mut u64) = 0xDEAD;
			let l = Layout::from_size_align_unchecked(total, layout.align().max(16));
			System.dealloc(u.sub(p), l);
		}
	}
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Stat {
	pub count: u64,
	pub peak: i64,
	pub live: i64,
	pub big_peak: i64,
	pub max: i64,
	pub big_live: i64,
	pub bad: u64,
}

pub fn window_begin(big_min: i64, all: bool) {
	MINE.with(|m| m.set(true));
	ALL.store(all, Relaxed);
	BIG_MIN.store(big_min, Relaxed);
	LIVE.store(0, Relaxed);
	PEAK.store(0, Relaxed);
	COUNT.store(0, Relaxed);
	MAX.store(0, Relaxed);
	BIG_LIVE.store(0, Relaxed);
	BIG_PEAK.store(0, Relaxed);
	HEAP_BAD.store(0, Relaxed);
	EPOCH.fetch_add(1, Relaxed);
	ACTIVE.store(true, Relaxed);
}
/// Stop counting new allocations; releases of blocks of this window are still counted.
pub fn window_pause() {
	ACTIVE.store(false, Relaxed);
	MINE.with(|m| m.set(false));
}
pub fn window_stat() -> Stat {
	Stat {
		count: COUNT.load(Relaxed),
		peak: PEAK.load(Relaxed),
		live: LIVE.load(Relaxed),
		max: MAX.load(Relaxed),
		big_peak: BIG_PEAK.load(Relaxed),
		big_live: BIG_LIVE.load(Relaxed),
		bad: HEAP_BAD.load(Relaxed),
	}
}
