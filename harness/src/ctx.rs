//! The environment of a call as the callbacks see it: ranks, adversaries, lies, injected panics, and what is observed.
use std::cell::{Cell, UnsafeCell};
use std::cmp::Ordering::{self, Equal, Greater, Less};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicPtr, AtomicU8, AtomicU32, AtomicU64, Ordering::Relaxed, Ordering::SeqCst};

pub const NAN: u32 = u32::MAX;
pub const GAS: u32 = u32::MAX - 1;

/// Injected panic payload.
pub struct Injected;
/// The comparison cap was reached: the call is taken to diverge.
pub struct Diverged;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
	/// Consistent weak order given by the ranks.
	Cons,
	/// Adaptive adversary (McIlroy); after `freeze` both-undecided comparisons the rest is random.
	Adv { freeze: u64, flip: bool, dup: u8 },
	/// Adaptive adversary that follows a script: where the pivot of each pass comes to lie (`len` steps of 3 bits, over
	/// and over); after `freeze` both-undecided comparisons the rest is random.
	Guide { script: u64, len: u8, freeze: u64 },
	/// Arbitrary answers. `kind` selects the style, `from` the first lying comparison.
	Liar { kind: u8, from: u64 },
}

impl Mode {
	/// The order is decided while the call is under way.
	pub fn adaptive(self) -> bool {
		matches!(self, Mode::Adv { .. } | Mode::Guide { .. })
	}
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EvKind {
	Cmp,
	Eq,
	Key,
	Pred,
}

#[derive(Clone, Copy, Debug)]
pub enum Ev {
	Beg { t: u32, k: EvKind, a: i32, b: i32 },
	End { t: u32, k: EvKind, a: i32, b: i32, r: i8 },
	Pan { t: u32 },
	/// a call on another array from within the callback: index into the nested calls
	Nest { i: u32 },
}

pub struct Adversary {
	val: Vec<u32>,
	solid: u32,
	cand: u32,
	ngas: u64,
	freeze: u64,
	frozen: bool,
	flip: bool,
	dup: u8,
	rng: Rng,
}

/// Places of a bucket that are still free, or how the bucket has been divided.
struct Node {
	lo: u128,
	hi: u128,
	gap: u128,
	/// key of the divider, the two parts, chances (of 64) to be less and to be equal
	cut: Option<(u128, u32, u32, u8, u8)>,
}
#[derive(Clone, Copy)]
enum Where {
	Key(u128),
	In(u32),
}
pub struct Guided {
	nodes: Vec<Node>,
	at: Vec<Where>,
	seen: Vec<u8>,
	pass: bool,
	cand: u32,
	script: u64,
	len: u8,
	step: u8,
	freeze: u64,
	frozen: bool,
	rng: Rng,
}
impl Guided {
	fn new(n: usize, script: u64, len: u8, freeze: u64, seed: u64) -> Self {
		let (lo, hi) = (0u128, 1 << 120);
		Guided {
			nodes: vec![Node { lo, hi, gap: (hi - lo) / (2 * n as u128 + 8), cut: None }],
			at: vec![Where::In(0); n],
			seen: vec![0; n],
			pass: false,
			cand: 0,
			script,
			len,
			step: 0,
			freeze,
			frozen: false,
			rng: Rng::new(seed ^ 0x6D1DE),
		}
	}
	/// Decide on which side of the divider of its bucket the element is.
	fn descend(&mut self, x: usize) {
		let Where::In(k) = self.at[x] else { return };
		let Some((key, l, r, pl, pe)) = self.nodes[k as usize].cut else { return };
		let d = self.rng.below(64) as u8;
		self.at[x] = if d < pl {
			Where::In(l)
		} else if d < pl + pe {
			Where::Key(key)
		} else {
			Where::In(r)
		};
	}
	fn span(&self, x: usize) -> (u128, u128) {
		match self.at[x] {
			Where::Key(k) => (k, k),
			Where::In(k) => (self.nodes[k as usize].lo, self.nodes[k as usize].hi),
		}
	}
	fn divided(&self, x: usize) -> bool {
		matches!(self.at[x], Where::In(k) if self.nodes[k as usize].cut.is_some())
	}
	fn cmp(&mut self, a: u32, b: u32) -> Ordering {
		let (a, b) = (a as usize, b as usize);
		if a == b {
			return Equal;
		}
		for x in [a, b] {
			self.seen[x] = self.seen[x].saturating_add(1);
			if self.seen[x] >= 18 {
				self.pass = true;
			}
		}
		loop {
			let (x, y) = (self.span(a), self.span(b));
			if x.0 == x.1 && y.0 == y.1 {
				return x.0.cmp(&y.0);
			}
			// buckets are open: what is in one is strictly between its ends
			if x.1 <= y.0 {
				return Less;
			}
			if y.1 <= x.0 {
				return Greater;
			}
			// the larger bucket is the one to decide about
			let big = if x.1 - x.0 >= y.1 - y.0 { a } else { b };
			if self.divided(big) {
				self.descend(big);
				continue;
			}
			// both in the same bucket, which is not divided yet
			self.divide(a, b);
		}
	}
	fn divide(&mut self, a: usize, b: usize) {
		let Where::In(k) = self.at[a] else { unreachable!() };
		if self.freeze == 0 && !self.frozen {
			self.freeze_all();
			return;
		}
		self.freeze = self.freeze.saturating_sub(1);
		if self.pass {
			// a pass over a segment is over
			self.pass = false;
			self.seen.iter_mut().for_each(|s| *s = 0);
			self.step = (self.step + 1) % self.len.max(1);
		}
		let x = if a as u32 == self.cand { a } else { b };
		self.cand = if x == a { b } else { a } as u32;
		let nd = &mut self.nodes[k as usize];
		let (lo, hi, gap) = (nd.lo, nd.hi, nd.gap);
		if gap == 0 || hi - lo < 8 * gap {
			self.freeze_all();
			return;
		}
		let (pl, pe) = match (self.script >> (3 * self.step)) & 7 {
			0 => {
				nd.lo += gap;
				self.at[x] = Where::Key(lo + gap);
				return;
			}
			1 => {
				nd.hi -= gap;
				self.at[x] = Where::Key(hi - gap);
				return;
			}
			2 => (32, 0),
			3 => (0, 32),
			4 => (7, 0),
			5 => (58, 0),
			6 => (20, 20),
			_ => (0, 62),
		};
		let m = lo + (hi - lo) / 2;
		let g = gap / 4;
		let l = self.nodes.len() as u32;
		self.nodes[k as usize].cut = Some((m, l, l + 1, pl, pe));
		self.nodes.push(Node { lo, hi: m, gap: g, cut: None });
		self.nodes.push(Node { lo: m, hi, gap: g, cut: None });
		self.at[x] = Where::Key(m);
	}
	fn freeze_all(&mut self) {
		self.frozen = true;
		for x in 0..self.at.len() {
			while self.divided(x) {
				self.descend(x);
			}
			let (lo, hi) = self.span(x);
			if lo < hi {
				self.at[x] = Where::Key(lo + 1 + (hi - lo - 2) / 512 * self.rng.below(512) as u128);
			}
		}
	}
	/// What is on ranks once everything is decided.
	fn ranks(&self) -> Vec<u32> {
		let keys: Vec<u128> = (0..self.at.len()).map(|x| self.span(x).0).collect();
		let mut s = keys.clone();
		s.sort_unstable();
		s.dedup();
		keys.iter().map(|k| s.binary_search(k).unwrap() as u32).collect()
	}
}

pub struct Ctx {
	pub n_back: u32,
	pub ranks: Vec<AtomicU32>,
	/// Whether the id belongs to the viewed elements.
	pub viewed: Vec<bool>,
	pub mode: Mode,
	pub seed: u64,
	pub calls: AtomicU64,
	pub ncmp: AtomicU64,
	pub nkcmp: AtomicU64,
	pub nkey: AtomicU64,
	pub keyed: Vec<AtomicU8>,
	pub cap: u64,
	pub panic_at: u64,
	pub panic_len: u64,
	pub ext: u64,
	pub raised: AtomicU64,
	pub diverged: AtomicBool,
	pub foreign: AtomicU64,
	pub stale: AtomicU64,
	pub excl: bool,
	pub busy: Vec<AtomicU32>,
	pub excl_bad: AtomicU64,
	pub excl_pair: AtomicU64,
	pub perturb: u32,
	pub touch: bool,
	pub cnt: Vec<AtomicU32>,
	pub drops: Vec<AtomicU32>,
	pub bad_drops: AtomicU64,
	pub in_op: AtomicBool,
	pub op_drops: AtomicU64,
	/// keys made and not yet dropped: how many, and the sum of their ranks
	pub keys: AtomicI64,
	pub key_sum: AtomicI64,
	pub log_on: bool,
	pub log: Mutex<Vec<Ev>>,
	pub adv: Mutex<Option<Adversary>>,
	pub guide: Mutex<Option<Guided>>,
	pub stack_lo: AtomicU64,
	pub stack_hi: AtomicU64,
	pub eq_kind: u8,
	pub target: u32,
	/// calls made from within callbacks
	pub nest: Option<crate::case::Nest>,
	pub nested: Mutex<Vec<(crate::case::Case, crate::exec::Outcome)>>,
	/// comparisons through the bounds-free fast log: (a, b, r)
	pub fast_on: bool,
	pub fast: UnsafeCell<Vec<(u32, u32, i8)>>,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());
static NEXT_T: AtomicU32 = AtomicU32::new(1);
thread_local! {
	static TID: Cell<u32> = const { Cell::new(0) };
	/// Inside a callback, or on a thread with a call of its own: environment of this thread alone.
	static LOCAL: Cell<bool> = const { Cell::new(false) };
	static MINE: Cell<*mut Ctx> = const { Cell::new(std::ptr::null_mut()) };
}
/// Calls made by `f` have an environment of their own, seen by this thread only (`all`: and by the pools).
pub fn local<R>(all: bool, f: impl FnOnce() -> R) -> R {
	let (l, m) = (LOCAL.get(), MINE.get());
	let g = CTX.load(SeqCst);
	LOCAL.set(true);
	SHARE.with(|s| s.set(all));
	MINE.set(std::ptr::null_mut());
	let r = f();
	if all {
		CTX.store(g, SeqCst);
	}
	LOCAL.set(l);
	MINE.set(m);
	r
}
thread_local! { static SHARE: Cell<bool> = const { Cell::new(false) }; }

pub fn tid() -> u32 {
	TID.with(|t| {
		if t.get() == 0 {
			t.set(NEXT_T.fetch_add(1, Relaxed));
		}
		t.get()
	})
}

pub fn install(c: &mut Ctx) {
	if LOCAL.get() {
		MINE.set(c as *mut Ctx);
		if SHARE.get() {
			CTX.store(c as *mut Ctx, SeqCst);
		}
	} else {
		CTX.store(c as *mut Ctx, SeqCst);
	}
}
pub fn uninstall() {
	if LOCAL.get() {
		MINE.set(std::ptr::null_mut());
		if SHARE.get() {
			CTX.store(std::ptr::null_mut(), SeqCst);
		}
	} else {
		CTX.store(std::ptr::null_mut(), SeqCst);
	}
}
#[inline]
fn current() -> *mut Ctx {
	if LOCAL.try_with(|l| l.get()).unwrap_or(false) { MINE.get() } else { CTX.load(Relaxed) }
}
#[inline]
pub fn ctx() -> &'static Ctx {
	let p = current();
	assert!(!p.is_null());
	unsafe { &*p }
}
pub fn try_ctx() -> Option<&'static Ctx> {
	let p = current();
	if p.is_null() { None } else { Some(unsafe { &*p }) }
}

// ---------------------------------------------------------------- random numbers (splitmix64)
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
		r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
		mix(self.0)
	}
	pub fn below(&mut self, n: usize) -> usize {
		if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as usize }
	}
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}
	pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
		xs[self.below(xs.len())]
	}
	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			let j = self.below(i + 1);
			xs.swap(i, j);
		}
	}
}
pub fn mix(mut z: u64) -> u64 {
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

impl Adversary {
	fn cmp(&mut self, a: u32, b: u32) -> Ordering {
		let (a, b) = (a as usize, b as usize);
		if a == b {
			return Equal;
		}
		if self.val[a] == GAS && self.val[b] == GAS {
			if self.ngas >= self.freeze && !self.frozen {
				crate::alloc::untracked(|| self.freeze_all());
			} else {
				self.ngas += 1;
				let x = if a as u32 == self.cand { a } else { b };
				self.val[x] = self.solid;
				self.solid += 1;
			}
		}
		if self.val[a] == GAS {
			self.cand = a as u32;
		} else if self.val[b] == GAS {
			self.cand = b as u32;
		}
		let o = self.val[a].cmp(&self.val[b]);
		if self.flip { o.reverse() } else { o }
	}
	fn freeze_all(&mut self) {
		self.frozen = true;
		let left = self.val.iter().filter(|v| **v == GAS).count();
		let range = match self.dup {
			0 => 0,
			1 => left / 4 + 1,
			2 => 2,
			3 => 1,
			_ => 4 * left,
		};
		let mut k = 0;
		let mut perm: Vec<u32> = (0..left as u32).collect();
		self.rng.shuffle(&mut perm);
		for v in self.val.iter_mut() {
			if *v == GAS {
				let r = if range == 0 { perm[k] } else { self.rng.below(range) as u32 };
				*v = self.solid + r;
				k += 1;
			}
		}
	}
}

#[derive(Clone, Copy)]
pub struct Setup {
	pub mode: Mode,
	pub seed: u64,
	pub panic_at: u64,
	pub panic_len: u64,
	pub ext: u64,
	pub cap: u64,
	pub excl: bool,
	pub perturb: u32,
	pub touch: bool,
	pub log: bool,
	pub fast: bool,
	pub eq_kind: u8,
}

impl Ctx {
	/// `ranks[id]` for every id of the backing memory; `viewed[id]` whether the operation may show it.
	pub fn new(ranks: Vec<u32>, viewed: Vec<bool>, s: Setup) -> Self {
		let n = ranks.len();
		let adv = if let Mode::Adv { freeze, flip, dup } = s.mode {
			Some(Adversary {
				val: vec![GAS; n],
				solid: 0,
				cand: 0,
				ngas: 0,
				freeze,
				frozen: false,
				flip,
				dup,
				rng: Rng::new(s.seed ^ 0xADF),
			})
		} else {
			None
		};
		let guide = match s.mode {
			Mode::Guide { script, len, freeze } => Some(Guided::new(n, script, len, freeze, s.seed)),
			_ => None,
		};
		let zeros = |n: usize| (0..n).map(|_| AtomicU32::new(0)).collect::<Vec<_>>();
		Ctx {
			n_back: n as u32,
			ranks: ranks.into_iter().map(AtomicU32::new).collect(),
			viewed,
			mode: s.mode,
			seed: s.seed,
			calls: AtomicU64::new(0),
			ncmp: AtomicU64::new(0),
			nkcmp: AtomicU64::new(0),
			nkey: AtomicU64::new(0),
			keyed: (0..n).map(|_| AtomicU8::new(0)).collect(),
			cap: s.cap,
			panic_at: s.panic_at,
			panic_len: s.panic_len,
			ext: s.ext,
			raised: AtomicU64::new(0),
			diverged: AtomicBool::new(false),
			foreign: AtomicU64::new(0),
			stale: AtomicU64::new(0),
			excl: s.excl,
			busy: zeros(n),
			excl_bad: AtomicU64::new(0),
			excl_pair: AtomicU64::new(0),
			perturb: s.perturb,
			touch: s.touch,
			cnt: zeros(n),
			drops: zeros(n),
			bad_drops: AtomicU64::new(0),
			in_op: AtomicBool::new(false),
			op_drops: AtomicU64::new(0),
			keys: AtomicI64::new(0),
			key_sum: AtomicI64::new(0),
			log_on: s.log,
			log: Mutex::new(Vec::new()),
			adv: Mutex::new(adv),
			guide: Mutex::new(guide),
			stack_lo: AtomicU64::new(u64::MAX),
			stack_hi: AtomicU64::new(0),
			eq_kind: s.eq_kind,
			target: 0,
			nest: None,
			nested: Mutex::new(vec![]),
			fast_on: s.fast,
			fast: UnsafeCell::new(Vec::new()),
		}
	}
	/// Final ranks: an adversary's answers are consistent with the ranks it froze.
	pub fn settle(&mut self) {
		let mut g = self.adv.lock().unwrap();
		if let Some(a) = g.as_mut() {
			if !a.frozen {
				a.freeze_all();
			}
			let m = *a.val.iter().max().unwrap_or(&0);
			for (r, v) in self.ranks.iter().zip(&a.val) {
				r.store(if a.flip { m - *v } else { *v }, Relaxed);
			}
		}
		let mut g = self.guide.lock().unwrap();
		if let Some(a) = g.as_mut() {
			if !a.frozen {
				a.freeze_all();
			}
			for (r, v) in self.ranks.iter().zip(a.ranks()) {
				r.store(v, Relaxed);
			}
		}
	}
	fn push(&self, e: Ev) {
		if self.log_on {
			self.log.lock().unwrap().push(e);
		}
	}
	fn stack(&self) {
		let x = 0u8;
		let p = &x as *const u8 as u64;
		if p < self.stack_lo.load(Relaxed) {
			self.stack_lo.store(p, Relaxed);
		}
		if p > self.stack_hi.load(Relaxed) {
			self.stack_hi.store(p, Relaxed);
		}
	}
	/// Common entry of all callbacks: counting, perturbation, injected panics. Returns the callback number.
	fn enter(&self) -> u64 {
		let c = self.calls.fetch_add(1, Relaxed);
		if c >= self.cap {
			self.diverged.store(true, SeqCst);
			std::panic::panic_any(Diverged);
		}
		if self.perturb != 0 {
			let h = mix(c ^ (self.perturb as u64) << 32);
			match h & 63 {
				0 => std::thread::yield_now(),
				1..=6 => {
					for _ in 0..(h >> 8) & 255 {
						std::hint::spin_loop();
					}
				}
				_ => {}
			}
		}
		c
	}
	/// The callback uses the library itself, on an array of its own.
	fn nest(&self, c: u64) {
		let Some(x) = &self.nest else { return };
		if c % x.every != x.every - 1 || c / x.every >= x.max {
			return;
		}
		crate::alloc::untracked(|| {
			let o = local(x.case.op.parallel(), || crate::exec::exec(&x.case));
			let mut g = self.nested.lock().unwrap();
			g.push((x.case.clone(), o));
			let i = g.len() as u32 - 1;
			self.push(Ev::Nest { i });
		});
	}
	fn maybe_raise(&self, c: u64) {
		if c >= self.panic_at && c - self.panic_at < self.panic_len {
			self.raised.fetch_add(1, SeqCst);
			self.push(Ev::Pan { t: tid() });
			std::panic::panic_any(Injected);
		}
	}
	/// The collection of a selection of many takes its `k`th element.
	pub fn extend(&self, k: u64) {
		if k == self.ext {
			self.raised.fetch_add(1, SeqCst);
			self.push(Ev::Pan { t: tid() });
			std::panic::panic_any(Injected);
		}
	}
	fn valid(&self, id: i32) -> bool {
		if id < 0 || id >= self.n_back as i32 || !self.viewed[id as usize] {
			self.foreign.fetch_add(1, Relaxed);
			false
		} else {
			true
		}
	}
	fn acquire(&self, id: i32, t: u32) -> bool {
		match self.busy[id as usize].compare_exchange(0, t, SeqCst, SeqCst) {
			Ok(_) => true,
			Err(o) => {
				if o != t {
					self.excl_bad.fetch_add(1, SeqCst);
					self.excl_pair.store((o as u64) << 32 | id as u64, SeqCst);
				}
				false
			}
		}
	}
	fn release(&self, id: i32) {
		self.busy[id as usize].store(0, SeqCst);
	}
	fn liar(&self, kind: u8, c: u64, a: i32, b: i32) -> Ordering {
		let h = mix(self.seed ^ c.wrapping_mul(0x9E37_79B9));
		let rnd = |p: u64| if h % 100 < p { Less } else { Greater };
		let hab = mix(self.seed ^ ((a as u64) << 32 | b as u64));
		match kind {
			0 => rnd(50),
			1 => Less,
			2 => Greater,
			3 => Equal,
			4 => {
				// rock-paper-scissors
				match ((a as i64 - b as i64).rem_euclid(3)) as u8 {
					0 => Equal,
					1 => Less,
					_ => Greater,
				}
			}
			5 => rnd(3),
			6 => rnd(97),
			7 => {
				// Non-transitive but repeatable random relation.
				match hab % 3 {
					0 => Less,
					1 => Equal,
					_ => Greater,
				}
			}
			8 => {
				if (c / 64) % 2 == 0 {
					self.rank(a).cmp(&self.rank(b))
				} else {
					self.rank(b).cmp(&self.rank(a))
				}
			}
			9 => {
				// mostly honest
				if h % 37 == 0 { rnd(50) } else { self.rank(a).cmp(&self.rank(b)) }
			}
			10 => {
				// long streaks of one answer
				let w = 1 + (self.seed % 400);
				if mix(self.seed ^ (c / w)) & 1 == 0 { Less } else { Greater }
			}
			11 => {
				// a is special: always less / never less than everything, depending on parity
				if hab & 1 == 0 { Less } else { Greater }
			}
			12 => {
				if c & 1 == 0 { Less } else { Greater }
			}
			13 => {
				// honest about low ranks only
				if self.rank(a) % 4 == 0 { Less } else { self.rank(a).cmp(&self.rank(b)) }
			}
			_ => {
				// less-or-equal instead of less
				if self.rank(a) <= self.rank(b) { Less } else { Greater }
			}
		}
	}
	#[inline]
	pub fn rank(&self, id: i32) -> u32 {
		self.ranks[id as usize].load(Relaxed)
	}
	fn answer(&self, c: u64, a: i32, b: i32) -> Ordering {
		match self.mode {
			Mode::Cons => self.rank(a).cmp(&self.rank(b)),
			Mode::Adv { .. } => self.adv.lock().unwrap().as_mut().unwrap().cmp(a as u32, b as u32),
			Mode::Guide { .. } => {
				crate::alloc::untracked(|| self.guide.lock().unwrap().as_mut().unwrap().cmp(a as u32, b as u32))
			}
			Mode::Liar { kind, from } => {
				if c >= from {
					self.liar(kind, c, a, b)
				} else {
					self.rank(a).cmp(&self.rank(b))
				}
			}
		}
	}
	pub fn cmp<T: crate::elem::Elem>(&self, x: &T, y: &T) -> Ordering {
		let (a, b) = (x.id(), y.id());
		let c = self.enter();
		self.ncmp.fetch_add(1, Relaxed);
		let t = if self.log_on || self.excl { tid() } else { 0 };
		self.stack();
		let va = self.valid(a);
		let vb = self.valid(b);
		if !va || !vb {
			self.push(Ev::Beg { t, k: EvKind::Cmp, a, b });
			self.push(Ev::End { t, k: EvKind::Cmp, a, b, r: 0 });
			return if self.seed & 1 == 0 { Less } else { Greater };
		}
		let (mut ha, mut hb) = (false, false);
		if self.excl {
			ha = self.acquire(a, t);
			hb = self.acquire(b, t);
		}
		self.push(Ev::Beg { t, k: EvKind::Cmp, a, b });
		self.nest(c);
		if self.touch {
			self.touch1(x, a);
			self.touch1(y, b);
		}
		if self.excl && self.perturb != 0 && mix(c ^ 77) % 50 == 0 {
			for _ in 0..200 {
				std::hint::spin_loop();
			}
			if mix(c ^ 78) % 8 == 0 {
				std::thread::yield_now();
			}
		}
		if c >= self.panic_at && c - self.panic_at < self.panic_len {
			if ha {
				self.release(a);
			}
			if hb {
				self.release(b);
			}
			self.maybe_raise(c);
		}
		let r = self.answer(c, a, b);
		if self.fast_on {
			unsafe { (*self.fast.get()).push((a as u32, b as u32, r as i8)) };
		}
		self.push(Ev::End { t, k: EvKind::Cmp, a, b, r: r as i8 });
		if ha {
			self.release(a);
		}
		if hb {
			self.release(b);
		}
		r
	}
	fn touch1<T: crate::elem::Elem>(&self, x: &T, id: i32) {
		let want = self.cnt[id as usize].load(Relaxed);
		if let Some(have) = x.count() {
			if have != want {
				self.stale.fetch_add(1, Relaxed);
			}
			x.bump();
			self.cnt[id as usize].store(want + 1, Relaxed);
		}
	}
	/// Partial order used by the order test: `None` for incomparable.
	pub fn pcmp<T: crate::elem::Elem>(&self, x: &T, y: &T) -> Option<Ordering> {
		let (a, b) = (x.id(), y.id());
		if matches!(self.mode, Mode::Cons) && a >= 0 && b >= 0 && a < self.n_back as i32 && b < self.n_back as i32 {
			if self.rank(a) == NAN || self.rank(b) == NAN {
				let _ = self.cmp(x, y);
				return None;
			}
		}
		Some(self.cmp(x, y))
	}
	/// Equality: ranks equal, or an arbitrary repeatable relation.
	pub fn eq_ids(&self, c: u64, a: i32, b: i32) -> bool {
		match self.eq_kind {
			0 => self.rank(a) == self.rank(b) && self.rank(a) != NAN,
			1 => mix(self.seed ^ ((a as u64) << 32 | b as u64)) % 2 == 0,
			2 => mix(self.seed ^ c) % 2 == 0,
			3 => self.rank(a).abs_diff(self.rank(b)) <= 1,
			4 => self.rank(a) <= self.rank(b),
			5 => mix(self.seed ^ c) % 16 == 0,
			6 => mix(self.seed ^ c) % 16 != 0,
			_ => self.rank(b) <= self.rank(a),
		}
	}
	pub fn eq<T: crate::elem::Elem>(&self, x: &T, y: &T) -> bool {
		let (a, b) = (x.id(), y.id());
		let c = self.enter();
		self.ncmp.fetch_add(1, Relaxed);
		let t = if self.log_on || self.excl { tid() } else { 0 };
		let va = self.valid(a);
		// The target of a membership test is not an element of the array: id -2.
		let vb = b == -2 || self.valid(b);
		self.push(Ev::Beg { t, k: EvKind::Eq, a, b });
		if !va || !vb {
			self.push(Ev::End { t, k: EvKind::Eq, a, b, r: 0 });
			return false;
		}
		self.nest(c);
		if self.touch && b >= 0 {
			self.touch1(x, a);
			self.touch1(y, b);
		}
		self.maybe_raise(c);
		let r = if b == -2 {
			self.rank(a) == self.target && self.rank(a) != NAN
		} else {
			self.eq_ids(c, a, b)
		};
		if self.fast_on {
			unsafe { (*self.fast.get()).push((a as u32, b as u32, r as i8)) };
		}
		self.push(Ev::End { t, k: EvKind::Eq, a, b, r: r as i8 });
		r
	}
	pub fn key<T: crate::elem::Elem>(&self, x: &T) -> u32 {
		let a = x.id();
		let c = self.enter();
		self.nkey.fetch_add(1, Relaxed);
		let t = if self.log_on || self.excl { tid() } else { 0 };
		self.stack();
		if !self.valid(a) {
			self.push(Ev::Beg { t, k: EvKind::Key, a, b: a });
			self.push(Ev::End { t, k: EvKind::Key, a, b: a, r: 0 });
			return 0;
		}
		let k = &self.keyed[a as usize];
		if k.load(Relaxed) < 255 {
			k.fetch_add(1, Relaxed);
		}
		let mut ha = false;
		if self.excl {
			ha = self.acquire(a, t);
		}
		self.push(Ev::Beg { t, k: EvKind::Key, a, b: a });
		self.nest(c);
		if self.touch {
			self.touch1(x, a);
		}
		if self.excl && self.perturb != 0 && mix(c ^ 79) % 50 == 0 {
			for _ in 0..200 {
				std::hint::spin_loop();
			}
		}
		if c >= self.panic_at && c - self.panic_at < self.panic_len {
			if ha {
				self.release(a);
			}
			self.maybe_raise(c);
		}
		let r = match self.mode {
			Mode::Liar { kind, from } if c >= from => match kind {
				1 => 0,
				2 => c as u32,
				3 => u32::MAX - c as u32,
				_ => (mix(self.seed ^ c) % 7) as u32,
			},
			_ => self.rank(a),
		};
		self.push(Ev::End { t, k: EvKind::Key, a, b: a, r: 0 });
		if ha {
			self.release(a);
		}
		r
	}
	/// Comparison of keys (the user's `Ord` on the key type).
	pub fn kcmp(&self, a: u32, b: u32) -> Ordering {
		let c = self.enter();
		self.nkcmp.fetch_add(1, Relaxed);
		self.stack();
		self.maybe_raise(c);
		a.cmp(&b)
	}
	/// Search callbacks: one element against the target (kind as in the operation).
	pub fn probe<T: crate::elem::Elem>(&self, x: &T, target: i64) -> Ordering {
		let a = x.id();
		let c = self.enter();
		self.ncmp.fetch_add(1, Relaxed);
		let t = if self.log_on { tid() } else { 0 };
		if !self.valid(a) {
			self.push(Ev::Beg { t, k: EvKind::Pred, a, b: a });
			self.push(Ev::End { t, k: EvKind::Pred, a, b: a, r: 0 });
			return Less;
		}
		self.push(Ev::Beg { t, k: EvKind::Pred, a, b: a });
		self.nest(c);
		if self.touch {
			self.touch1(x, a);
		}
		self.maybe_raise(c);
		let r = match self.mode {
			Mode::Liar { kind, from } if c >= from => self.liar(kind, c, a, (a + 1) % self.n_back as i32),
			_ => (self.rank(a) as i64).cmp(&target),
		};
		self.push(Ev::End { t, k: EvKind::Pred, a, b: a, r: r as i8 });
		r
	}
	pub fn key_made(&self, r: u32) {
		self.keys.fetch_add(1, Relaxed);
		self.key_sum.fetch_add(r as i64, Relaxed);
	}
	pub fn key_dropped(&self, r: u32) {
		self.keys.fetch_sub(1, Relaxed);
		self.key_sum.fetch_sub(r as i64, Relaxed);
	}
	pub fn dropped(&self, id: i32) {
		if id >= 0 && (id as u32) < self.n_back {
			self.drops[id as usize].fetch_add(1, SeqCst);
		} else {
			self.bad_drops.fetch_add(1, SeqCst);
		}
		if self.in_op.load(SeqCst) {
			self.op_drops.fetch_add(1, SeqCst);
		}
	}
}
