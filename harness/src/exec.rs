//! Execute a case on the real code and record everything observable.
use crate::alloc;
use crate::case::*;
use crate::ctx::{self, Ctx, Diverged, Ev, Injected, NAN, Setup};
use crate::elem::*;
use ndarray::{ArcArray1, Array1, Array2, ArrayBase, ArrayView1, ArrayViewMut1, CowArray, Data, DataMut, Ix1, RawData, ShapeBuilder, s};
use ndarray_slice::Slice1Ext;
use std::cmp::Ordering::{self, Greater, Less};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::{Relaxed, SeqCst};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
	None,
	Bool(bool),
	Bs(bool, usize),
	Pp(usize),
	Sel { l: Desc, m: i64, r: Desc },
	Many { got: Vec<(i64, i64)>, prior_ok: bool },
	Dedup { a: Desc, b: Desc },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
	Returned,
	/// an injected panic reached the caller
	Injected,
	/// a panic of the operation itself reached the caller
	Own,
	/// the cap on callback invocations was reached
	Diverged,
}

#[derive(Clone, Debug)]
pub struct Outcome {
	pub status: Status,
	pub msg: String,
	pub post: Vec<i32>,
	/// what the other owner of shared storage sees
	pub other: Option<Vec<i32>>,
	pub res: Res,
	pub calls: u64,
	pub ncmp: u64,
	pub nkcmp: u64,
	pub nkey: u64,
	pub kmax: u8,
	pub foreign: u64,
	pub stale: u64,
	pub lost: u64,
	pub excl_bad: u64,
	pub raised: u64,
	pub alloc: alloc::Stat,
	pub op_drops: u64,
	pub drops_bad: u64,
	/// keys left over, or dropped more than once
	pub keys: i64,
	pub stack: u64,
	pub log: Vec<Ev>,
	pub fast: Vec<(u32, u32, i8)>,
	/// ranks the answers were consistent with
	pub ranks: Vec<u32>,
	/// calls made from within callbacks
	pub nested: Vec<(Case, Outcome)>,
}

// ---------------------------------------------------------------- raw results (addresses)
#[derive(Clone, Copy)]
struct RawDesc {
	addr: usize,
	st: isize,
	n: usize,
}
enum Raw {
	None,
	Bool(bool),
	Bs(Result<usize, usize>),
	Pp(usize),
	Sel(RawDesc, usize, RawDesc),
	Many(Vec<(i64, usize)>),
	Dedup(RawDesc, RawDesc),
}
fn rawd<T, S: RawData<Elem = T>>(v: &ArrayBase<S, Ix1>) -> RawDesc {
	RawDesc { addr: v.as_ptr() as usize, st: v.strides()[0], n: v.len() }
}
fn to_pos<T>(addr: usize, base: usize) -> i64 {
	let sz = size_of::<T>() as i64;
	if sz == 0 {
		return 0;
	}
	let d = addr as i64 - base as i64;
	if d % sz != 0 { -999_999 } else { d / sz }
}
fn map_desc<T>(d: RawDesc, base: usize) -> Desc {
	if d.n == 0 {
		Desc { off: 0, st: 1, n: 0 }
	} else {
		Desc { off: to_pos::<T>(d.addr, base), st: if d.n == 1 { 1 } else { d.st as i64 }, n: d.n as i64 }
	}
}

#[cfg(feature = "par")]
mod pools {
	use std::sync::OnceLock;
	static POOLS: [OnceLock<rayon::ThreadPool>; 9] = [const { OnceLock::new() }; 9];
	pub fn run<R: Send>(k: usize, f: impl FnOnce() -> R + Send) -> R {
		if k == 0 {
			return f();
		}
		let k = k.min(8);
		POOLS[k]
			.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(k).build().unwrap())
			.install(f)
	}
	pub fn warm(k: usize) {
		run(k, || ());
	}
}

struct K8(u8);
struct K16(u16);
struct K64(u64);
struct K0;
macro_rules! keyw {
	($t:ident, $e:expr) => {
		impl PartialEq for $t {
			fn eq(&self, o: &Self) -> bool {
				self.cmp(o) == Ordering::Equal
			}
		}
		impl Eq for $t {}
		impl PartialOrd for $t {
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
				Some(self.cmp(o))
			}
		}
		impl Ord for $t {
			fn cmp(&self, o: &Self) -> Ordering {
				let f: fn(&Self) -> u32 = $e;
				ctx::ctx().kcmp(f(self), f(o))
			}
		}
		impl Drop for $t {
			fn drop(&mut self) {
				if let Some(c) = ctx::try_ctx() {
					let f: fn(&Self) -> u32 = $e;
					c.key_dropped(f(self));
				}
			}
		}
		impl $t {
			fn made(self) -> Self {
				let f: fn(&Self) -> u32 = $e;
				ctx::ctx().key_made(f(&self));
				self
			}
		}
	};
}
keyw!(K8, |x| x.0 as u32);
keyw!(K16, |x| x.0 as u32);
keyw!(K64, |x| x.0 as u32);
keyw!(K0, |_| 0);

fn ccmp<T: Elem>(a: &T, b: &T) -> Ordering {
	ctx::ctx().cmp(a, b)
}
fn ckey<T: Elem>(a: &T) -> Key<0> {
	Key::new(ctx::ctx().key(a))
}

/// Perform the operation. Windows of the allocator and the drop ledger are opened just around it.
fn open(track: i64, all: bool) {
	if track >= 0 {
		alloc::window_begin(track, all);
	}
	if let Some(c) = ctx::try_ctx() {
		c.in_op.store(true, SeqCst);
	}
}
fn close() {
	alloc::window_pause();
	if let Some(c) = ctx::try_ctx() {
		c.in_op.store(false, SeqCst);
	}
}

struct Out {
	raw: Option<Raw>,
	prior_ok: bool,
	payload: Option<Box<dyn std::any::Any + Send>>,
}

macro_rules! guarded {
	($case:expr, $body:expr) => {{
		let track = if $case.track { track_min($case) } else { -1 };
		let r = catch_unwind(AssertUnwindSafe(|| {
			open(track, $case.op.parallel());
			let x = $body;
			close();
			x
		}));
		close();
		r
	}};
}
pub fn track_min(case: &Case) -> i64 {
	(case.elem().size() as i64 * 8).max(4096)
}

fn done(r: Result<Raw, Box<dyn std::any::Any + Send>>) -> Out {
	match r {
		Ok(x) => Out { raw: Some(x), prior_ok: true, payload: None },
		Err(p) => Out { raw: None, prior_ok: true, payload: Some(p) },
	}
}

fn call_ro<T: Elem, S: Data<Elem = T>>(a: &ArrayBase<S, Ix1>, case: &Case) -> Out {
	let tgt = case.target;
	match (case.op, case.form) {
		(Op::IsSorted, Form::Nat) => done(guarded!(case, Raw::Bool(a.is_sorted()))),
		// any relation
		(Op::IsSorted, Form::By) if case.eq_kind != 0 => {
			done(guarded!(case, Raw::Bool(a.is_sorted_by(|x, y| ctx::ctx().eq(x, y)))))
		}
		(Op::IsSorted, Form::By) => done(guarded!(
			case,
			Raw::Bool(a.is_sorted_by(|x, y| match ctx::ctx().pcmp(x, y) {
				None => false,
				Some(o) => o != Greater,
			}))
		)),
		(Op::IsSorted, Form::Key) => done(guarded!(case, Raw::Bool(a.is_sorted_by_key(|x| ckey(x))))),
		(Op::Contains, _) => {
			// Not even equal to itself: asking for an element that is in the array.
			if tgt == ctx::NAN as i64 && case.ty != Ty::Z {
				let c = ctx::ctx();
				let unequal = |x: &&T| x.id() >= 0 && c.ranks[x.id() as usize].load(Relaxed) == ctx::NAN;
				if let Some(x) = a.iter().find(unequal) {
					return done(guarded!(case, Raw::Bool(a.contains(x))));
				}
			}
			let x = T::target();
			done(guarded!(case, Raw::Bool(a.contains(&x))))
		}
		(Op::Bs, Form::Nat) => {
			let x = T::target();
			done(guarded!(case, Raw::Bs(a.binary_search(&x))))
		}
		(Op::Bs, Form::By) => done(guarded!(case, Raw::Bs(a.binary_search_by(|x| ctx::ctx().probe(x, tgt))))),
		(Op::Bs, Form::Key) => {
			let k = std::mem::ManuallyDrop::new(Key::<0> { r: tgt as u32, pad: [] });
			done(guarded!(case, Raw::Bs(a.binary_search_by_key(&*k, |x| ckey(x)))))
		}
		(Op::Pp, _) => {
			done(guarded!(case, Raw::Pp(a.partition_point(|x| ctx::ctx().probe(x, tgt) == Less))))
		}
		_ => unreachable!(),
	}
}

fn idx_array(case: &Case) -> (Vec<usize>, usize, isize) {
	let m = case.idx.len();
	let st = case.idx_st;
	let k = st.unsigned_abs() as usize;
	let mut v = vec![usize::MAX / 2; (m * k).max(1) + k];
	for (i, x) in case.idx.iter().enumerate() {
		let p = if st > 0 { i * k } else { (m - 1 - i) * k };
		v[p] = *x;
	}
	(v, m, st as isize)
}

fn call_rw<T: Elem, S: DataMut<Elem = T> + Send>(a: &mut ArrayBase<S, Ix1>, case: &Case) -> Out
where
	S: Data<Elem = T>,
{
	let g = case;
	macro_rules! unit {
		($e:expr) => {
			done(guarded!(g, {
				$e;
				Raw::None
			}))
		};
	}
	#[cfg(feature = "par")]
	macro_rules! par {
		($e:expr) => {
			done(guarded!(g, {
				let v = a.view_mut();
				pools::run(g.pool, move || {
					let mut a = v;
					let a = &mut a;
					let f: &mut dyn FnMut(&mut ArrayViewMut1<'_, T>) = &mut $e;
					f(a);
				});
				Raw::None
			}))
		};
	}
	match (case.op, case.form) {
		#[cfg(feature = "f_alloc")]
		(Op::Sort, Form::Nat) => unit!(a.sort()),
		#[cfg(feature = "f_alloc")]
		(Op::Sort, Form::By) => unit!(a.sort_by(|x, y| ccmp(x, y))),
		#[cfg(feature = "f_alloc")]
		(Op::Sort, Form::Key) => unit!(a.sort_by_key(|x| ckey(x))),
		#[cfg(feature = "f_std")]
		(Op::Cached, _) => match case.kw {
			0 => unit!(a.sort_by_cached_key(|x| {
				ctx::ctx().key(x);
				K0.made()
			})),
			1 => unit!(a.sort_by_cached_key(|x| K8(ctx::ctx().key(x) as u8).made())),
			2 => unit!(a.sort_by_cached_key(|x| K16(ctx::ctx().key(x) as u16).made())),
			8 => unit!(a.sort_by_cached_key(|x| K64(ctx::ctx().key(x) as u64).made())),
			24 => unit!(a.sort_by_cached_key(|x| Key::<5>::new(ctx::ctx().key(x)))),
			48 => unit!(a.sort_by_cached_key(|x| Key::<11>::new(ctx::ctx().key(x)))),
			128 => unit!(a.sort_by_cached_key(|x| Key::<31>::new(ctx::ctx().key(x)))),
			_ => unit!(a.sort_by_cached_key(|x| ckey(x))),
		},
		(Op::Unst, Form::Nat) => unit!(a.sort_unstable()),
		(Op::Unst, Form::By) => unit!(a.sort_unstable_by(|x, y| ccmp(x, y))),
		(Op::Unst, Form::Key) => unit!(a.sort_unstable_by_key(|x| ckey(x))),
		#[cfg(feature = "par")]
		(Op::PSort, Form::Nat) => par!(|a| a.par_sort()),
		#[cfg(feature = "par")]
		(Op::PSort, Form::By) => par!(|a| a.par_sort_by(|x, y| ccmp(x, y))),
		#[cfg(feature = "par")]
		(Op::PSort, Form::Key) => par!(|a| a.par_sort_by_key(|x| ckey(x))),
		#[cfg(feature = "par")]
		(Op::PUnst, Form::Nat) => par!(|a| a.par_sort_unstable()),
		#[cfg(feature = "par")]
		(Op::PUnst, Form::By) => par!(|a| a.par_sort_unstable_by(|x, y| ccmp(x, y))),
		#[cfg(feature = "par")]
		(Op::PUnst, Form::Key) => par!(|a| a.par_sort_unstable_by_key(|x| ckey(x))),
		(Op::Sel, f) => done(guarded!(g, {
			let (l, m, r) = match f {
				Form::Nat => a.select_nth_unstable(g.k),
				Form::By => a.select_nth_unstable_by(g.k, |x, y| ccmp(x, y)),
				Form::Key => a.select_nth_unstable_by_key(g.k, |x| ckey(x)),
			};
			Raw::Sel(rawd(&l), m as *mut T as usize, rawd(&r))
		})),
		(Op::Many, f) => {
			let (iv, m, ist) = idx_array(case);
			let mut iv = Array1::from_vec(iv);
			let ia = idx_view(&mut iv, m, ist);
			let mut dummy: Vec<T> = (0..case.prior).map(|_| T::target()).collect();
			let base = dummy.as_ptr() as usize;
			let mut coll = Coll { v: Vec::with_capacity(case.prior + case.spare), k: 0, picky: case.ext != u64::MAX };
			for (i, d) in dummy.iter_mut().enumerate() {
				coll.v.push((usize::MAX - i, d));
			}
			let r = guarded!(g, {
				let a = { a };
				match f {
					Form::Nat => a.select_many_nth_unstable(&ia, &mut coll),
					Form::By => a.select_many_nth_unstable_by(&ia, &mut coll, |x, y| ccmp(x, y)),
					Form::Key => a.select_many_nth_unstable_by_key(&ia, &mut coll, |x| ckey(x)),
				}
				Raw::None
			});
			let all: Vec<(i64, usize)> = coll.v.iter_mut().map(|(i, p)| (*i as i64, *p as *mut T as usize)).collect();
			drop(coll);
			let prior_ok = all.len() >= case.prior
				&& (0..case.prior).all(|i| all[i].0 == (usize::MAX - i) as i64 && all[i].1 == base + i * size_of::<T>());
			let rest = all.into_iter().skip(case.prior).collect();
			match r {
				Ok(_) => Out { raw: Some(Raw::Many(rest)), prior_ok, payload: None },
				Err(p) => Out { raw: None, prior_ok, payload: Some(p) },
			}
		}
		#[cfg(feature = "par")]
		(Op::PMany, f) => {
			let (iv, m, ist) = idx_array(case);
			let mut iv = Array1::from_vec(iv);
			let ia = idx_view(&mut iv, m, ist);
			let mut dummy: Vec<T> = (0..case.prior).map(|_| T::target()).collect();
			let base = dummy.as_ptr() as usize;
			let mut coll: Vec<&mut T> = Vec::with_capacity(case.prior + case.spare);
			for d in dummy.iter_mut() {
				coll.push(d);
			}
			let r = guarded!(g, {
				let c = &mut coll;
				let iv = ia.view();
				pools::run(g.pool, move || match f {
					Form::Nat => a.par_select_many_nth_unstable(&iv, c),
					Form::By => a.par_select_many_nth_unstable_by(&iv, c, |x, y| ccmp(x, y)),
					Form::Key => a.par_select_many_nth_unstable_by_key(&iv, c, |x| ckey(x)),
				});
				Raw::None
			});
			let all: Vec<(i64, usize)> =
				coll.iter_mut().map(|p| unsafe { (-1i64, std::ptr::read(p as *mut &mut T as *mut usize)) }).collect();
			drop(coll);
			let prior_ok =
				all.len() >= case.prior && (0..case.prior).all(|i| all[i].1 == base + i * size_of::<T>());
			let rest = all.into_iter().skip(case.prior).collect();
			match r {
				Ok(_) => Out { raw: Some(Raw::Many(rest)), prior_ok, payload: None },
				Err(p) => Out { raw: None, prior_ok, payload: Some(p) },
			}
		}
		(Op::Dedup, f) => done(guarded!(g, {
			let (x, y) = match f {
				Form::Nat => a.partition_dedup(),
				Form::By => a.partition_dedup_by(|x, y| ctx::ctx().eq::<T>(x, y)),
				Form::Key => a.partition_dedup_by_key(|x| ckey(x)),
			};
			Raw::Dedup(rawd(&x), rawd(&y))
		})),
		(Op::Rev, _) => unit!(a.reverse()),
		_ => call_ro(a, case),
	}
}

// The parallel cached-key sort needs elements that can be shared between threads.
#[cfg(feature = "par")]
fn call_pcached<T: Elem + Sync, S: DataMut<Elem = T> + Send>(a: &mut ArrayBase<S, Ix1>, case: &Case) -> Out {
	let v = a.view_mut();
	macro_rules! go {
		($k:expr) => {
			done(guarded!(case, {
				pools::run(case.pool, move || {
					let mut v = v;
					v.par_sort_by_cached_key($k)
				});
				Raw::None
			}))
		};
	}
	match case.kw {
		0 => go!(|x| {
			ctx::ctx().key(x);
			K0.made()
		}),
		1 => go!(|x| K8(ctx::ctx().key(x) as u8).made()),
		2 => go!(|x| K16(ctx::ctx().key(x) as u16).made()),
		8 => go!(|x| K64(ctx::ctx().key(x) as u64).made()),
		24 => go!(|x| Key::<5>::new(ctx::ctx().key(x))),
		48 => go!(|x| Key::<11>::new(ctx::ctx().key(x))),
		128 => go!(|x| Key::<31>::new(ctx::ctx().key(x))),
		_ => go!(|x| ckey(x)),
	}
}

/// What selections of many are put into: user code as well.
struct Coll<'a, T> {
	v: Vec<(usize, &'a mut T)>,
	k: u64,
	picky: bool,
}
impl<'a, T> Extend<(usize, &'a mut T)> for Coll<'a, T> {
	fn extend<I: IntoIterator<Item = (usize, &'a mut T)>>(&mut self, it: I) {
		if !self.picky {
			return self.v.extend(it);
		}
		for x in it {
			ctx::ctx().extend(self.k);
			self.k += 1;
			self.v.push(x);
		}
	}
}

fn idx_view(iv: &mut Array1<usize>, m: usize, st: isize) -> ArrayView1<'_, usize> {
	let k = st.unsigned_abs();
	if m == 0 {
		iv.slice(s![0..0])
	} else if st > 0 {
		iv.slice_move_ref(0, (m - 1) * k + 1, st)
	} else {
		iv.slice_move_ref(0, (m - 1) * k + 1, st)
	}
}
trait SliceRef {
	fn slice_move_ref(&self, a: usize, b: usize, st: isize) -> ArrayView1<'_, usize>;
}
impl SliceRef for Array1<usize> {
	fn slice_move_ref(&self, a: usize, b: usize, st: isize) -> ArrayView1<'_, usize> {
		self.slice(s![a..b; st])
	}
}

pub fn view_of<'a, T>(arr: &'a mut Array1<T>, d: Desc) -> ArrayViewMut1<'a, T> {
	if d.n == 0 {
		return arr.slice_mut(s![0..0]);
	}
	if d.st > 0 {
		let a = d.off as isize;
		let b = (d.off + (d.n - 1) * d.st + 1) as isize;
		arr.slice_mut(s![a..b; d.st as isize])
	} else {
		let a = (d.off + (d.n - 1) * d.st) as isize;
		let b = (d.off + 1) as isize;
		arr.slice_mut(s![a..b; d.st as isize])
	}
}

trait PCached: Elem {
	fn pcached<S: DataMut<Elem = Self> + Send>(a: &mut ArrayBase<S, Ix1>, case: &Case) -> Out;
}
macro_rules! pc {
	($t:ty, yes) => {
		impl PCached for $t {
			#[cfg(feature = "par")]
			fn pcached<S: DataMut<Elem = Self> + Send>(a: &mut ArrayBase<S, Ix1>, case: &Case) -> Out {
				call_pcached(a, case)
			}
			#[cfg(not(feature = "par"))]
			fn pcached<S: DataMut<Elem = Self> + Send>(_: &mut ArrayBase<S, Ix1>, _: &Case) -> Out {
				unreachable!()
			}
		}
	};
	($t:ty, no) => {
		impl PCached for $t {
			fn pcached<S: DataMut<Elem = Self> + Send>(_: &mut ArrayBase<S, Ix1>, _: &Case) -> Out {
				panic!("element type not shareable")
			}
		}
	};
}
pc!(ES, yes);
pc!(EL, yes);
pc!(E3, yes);
pc!(EB, yes);
pc!(EM, yes);
pc!(EA, yes);
pc!(EZ, yes);
pc!(ED, no);

fn dispatch<T: PCached, S: DataMut<Elem = T> + Send>(a: &mut ArrayBase<S, Ix1>, case: &Case) -> Out {
	if case.op == Op::PCached { T::pcached(a, case) } else { call_rw(a, case) }
}

fn exec_t<T: PCached>(case: &Case) -> (Out, Vec<i32>, usize, u64, u64) {
	let elems: Vec<T> = (0..case.nb).map(|p| T::make(case.mem_at(p as i64) as u32)).collect();
	let out;
	let post: Vec<i32>;
	let base;
	let mut lost = 0u64;
	let c = ctx::ctx();
	let read = |v: &[T], lost: &mut u64| -> Vec<i32> {
		v.iter()
			.map(|x| {
				let i = x.id();
				if let Some(n) = x.count() {
					if i >= 0 && (i as u32) < c.n_back && c.cnt[i as usize].load(Relaxed) != n {
						*lost += 1;
					}
				}
				i
			})
			.collect()
	};
	match case.owner {
		Owner::Lane => {
			let cols = case.view.st as usize;
			let rows = case.nb / cols;
			if case.seed & 1 == 0 {
				let mut a = Array2::from_shape_vec((rows, cols), elems).unwrap();
				base = a.as_ptr() as usize;
				out = dispatch(&mut a.column_mut(case.view.off as usize), case);
				post = read(a.as_slice_memory_order().unwrap(), &mut lost);
			} else {
				let mut a = Array2::from_shape_vec((cols, rows).f(), elems).unwrap();
				base = a.as_ptr() as usize;
				out = dispatch(&mut a.row_mut(case.view.off as usize), case);
				post = read(a.as_slice_memory_order().unwrap(), &mut lost);
			}
		}
		Owner::Bcast => {
			let a = Array1::from_vec(elems);
			base = a.as_ptr() as usize;
			let b = a.slice(s![case.view.off as isize..case.view.off as isize + 1]);
			let v = b.broadcast(case.n()).unwrap();
			out = call_ro(&v, case);
			post = read(a.as_slice().unwrap(), &mut lost);
		}
		_ => {
			let mut a = Array1::from_vec(elems);
			base = a.as_ptr() as usize;
			{
				let mut v = view_of(&mut a, case.view);
				out = dispatch(&mut v, case);
			}
			post = read(a.as_slice().unwrap(), &mut lost);
			if case.ledger {
				// From here on elements may be dropped: exactly once each.
				drop(a);
				let mut bad = 0;
				for (i, d) in c.drops.iter().enumerate() {
					let _ = i;
					if d.load(SeqCst) != 1 {
						bad += 1;
					}
				}
				bad += c.bad_drops.load(SeqCst);
				return (out, post, base, lost, if T::IDENT && case.ty == Ty::D { bad } else { 0 });
			}
		}
	}
	(out, post, base, lost, 0)
}

/// Owners other than views, with copyable elements.
fn exec_owner(case: &Case) -> (Out, Vec<i32>, usize, Option<Vec<i32>>) {
	let elems: Vec<ES> = (0..case.nb).map(|p| ES::make(case.mem_at(p as i64) as u32)).collect();
	let ids = |v: &[ES]| v.iter().map(|x| x.id()).collect::<Vec<_>>();
	match case.owner {
		Owner::Arc => {
			let mut a = ArcArray1::from(elems);
			if case.view.st != 1 {
				a.slice_collapse(s![..;case.view.st as isize]);
			}
			let b = a.clone();
			let out = call_rw(&mut a, case);
			// Unshared now (or untouched): the own contents in logical order.
			let v: Vec<i32> = a.iter().map(|x| x.id()).collect();
			let o: Vec<i32> = b.iter().map(|x| x.id()).collect();
			let base = a.as_ptr() as usize;
			let n = v.len();
			if a.strides()[0] < 0 && n > 1 {
				let mut w = v;
				w.reverse();
				let mut o = o;
				o.reverse();
				let base = base - (n - 1) * size_of::<ES>();
				(out, w, base, Some(o))
			} else {
				(out, v, base, Some(o))
			}
		}
		Owner::Cow => {
			let orig = Array1::from_vec(elems);
			let mut a = CowArray::from(orig.view());
			let out = call_rw(&mut a, case);
			let v: Vec<i32> = a.iter().map(|x| x.id()).collect();
			let base = a.as_ptr() as usize;
			(out, v, base, Some(ids(orig.as_slice().unwrap())))
		}
		_ => {
			let mut a = Array1::from_vec(elems);
			let base = a.as_ptr() as usize;
			let out = call_rw(&mut a, case);
			(out, ids(a.as_slice().unwrap()), base, None)
		}
	}
}

pub fn cap_for(case: &Case) -> u64 {
	let n = case.n() as u64;
	let lg = 64 - n.leading_zeros() as u64 + 1;
	let m = case.idx.len() as u64 + 1;
	let lm = 64 - m.leading_zeros() as u64 + 1;
	if !crate::monitor::cons(case) {
		// Without a consistent order only termination is promised.
		return 20 * n * n + 300 * n * lm + 20_000;
	}
	match case.op {
		Op::Sel => 1000 * n + 20_000,
		Op::Many | Op::PMany => 1000 * n * lm + 20_000,
		_ => 60 * n * lg + 20_000,
	}
}

pub fn make_ctx(case: &Case) -> Ctx {
	let n = case.n();
	let mut viewed = vec![false; case.nb];
	for i in 0..n {
		viewed[case.mem_at(case.view.pos(i)) as usize] = true;
	}
	let mut c = Ctx::new(
		case.ranks.clone(),
		viewed,
		Setup {
			mode: case.mode,
			seed: case.seed,
			panic_at: case.panic_at,
			panic_len: case.panic_len,
			ext: case.ext,
			cap: cap_for(case),
			excl: case.excl,
			perturb: case.perturb,
			touch: case.touch,
			log: case.detail,
			fast: case.detail && !case.op.parallel(),
			eq_kind: case.eq_kind,
		},
	);
	c.target = if case.target < 0 { NAN } else { case.target as u32 };
	c.nest = case.nest.as_deref().cloned();
	c
}

pub fn exec(case: &Case) -> Outcome {
	let mut c = make_ctx(case);
	#[cfg(feature = "par")]
	if case.op.parallel() {
		pools::warm(case.pool);
	}
	ctx::install(&mut c);
	let mut other = None;
	let (out, post, base, lost, ledger_bad);
	if matches!(case.owner, Owner::Owned | Owner::Arc | Owner::Cow) && case.ty == Ty::S && case.op != Op::PCached && !case.ledger {
		let r = exec_owner(case);
		(out, post, base, other) = r;
		lost = 0;
		ledger_bad = 0;
	} else {
		let r = match case.elem() {
			Ty::S => exec_t::<ES>(case),
			Ty::D => exec_t::<ED>(case),
			Ty::L => exec_t::<EL>(case),
			Ty::E3 => exec_t::<E3>(case),
			Ty::B => exec_t::<EB>(case),
			Ty::M => exec_t::<EM>(case),
			Ty::A => exec_t::<EA>(case),
			Ty::Z => exec_t::<EZ>(case),
		};
		(out, post, base, lost, ledger_bad) = r;
	}

	ctx::uninstall();
	c.settle();
	finish(case, c, out, post, base, other, lost, ledger_bad)
}

#[allow(clippy::too_many_arguments)]
fn finish(
	case: &Case,
	c: Ctx,
	out: Out,
	post: Vec<i32>,
	base: usize,
	other: Option<Vec<i32>>,
	lost: u64,
	ledger_bad: u64,
) -> Outcome {
	let mut post = post;
	let payload = out.payload;
	let (status, msg) = match &payload {
		None => (Status::Returned, String::new()),
		Some(p) => {
			if p.is::<Injected>() {
				(Status::Injected, String::new())
			} else if p.is::<Diverged>() {
				(Status::Diverged, String::new())
			} else {
				let m = p
					.downcast_ref::<String>()
					.cloned()
					.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
					.unwrap_or_else(|| "?".into());
				(Status::Own, m)
			}
		}
	};
	drop(payload);
	let stat = alloc::window_stat();
	let prior_ok = out.prior_ok;
	let md = |d: RawDesc| -> Desc {
		match case.elem() {
			Ty::S => map_desc::<ES>(d, base),
			Ty::D => map_desc::<ED>(d, base),
			Ty::L => map_desc::<EL>(d, base),
			Ty::E3 => map_desc::<E3>(d, base),
			Ty::B => map_desc::<EB>(d, base),
			Ty::M => map_desc::<EM>(d, base),
			Ty::A => map_desc::<EA>(d, base),
			Ty::Z => Desc { off: 0, st: 1, n: d.n as i64 },
		}
	};
	let mp = |a: usize| -> i64 {
		match case.elem() {
			Ty::S => to_pos::<ES>(a, base),
			Ty::D => to_pos::<ED>(a, base),
			Ty::L => to_pos::<EL>(a, base),
			Ty::E3 => to_pos::<E3>(a, base),
			Ty::B => to_pos::<EB>(a, base),
			Ty::M => to_pos::<EM>(a, base),
			Ty::A => to_pos::<EA>(a, base),
			Ty::Z => 0,
		}
	};
	let res = match out.raw {
		None if matches!(case.op, Op::Many | Op::PMany) => Res::Many { got: vec![], prior_ok },
		None => Res::None,
		Some(Raw::None) => Res::None,
		Some(Raw::Bool(b)) => Res::Bool(b),
		Some(Raw::Bs(Ok(i))) => Res::Bs(true, i),
		Some(Raw::Bs(Err(i))) => Res::Bs(false, i),
		Some(Raw::Pp(i)) => Res::Pp(i),
		Some(Raw::Sel(l, m, r)) => Res::Sel { l: md(l), m: mp(m), r: md(r) },
		Some(Raw::Many(v)) => Res::Many { got: v.into_iter().map(|(i, a)| (i, mp(a))).collect(), prior_ok },
		Some(Raw::Dedup(a, b)) => Res::Dedup { a: md(a), b: md(b) },
	};
	if case.ty == Ty::Z {
		post = (0..case.nb as i32).collect();
	}
	let mut kmax = c.keyed.iter().map(|x| x.load(Relaxed)).max().unwrap_or(0);
	if case.ty == Ty::Z {
		kmax = 1 + (c.nkey.load(Relaxed) > case.n() as u64) as u8;
	}
	let (lo, hi) = (c.stack_lo.load(Relaxed), c.stack_hi.load(Relaxed));
	Outcome {
		status,
		msg,
		post,
		other,
		res,
		calls: c.calls.load(Relaxed),
		ncmp: c.ncmp.load(Relaxed),
		nkcmp: c.nkcmp.load(Relaxed),
		nkey: c.nkey.load(Relaxed),
		kmax,
		foreign: c.foreign.load(Relaxed),
		stale: c.stale.load(Relaxed),
		lost,
		excl_bad: c.excl_bad.load(Relaxed),
		raised: c.raised.load(Relaxed),
		alloc: stat,
		op_drops: c.op_drops.load(Relaxed),
		drops_bad: ledger_bad,
		keys: match c.keys.load(Relaxed) {
			0 => (c.key_sum.load(Relaxed) != 0) as i64,
			k => k,
		},
		stack: hi.saturating_sub(lo),
		log: std::mem::take(&mut *c.log.lock().unwrap()),
		fast: std::mem::take(unsafe { &mut *c.fast.get() }),
		ranks: c.ranks.iter().map(|r| r.load(Relaxed)).collect(),
		nested: std::mem::take(&mut *c.nested.lock().unwrap()),
	}
}

// ---------------------------------------------------------------- histories
/// One step of a history on a live view. Returns the outcome (its `post` is the whole memory as the model has it,
/// with the viewed elements as read back).
fn ids_of<T: Elem, S: Data<Elem = T>>(v: &ArrayBase<S, Ix1>) -> Vec<i32> {
	v.iter().map(|x| x.id()).collect()
}
fn whole(case: &Case, ids: &[i32]) -> Vec<i32> {
	let mut m: Vec<i32> = (0..case.nb).map(|p| case.mem_at(p as i64)).collect();
	for (i, x) in ids.iter().enumerate().take(case.n()) {
		m[case.view.pos(i) as usize] = *x;
	}
	m
}
fn raw_err(p: Box<dyn std::any::Any + Send>) -> Out {
	Out { raw: None, prior_ok: true, payload: Some(p) }
}

/// What the user does with what an operation returned.
pub enum Parts<'a, T> {
	None,
	Two(ArrayViewMut1<'a, T>, ArrayViewMut1<'a, T>),
	Three(ArrayViewMut1<'a, T>, &'a mut T, ArrayViewMut1<'a, T>),
	Refs(Vec<(usize, &'a mut T)>),
}

pub fn step<'a, T: Elem>(v: &'a mut ArrayViewMut1<'_, T>, base: usize, case: &Case) -> (Outcome, Parts<'a, T>) {
	let mut c = make_ctx(case);
	#[cfg(feature = "par")]
	if case.op.parallel() {
		pools::warm(case.pool);
	}
	ctx::install(&mut c);
	let mut parts = Parts::None;
	// A second handle for reading back after an unwinding.
	let back: *mut ArrayViewMut1<'_, T> = v;
	let out;
	let ids;
	match case.op {
		Op::Sel => {
			let r = guarded!(case, {
					let v = { v };
				match case.form {
					Form::Nat => v.select_nth_unstable(case.k),
					Form::By => v.select_nth_unstable_by(case.k, |x, y| ccmp(x, y)),
					Form::Key => v.select_nth_unstable_by_key(case.k, |x| ckey(x)),
				}
			});
			match r {
				Ok((l, m, r)) => {
					let mut i = ids_of(&l);
					i.push(m.id());
					i.extend(ids_of(&r));
					out = done(Ok(Raw::Sel(rawd(&l), m as *mut T as usize, rawd(&r))));
					ids = i;
					parts = Parts::Three(l, m, r);
				}
				Err(p) => {
					out = raw_err(p);
					ids = ids_of(unsafe { &*back });
				}
			}
		}
		Op::Dedup => {
			let r = guarded!(case, {
					let v = { v };
				match case.form {
					Form::Nat => v.partition_dedup(),
					Form::By => v.partition_dedup_by(|x, y| ctx::ctx().eq::<T>(x, y)),
					Form::Key => v.partition_dedup_by_key(|x| ckey(x)),
				}
			});
			match r {
				Ok((x, y)) => {
					let mut i = ids_of(&x);
					i.extend(ids_of(&y));
					out = done(Ok(Raw::Dedup(rawd(&x), rawd(&y))));
					ids = i;
					parts = Parts::Two(x, y);
				}
				Err(p) => {
					out = raw_err(p);
					ids = ids_of(unsafe { &*back });
				}
			}
		}
		Op::Many => {
			let iv = Array1::from_vec(case.idx.clone());
			let mut coll: Vec<(usize, &mut T)> = Vec::new();
			let r = guarded!(case, {
					let v = { v };
				match case.form {
					Form::Nat => v.select_many_nth_unstable(&iv, &mut coll),
					Form::By => v.select_many_nth_unstable_by(&iv, &mut coll, |x, y| ccmp(x, y)),
					Form::Key => v.select_many_nth_unstable_by_key(&iv, &mut coll, |x| ckey(x)),
				}
			});
			match r {
				Ok(()) => {
					let raw = coll.iter_mut().map(|(i, p)| (*i as i64, *p as *mut T as usize)).collect();
					out = done(Ok(Raw::Many(raw)));
					// Read back through the returned references where there are some.
					let mut i = ids_of(unsafe { &*back });
					for (k, p) in &coll {
						i[*k] = p.id();
					}
					ids = i;
					parts = Parts::Refs(coll);
				}
				Err(p) => {
					out = raw_err(p);
					ids = ids_of(unsafe { &*back });
				}
			}
		}
		_ => {
			out = call_rw(v, case);
			ids = ids_of(unsafe { &*back });
		}
	}
	ctx::uninstall();
	c.settle();
	let post = whole(case, &ids);
	(finish(case, c, out, post, base, None, 0, 0), parts)
}
