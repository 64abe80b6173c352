//! Histories: operations on a live array and on the views and references they return.
use crate::camp::{Runner, Tier};
use crate::case::*;
use crate::ctx::Rng;
use crate::elem::*;
use crate::emit;
use crate::exec::{Parts, Status, step, view_of};
use crate::r#gen as g;
use crate::monitor;
use ndarray::{Array1, ArrayViewMut1};

struct H<'r> {
	run: &'r mut Runner,
	mem: Vec<i32>,
	ranks: Vec<u32>,
	base: usize,
	ty: Ty,
	trace: String,
	left: usize,
	bad: Option<String>,
	last: Option<(Desc, Desc)>,
}

fn sizes_ok(n: usize) -> bool {
	n < 20_000
}

impl H<'_> {
	fn case(&self, r: &mut Rng, op: Op, d: Desc) -> Case {
		let n = d.n as usize;
		let mut c = Case::plain(op, Form::By, vec![]);
		c.form = match op {
			Op::Cached | Op::PCached => Form::Key,
			Op::Contains | Op::Rev => Form::Nat,
			Op::Pp => Form::By,
			_ => r.pick(&[Form::By, Form::Nat, Form::Key, Form::By]),
		};
		c.ty = self.ty;
		c.nb = self.mem.len();
		c.owner = Owner::View;
		c.view = d;
		c.mem = self.mem.clone();
		c.ranks = self.ranks.clone();
		c.seed = r.next() & 0xFFFF;
		c.kw = 4;
		match op {
			Op::Sel => c.k = if n > 0 && !r.chance(1, 20) { { let xs = [0, n - 1, n / 2, r.below(n), r.below(n)]; r.pick(&xs) } } else { n },
			Op::Many | Op::PMany => c.idx = if r.chance(1, 20) { g::bad_list(r, n) } else { g::ranks_list(r, n) },
			Op::Bs | Op::Pp | Op::Contains => {
				c.target = if n > 0 && r.chance(2, 3) {
					let i = r.below(n);
					(self.ranks[self.mem[d.pos(i) as usize] as usize] as i64 + r.below(2) as i64).max(0)
				} else {
					r.below(20) as i64
				}
			}
			_ => {}
		}
		if op.parallel() {
			c.pool = r.pick(&[0, 2, 3, 4]);
		}
		if r.chance(1, 10) && op != Op::Rev {
			c.panic_at = r.below(2 * n + 2) as u64;
			c.panic_len = 1;
		}
		if r.chance(1, 12) && op != Op::Rev && n <= 2000 {
			c.nest = Some(crate::camp::inner(r, op));
		}
		c
	}
	/// Play on a view that denotes `d`.
	fn go<T: Elem>(&mut self, v: &mut ArrayViewMut1<'_, T>, d: Desc, r: &mut Rng, depth: usize, turns: usize) {
		for _ in 0..turns {
			if self.left == 0 || self.bad.is_some() {
				return;
			}
			self.left -= 1;
			let ops: Vec<Op> = [
				Op::Sort,
				Op::Unst,
				Op::Sel,
				Op::Sel,
				Op::Sel,
				Op::Many,
				Op::Many,
				Op::Dedup,
				Op::Dedup,
				Op::Rev,
				Op::IsSorted,
				Op::Contains,
				Op::Bs,
				Op::Bs,
				Op::Pp,
				Op::PSort,
				Op::PUnst,
				Op::Cached,
			]
			.into_iter()
			.filter(|o| o.available())
			.collect();
			let op = r.pick(&ops);
			let c = self.case(r, op, d);
			let parts = self.one(v, d, &c).1;
			if self.bad.is_some() {
				return;
			}
			let n = d.n;
			match parts {
				Parts::None => {}
				Parts::Two(mut a, mut b) => {
					let k = a.len() as i64;
					let (da, db) = (sub(d, 0, k), sub(d, k, n));
					if depth > 0 {
						let t = r.below(3);
						self.go(&mut a, da, r, depth - 1, t);
						let t = r.below(3);
						self.go(&mut b, db, r, depth - 1, t);
					}
					if a.len() > 0 && b.len() > 0 && r.chance(1, 3) && self.bad.is_none() {
						let (i, j) = (r.below(a.len()), r.below(b.len()));
						std::mem::swap(&mut a[i], &mut b[j]);
						self.swap(d, i as i64, k + j as i64);
					}
				}
				Parts::Three(mut a, m, mut b) => {
					let k = a.len() as i64;
					let (da, db) = (sub(d, 0, k), sub(d, k + 1, n));
					if depth > 0 {
						let t = r.below(3);
						self.go(&mut a, da, r, depth - 1, t);
						let t = r.below(3);
						self.go(&mut b, db, r, depth - 1, t);
					}
					if r.chance(1, 3) && self.bad.is_none() {
						if a.len() > 0 && r.chance(1, 2) {
							let i = r.below(a.len());
							std::mem::swap(&mut a[i], m);
							self.swap(d, i as i64, k);
						} else if b.len() > 0 {
							let i = r.below(b.len());
							std::mem::swap(m, &mut b[i]);
							self.swap(d, k, k + 1 + i as i64);
						}
					}
				}
				Parts::Refs(mut v) => {
					if v.len() > 1 && r.chance(1, 2) {
						let i = r.below(v.len() - 1);
						let (x, y) = v.split_at_mut(i + 1);
						let j = r.below(y.len());
						std::mem::swap(x[i].1, y[j].1);
						let (p, q) = (x[i].0 as i64, y[j].0 as i64);
						self.swap(d, p, q);
					}
				}
			}
		}
	}
	/// One call of the history.
	fn one<'a, T: Elem>(&mut self, v: &'a mut ArrayViewMut1<'_, T>, d: Desc, c: &Case) -> (Status, Parts<'a, T>) {
		self.run.before(c);
		let (o, parts) = step(v, self.base, c);
		self.run.note(c, &o);
		self.trace.push_str(&emit::view_line(d));
		self.trace.push_str(&emit::call_line(c, ""));
		emit::nested_lines(c, &o, &mut self.trace);
		self.trace.push_str(&emit::end_line(c, &o));
		let b = monitor::broken(c, &o, self.run.clauses);
		if b != 0 || o.status == Status::Diverged {
			let n: Vec<&str> = (0..monitor::NAMES.len()).filter(|i| b >> i & 1 == 1).map(|i| monitor::NAMES[i]).collect();
			self.bad = Some(n.join("+"));
		} else {
			self.mem = o.post;
		}
		(o.status, parts)
	}
	/// A history of the specification: operation + 10 * where (0 the array, 1 and 2 the views returned last).
	fn prog<T: Elem>(&mut self, v: &mut ArrayViewMut1<'_, T>, d: Desc, r: &mut Rng, codes: &[i64], pc: &mut usize) {
		let op = [Op::Sort, Op::Unst, Op::Sel, Op::Many, Op::Dedup, Op::Rev, Op::Bs, Op::IsSorted][(codes[*pc] % 10) as usize];
		*pc += 1;
		let op = if op == Op::Sort && !op.available() {
			Op::Unst
		} else if op == Op::Sort && r.chance(1, 4) && Op::PSort.available() {
			r.pick(&[Op::PSort, Op::Cached])
		} else if op == Op::Unst && r.chance(1, 4) && Op::PUnst.available() {
			Op::PUnst
		} else {
			op
		};
		let c = self.case(r, op, d);
		let n = d.n;
		let (mut a, mut b, da, db);
		match self.one(v, d, &c).1 {
			Parts::Two(x, y) => {
				let k = x.len() as i64;
				(da, db) = (sub(d, 0, k), sub(d, k, n));
				(a, b) = (x, y);
			}
			Parts::Three(x, _, y) => {
				let k = x.len() as i64;
				(da, db) = (sub(d, 0, k), sub(d, k + 1, n));
				(a, b) = (x, y);
			}
			_ => return,
		}
		self.last = Some((da, db));
		while *pc < codes.len() && self.bad.is_none() {
			match codes[*pc] / 10 {
				0 => return,
				1 => self.prog(&mut a, da, r, codes, pc),
				_ => self.prog(&mut b, db, r, codes, pc),
			}
			// the views of a call further in are gone
			if self.last != Some((da, db)) {
				return;
			}
		}
	}
	/// Select within the remainder, again and again: all elements end up where a sort puts them.
	fn chain<T: Elem>(&mut self, v: &mut ArrayViewMut1<'_, T>, d: Desc, r: &mut Rng) {
		if d.n == 0 || self.bad.is_some() {
			return;
		}
		let mut c = self.case(r, Op::Sel, d);
		c.k = { let xs = [0, d.n as usize - 1, d.n as usize / 2, r.below(d.n as usize)]; r.pick(&xs) };
		c.panic_at = u64::MAX;
		c.nest = None;
		if let Parts::Three(mut a, _, mut b) = self.one(v, d, &c).1 {
			let k = a.len() as i64;
			self.chain(&mut a, sub(d, 0, k), r);
			self.chain(&mut b, sub(d, k + 1, d.n), r);
		}
	}
	fn swap(&mut self, d: Desc, i: i64, j: i64) {
		let (p, q) = (d.pos(i as usize), d.pos(j as usize));
		self.mem.swap(p as usize, q as usize);
		self.trace.push_str(&emit::view_line(d));
		self.trace.push_str(&format!("{{\"e\":\"swap\",\"i\":{p},\"j\":{q}}}\n"));
	}
}
fn sub(d: Desc, a: i64, b: i64) -> Desc {
	Desc { off: d.pos(a as usize), st: d.st, n: b - a }
}

fn run_t<T: Elem>(run: &mut Runner, r: &mut Rng, ty: Ty) {
	let th = run.tier == Tier::Thorough;
	let n = match r.below(10) {
		0..=3 => r.range(0, 12),
		4..=7 => g::size(r, 300),
		_ => g::size(r, if th { 6000 } else { 2500 }),
	};
	debug_assert!(sizes_ok(n));
	let ranks = g::pattern(r, n);
	let mut c = Case::plain(Op::Rev, Form::Nat, ranks);
	loop {
		g::layout(r, &mut c);
		if c.owner != Owner::Lane {
			break;
		}
		let vr: Vec<u32> = (0..n).map(|i| c.ranks[c.view.pos(i) as usize]).collect();
		c = Case::plain(Op::Rev, Form::Nat, vr);
	}
	let elems: Vec<T> = (0..c.nb).map(|p| T::make(p as u32)).collect();
	let mut a = Array1::from_vec(elems);
	let base = a.as_ptr() as usize;
	let mut h = H {
		mem: (0..c.nb as i32).collect(),
		ranks: c.ranks.clone(),
		base,
		ty,
		trace: emit::new_line(&c, &c.ranks),
		left: if th { 40 } else { 16 },
		bad: None,
		last: None,
		run,
	};
	if let (true, Some(codes)) = (r.chance(1, 2), h.run.scenario(r, "hist")) {
		let mut pc = 0;
		while pc < codes.len() && h.bad.is_none() {
			let d = match (codes[pc] / 10, h.last) {
				(1, Some((a, _))) => a,
				(2, Some((_, b))) => b,
				_ => c.view,
			};
			let mut v = view_of(&mut a, d);
			h.prog(&mut v, d, r, &codes, &mut pc);
		}
	} else {
		let mut v = view_of(&mut a, c.view);
		let turns = r.range(2, 8);
		h.go(&mut v, c.view, r, 3, turns);
	}
	if h.bad.is_none() && n <= 40 && r.chance(1, 4) {
		let mut v = view_of(&mut a, c.view);
		h.chain(&mut v, c.view, r);
		if h.bad.is_none() && !c.view_ranks().contains(&crate::ctx::NAN) {
			let mut s = h.case(r, Op::IsSorted, c.view);
			s.panic_at = u64::MAX;
			s.nest = None;
			let sorted = (1..n).all(|i| {
				let at = |i: usize| h.ranks[h.mem[c.view.pos(i) as usize] as usize];
				at(i - 1) <= at(i)
			});
			h.one(&mut v, c.view, &s);
			if !sorted && h.bad.is_none() {
				h.bad = Some("chain of selections".into());
			}
		}
	}
	// the element of each rank in turn
	let select_all = h.bad.is_none() && n <= 60 && r.chance(1, 3);
	if select_all {
		let mut order: Vec<usize> = (0..n).collect();
		let rev = r.chance(1, 2);
		if rev {
			order.reverse();
		}
		let mut v = view_of(&mut a, c.view);
		for k in order {
			let mut s = h.case(r, Op::Sel, c.view);
			s.k = k;
			s.panic_at = u64::MAX;
			h.run.before(&s);
			let (o, _) = step(&mut v, base, &s);
			h.run.note(&s, &o);
			h.trace.push_str(&emit::view_line(c.view));
			h.trace.push_str(&emit::call_line(&s, ""));
			emit::nested_lines(&s, &o, &mut h.trace);
			h.trace.push_str(&emit::end_line(&s, &o));
			if monitor::broken(&s, &o, h.run.clauses) != 0 || o.status == Status::Diverged {
				h.bad = Some("select all".into());
				break;
			}
			h.mem = o.post.clone();
		}
	}
	let real: Vec<i32> = a.iter().map(|x| x.id()).collect();
	let hung = h.trace.contains("\"hang\"");
	if !hung {
		h.trace.push_str(&format!("{{\"e\":\"peek\",\"mem\":{}}}\n", emit::list(&real, |x| x as i64)));
	}
	if h.bad.is_none() && real != h.mem {
		h.bad = Some("FRAME".into());
	}
	let (bad, trace) = (h.bad.take(), std::mem::take(&mut h.trace));
	if let Some(b) = bad {
		run.flag(&b, trace);
	} else if run.sample_bytes < run.sample_budget && (run.samples.len() < 4 || r.chance(1, 12)) && trace.len() < 60_000 {
		run.sample_bytes += trace.len();
		run.samples.push(trace);
	}
}

pub fn play(run: &mut Runner, r: &mut Rng) {
	match r.below(4) {
		0 => run_t::<ED>(run, r, Ty::D),
		1 => run_t::<EL>(run, r, Ty::L),
		_ => run_t::<ES>(run, r, Ty::S),
	}
}
