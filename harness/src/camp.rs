//! Campaigns: which executions are explored for a property.
use crate::case::*;
use crate::ctx::{Mode, NAN, Rng, mix};
use crate::emit;
use crate::exec::*;
use crate::r#gen as g;
use crate::monitor::{self, bits, broken, logical};
use std::collections::{BTreeMap, HashSet};
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
	Quick,
	Thorough,
}

pub struct Runner {
	pub prop: String,
	pub clauses: u32,
	pub dir: String,
	pub worker: usize,
	pub tier: Tier,
	pub one: bool,
	pub seed: u64,
	pub item: u64,
	pub evals: u64,
	pub distinct: HashSet<u64>,
	pub flagged: Vec<String>,
	pub samples: Vec<String>,
	pub wides: Vec<String>,
	pub sample_bytes: usize,
	pub sample_budget: usize,
	pub kinds: BTreeMap<String, u64>,
	pub refuted: u64,
	pub entailed: u64,
	pub cbs: u64,
	pub hb: Option<std::fs::File>,
	pub scen: Vec<(String, Vec<i64>)>,
	pub worst: BTreeMap<String, f64>,
}

pub fn clauses_of(prop: &str) -> u32 {
	bits(match prop {
		"C01" | "C02" | "C03" | "C04" => "PANIC,PERM,ORDER",
		"C05" | "C06" | "C07" => "PANIC,PERM,ORDER,RESULT",
		"C08" => "PANIC,PERM,DROPS,FRAME",
		"C09" => "PANIC,PERM,FRAME,SHOWN,RESULT",
		"C10" => "PANIC,PERM,ORDER,RESULT,FRAME,SHOWN,MEMO",
		"C11" => "PANIC,PERM,RESULT,SHOWN",
		"C12" => "PANIC,PERM,ORDER,RESULT,ARGS,PAYLOAD",
		"C13" => "PANIC,PERM,ORDER,RESULT",
		"C14" => "PANIC,PERM,ORDER,KEYONCE",
		"C15" => "PANIC,COST,STACK",
		"C16" => "PANIC,LINEAR,CALLS",
		"C17" => "PANIC,SHOWN,EXCL",
		"C18" => "PANIC,MEMO",
		"C19" => "PANIC,PAYLOAD",
		"C20" => "PANIC,HEAP,RELEASED",
		"C21" => "PANIC,PERM,ORDER,RESULT,FRAME,SHOWN,DROPS",
		"C22" => "PANIC,PERM,ORDER,RESULT,MEMO",
		_ => panic!("property {prop}"),
	})
}

fn hash_case(c: &Case) -> u64 {
	let mut h = DefaultHasher::new();
	(c.op, c.form, c.ty, c.owner, c.view, c.k, &c.idx, c.target, c.panic_at, c.eq_kind).hash(&mut h);
	c.ranks.hash(&mut h);
	format!("{:?}", c.mode).hash(&mut h);
	h.finish()
}
/// Nontrivial: the call had something to do (more than one element, callbacks happened or a result was computed).
fn nontrivial(c: &Case, o: &Outcome) -> bool {
	c.n() > 1 && (o.calls > 0 || c.op == Op::Rev)
}

impl Runner {
	pub fn beat(&mut self) {
		if let Some(f) = &self.hb {
			let _ = f.write_at(format!("{:020}\n", self.item).as_bytes(), 0);
		}
	}
	pub fn before(&self, c: &Case) {
		if self.one {
			let mut f = std::fs::File::create(format!("{}/one-{}.txt", self.dir, self.worker)).unwrap();
			f.write_all(c.to_text().as_bytes()).unwrap();
		}
	}
	pub fn note(&mut self, c: &Case, o: &Outcome) {
		self.evals += 1;
		self.cbs += o.calls;
		if nontrivial(c, o) && self.distinct.len() < 2_000_000 {
			self.distinct.insert(hash_case(c));
		}
		let st = match o.status {
			Status::Returned => "",
			Status::Injected => "+callback panic",
			Status::Own => "+refused",
			Status::Diverged => "+diverged",
		};
		*self.kinds.entry(format!("{}/{}{}", c.op.name(), c.form.name(), st)).or_insert(0) += 1;
	}
	pub fn flag(&mut self, name: &str, text: String) {
		if self.flagged.len() >= 4 {
			return;
		}
		let path = format!("{}/flag-{}-{}.ndjson", self.dir, self.worker, self.flagged.len());
		std::fs::write(&path, text).unwrap();
		self.flagged.push(format!("{path} {name}"));
	}
	/// A call on an array too long to be stored.
	pub fn wide(&mut self, op: &str, st: Status, calls: u64, ok: bool, text: String) {
		self.evals += 1;
		self.cbs += calls;
		let st = match st {
			Status::Own => "+refused",
			Status::Diverged => "+diverged",
			_ => "",
		};
		*self.kinds.entry(format!("{op}/wide{st}")).or_insert(0) += 1;
		if !ok {
			self.flag("WIDE", text);
		} else if self.wides.len() < 200 {
			self.wides.push(text);
		}
	}
	pub fn full(&self) -> bool {
		self.flagged.len() >= 4
	}
	fn names(b: u32) -> String {
		(0..monitor::NAMES.len()).filter(|i| b >> i & 1 == 1).map(|i| monitor::NAMES[i]).collect::<Vec<_>>().join("+")
	}
	/// Execute, monitor, maybe sample.
	pub fn run(&mut self, c: &Case) -> Outcome {
		let n;
		let c = if c.ty == Ty::Z {
			n = c.normal();
			&n
		} else {
			c
		};
		self.before(c);
		let t = std::time::Instant::now();
		let o = exec(c);
		if t.elapsed().as_secs() >= 4 {
			eprintln!("slow: {:.1}s {} calls: {}", t.elapsed().as_secs_f64(), o.calls, c.to_text().chars().take(300).collect::<String>());
		}
		self.note(c, &o);
		self.check(c, &o);
		o
	}
	pub fn check(&mut self, c: &Case, o: &Outcome) -> bool {
		let b = broken(c, o, self.clauses);
		if b != 0 || o.status == Status::Diverged {
			let mut done = false;
			// With callbacks in the trace, if it happens again.
			if !c.detail && !c.track && c.n() <= 400 && c.mem.is_empty() {
				let mut d = c.clone();
				d.detail = true;
				let p = exec(&d);
				if broken(&d, &p, self.clauses) == b && o.status != Status::Diverged {
					self.flag(&Self::names(b), emit::trace(&d, &p, ""));
					done = true;
				}
			}
			if !done {
				self.flag(&Self::names(b), emit::trace(c, o, ""));
			}
			return true;
		}
		// sample
		if self.sample_bytes < self.sample_budget && c.mem.is_empty() {
			let h = mix(self.seed ^ self.evals.wrapping_mul(77));
			let want = if self.evals < 40 { h % 3 == 0 } else { h % 97 == 0 };
			if want && c.n() <= if h >> 8 & 31 == 0 { 3000 } else { 300 } {
				let t = if !c.track && !c.detail && c.n() <= 300 {
					let mut d = c.clone();
					d.detail = true;
					let p = exec(&d);
					emit::trace(&d, &p, "")
				} else {
					emit::trace(c, o, "")
				};
				self.sample_bytes += t.len();
				self.samples.push(t);
			}
		}
		false
	}
	/// Additionally: are the recorded answers enough to conclude that the outcome is right?
	pub fn run_entail(&mut self, c: &Case) -> Outcome {
		let lim = if c.op.sorts() { 1500 } else { 3000 };
		if c.form == Form::Key || c.n() > lim || c.track || !monitor::cons(c) || (c.op.parallel() && c.n() > 300) {
			return self.run(c);
		}
		let mut d = c.clone();
		d.detail = true;
		let o = self.run(&d);
		if let Some(ranks) = monitor::refute(&d, &o) {
			self.refuted += 1;
			let mut e = c.clone();
			e.mode = Mode::Cons;
			e.ranks = ranks;
			self.run(&e);
		} else {
			self.entailed += 1;
		}
		o
	}
	/// Calls under way at the same time, each on a thread and an array of its own.
	pub fn together(&mut self, cases: &[Case]) -> Vec<Outcome> {
		let gate = &std::sync::Barrier::new(cases.len());
		let os: Vec<Outcome> = std::thread::scope(|s| {
			let hs: Vec<_> = cases
				.iter()
				.map(|c| {
					std::thread::Builder::new()
						.stack_size(4 << 20)
						.spawn_scoped(s, move || {
							crate::ctx::local(false, || {
								gate.wait();
								exec(c)
							})
						})
						.unwrap()
				})
				.collect();
			hs.into_iter().map(|h| h.join().unwrap()).collect()
		});
		for (c, o) in cases.iter().zip(&os) {
			self.note(c, o);
			let b = broken(c, o, self.clauses);
			if b != 0 || o.status == Status::Diverged {
				self.flag(&Self::names(b), emit::trace(c, o, ""));
			}
		}
		os
	}
	/// Executions that must have the same outcome.
	pub fn same(&mut self, group: &[Case]) {
		let os: Vec<Outcome> = group.iter().map(|c| self.run(c)).collect();
		self.alike(group, os);
	}
	fn alike(&mut self, group: &[Case], os: Vec<Outcome>) {
		let mut first: Option<(Case, Outcome, (u8, Vec<u32>, Vec<i64>))> = None;
		for (c, o) in group.iter().zip(os) {
			let l = logical(c, &o);
			match &first {
				None => first = Some((c.clone(), o, l)),
				Some((c0, o0, l0)) => {
					if *l0 != l {
						let t = emit::trace(c0, o0, "g") + &emit::trace(c, &o, "g");
						self.flag("MEMO", t);
						return;
					}
				}
			}
		}
		if self.sample_bytes < self.sample_budget && mix(self.evals) % 16 == 0 && group.len() > 1 && group[0].n() <= 300 {
			let mut t = String::from("{\"e\":\"forget\"}\n");
			for c in group {
				let o = exec(c);
				t += &emit::trace(c, &o, "g");
			}
			t += "{\"e\":\"forget\"}\n";
			self.sample_bytes += t.len();
			self.samples.push(t);
		}
	}
	pub fn worst(&mut self, k: &str, x: f64) {
		let e = self.worst.entry(k.to_string()).or_insert(0.0);
		if x > *e {
			*e = x;
		}
	}
}

fn form(r: &mut Rng, op: Op) -> Form {
	match op {
		Op::Cached | Op::PCached => Form::Key,
		Op::Contains | Op::Rev => Form::Nat,
		Op::Pp => Form::By,
		_ => match r.below(8) {
			0..=3 => Form::By,
			4..=5 => Form::Nat,
			_ => Form::Key,
		},
	}
}
fn pool(r: &mut Rng) -> usize {
	match r.below(10) {
		0 => 0,
		1 => 1,
		2..=3 => 2,
		4..=5 => 3,
		6..=7 => 4,
		8 => 5,
		_ => 8,
	}
}
fn advm(r: &mut Rng, n: usize) -> Mode {
	if r.chance(1, 2) {
		return Mode::Guide {
			script: r.next() & ((1 << 63) - 1),
			len: r.range(1, 21) as u8,
			freeze: match r.below(3) {
				0 => u64::MAX,
				1 => r.below(2 * n + 1) as u64,
				_ => r.below(60) as u64,
			},
		};
	}
	Mode::Adv {
		freeze: match r.below(4) {
			0 => u64::MAX,
			1 => r.below(2 * n + 1) as u64,
			2 => r.below(n / 4 + 2) as u64,
			_ => r.below(30) as u64,
		},
		flip: r.chance(1, 2),
		dup: r.below(5) as u8,
	}
}
/// A random case for the operation with everything about it random.
pub fn random(r: &mut Rng, op: Op, n: usize) -> Case {
	let f = form(r, op);
	let ranks = g::pattern(r, n);
	dress(r, op, f, ranks)
}
/// A call to make from within a callback of `outer`: one thread's own, or a parallel one if no other is under way.
pub fn inner(r: &mut Rng, outer: Op) -> Box<Nest> {
	let seq = [
		Op::Sort, Op::Sort, Op::Unst, Op::Cached, Op::Sel, Op::Sel, Op::Many, Op::Many, Op::Dedup, Op::Rev, Op::Bs, Op::Pp,
		Op::IsSorted, Op::Contains,
	];
	let par = [Op::PSort, Op::PUnst, Op::PMany, Op::PCached];
	let mut ops = avail(&seq);
	if !outer.parallel() && r.chance(1, 3) {
		ops.extend(avail(&par));
	}
	let mut op = r.pick(&ops);
	if outer.available() && !outer.parallel() && r.chance(1, 3) {
		op = outer;
	}
	let n = match r.below(8) {
		0..=3 => r.range(0, 40),
		4..=6 => r.range(10, 300),
		_ if op.parallel() => g::par_size(r, 6000),
		_ => r.range(100, 1200),
	};
	let mut c = random(r, op, n);
	if op.parallel() {
		c.pool = pool(r);
	}
	if op != Op::Rev && r.chance(1, 10) {
		c.panic_at = r.below(2 * n + 2) as u64;
		c.panic_len = 1;
	}
	Box::new(Nest { every: r.pick(&[1, 2, 5, 20, 100, 400]), max: r.pick(&[1, 1, 2, 3]), case: c })
}
/// Search targets around the present values.
fn target(r: &mut Rng, ranks: &[u32]) -> i64 {
	if ranks.is_empty() {
		return r.below(5) as i64;
	}
	match r.below(4) {
		0 => r.below(*ranks.iter().filter(|x| **x != NAN).max().unwrap_or(&3) as usize + 2) as i64,
		1 => ranks[r.below(ranks.len())] as i64,
		2 => (ranks[r.below(ranks.len())] as i64 + 1).min(NAN as i64 - 2),
		_ => (ranks[r.below(ranks.len())] as i64 - 1).max(0),
	}
}
pub fn dress(r: &mut Rng, op: Op, f: Form, ranks: Vec<u32>) -> Case {
	let n = ranks.len();
	let mut c = Case::plain(op, f, ranks);
	c.seed = r.next() & 0xFFFF_FFFF;
	c.ty = g::ty(r, n);
	if op == Op::PCached && c.ty == Ty::D {
		c.ty = Ty::S;
	}
	if matches!(op, Op::Cached | Op::PCached) {
		c.kw = r.pick(&[4, 4, 8, 2, 24, 4, 48, 128]);
		if c.kw == 2 {
			c.ranks.iter_mut().for_each(|x| *x &= 0xFFFF);
		}
	}
	match op {
		Op::Sel => {
			c.k = match r.below(6) {
				0 => 0,
				1 => n.saturating_sub(1),
				2 => n / 2,
				_ => r.below(n.max(1)),
			};
			if n == 0 {
				c.k = r.below(3);
			}
		}
		Op::Many | Op::PMany => {
			c.idx = g::ranks_list(r, n);
			if r.chance(1, 4) {
				c.idx_st = r.pick(&[2i64, -1, -2, 3]);
			}
			if r.chance(1, 2) {
				c.prior = r.range(0, 5);
			}
			c.spare = match r.below(5) {
				0..=1 => 0,
				2..=3 => c.idx.len(),
				_ => c.idx.len() * r.range(1, 4) + r.below(40),
			};
		}
		Op::Bs | Op::Pp | Op::Contains => c.target = target(r, &c.ranks),
		_ => {}
	}
	if op.parallel() {
		c.pool = pool(r);
		if r.chance(1, 2) {
			c.perturb = (r.next() as u32) | 1;
		}
	}
	if n > 60_000 && c.ty == Ty::L {
		c.ty = Ty::S;
	}
	g::layout(r, &mut c);
	c
}

/// Selection may take quadratically many rounds when lied to.
fn liar_max(op: Op) -> usize {
	if matches!(op, Op::Sel | Op::Many | Op::PMany) { 1200 } else { 20_000 }
}
fn avail(ops: &[Op]) -> Vec<Op> {
	ops.iter().copied().filter(|o| o.available()).collect()
}
/// All weak orders on n elements (as canonical rank sequences), one by one.
pub fn weak_orders(n: usize, mut f: impl FnMut(&[u32])) {
	fn go(v: &mut Vec<u32>, i: usize, f: &mut dyn FnMut(&[u32])) {
		if i == v.len() {
			// canonical: the set of values is an initial segment
			let m = v.iter().max().map_or(0, |x| *x as usize + 1);
			let mut seen = 0u32;
			for x in v.iter() {
				seen |= 1 << x;
			}
			if seen.count_ones() as usize == m {
				f(v);
			}
			return;
		}
		for x in 0..v.len() as u32 {
			v[i] = x;
			go(v, i + 1, f);
		}
	}
	go(&mut vec![0; n], 0, &mut f);
}

impl Runner {
	/// Exhaustive small scope: every weak order with at most `max` elements, shared out between the workers.
	fn exhaust(&mut self, max: usize, of: usize, mut mk: impl FnMut(&[u32], &mut Vec<Case>)) {
		let mut k = 0usize;
		let w = self.worker;
		for n in 0..=max {
			let mut cases = vec![];
			weak_orders(n, |v| {
				k += 1;
				if k % of == w {
					mk(v, &mut cases);
				}
			});
			for c in cases {
				if self.full() {
					return;
				}
				self.run(&c);
			}
		}
	}

	pub fn prologue(&mut self, of: usize) {
		let th = self.tier == Tier::Thorough;
		match self.prop.as_str() {
			"C01" => self.exhaust(if th { 7 } else { 6 }, of, |v, o| {
				for f in [Form::By, Form::Nat, Form::Key] {
					o.push(Case::plain(Op::Sort, f, v.to_vec()));
				}
			}),
			"C02" => self.exhaust(if th { 7 } else { 6 }, of, |v, o| {
				for f in [Form::By, Form::Nat, Form::Key] {
					o.push(Case::plain(Op::Unst, f, v.to_vec()));
				}
			}),
			"C03" => self.exhaust(if th { 6 } else { 5 }, of, |v, o| o.push(Case::plain(Op::PSort, Form::By, v.to_vec()))),
			"C04" => self.exhaust(if th { 6 } else { 5 }, of, |v, o| o.push(Case::plain(Op::PUnst, Form::By, v.to_vec()))),
			"C05" => self.exhaust(if th { 6 } else { 5 }, of, |v, o| {
				for k in 0..=v.len() {
					for f in [Form::By, Form::Nat, Form::Key] {
						let mut c = Case::plain(Op::Sel, f, v.to_vec());
						c.k = k;
						o.push(c);
					}
				}
			}),
			"C06" | "C07" => {
				let op = if self.prop == "C06" { Op::Many } else { Op::PMany };
				self.exhaust(if th { 5 } else { 4 }, of, |v, o| {
					for m in 0..1u32 << v.len() {
						let mut c = Case::plain(op, Form::By, v.to_vec());
						c.idx = (0..v.len()).filter(|i| m >> i & 1 == 1).collect();
						o.push(c);
					}
				})
			}
			"C11" => self.exhaust(if th { 6 } else { 5 }, of, |v, o| {
				let sorted = v.windows(2).all(|w| w[0] <= w[1]);
				let d: Vec<u32> = v.iter().map(|x| 2 * x + 1).collect();
				for t in 0..=2 * v.len() as i64 + 1 {
					for (op, f) in [(Op::Bs, Form::By), (Op::Bs, Form::Nat), (Op::Bs, Form::Key), (Op::Pp, Form::By)] {
						if !sorted && (f != Form::By || t % 2 == 0) {
							continue;
						}
						let mut c = Case::plain(op, f, d.clone());
						c.target = t;
						o.push(c);
					}
				}
			}),
			"C12" => self.exhaust(if th { 7 } else { 6 }, of, |v, o| {
				for f in [Form::By, Form::Nat, Form::Key] {
					o.push(Case::plain(Op::Dedup, f, v.to_vec()));
				}
			}),
			"C13" => self.exhaust(if th { 7 } else { 6 }, of, |v, o| {
				for f in [Form::By, Form::Nat, Form::Key] {
					o.push(Case::plain(Op::IsSorted, f, v.to_vec()));
				}
				let mut nan = Case::plain(Op::IsSorted, Form::By, v.to_vec());
				nan.ranks.iter_mut().for_each(|x| {
					if *x == 0 {
						*x = NAN
					}
				});
				o.push(nan.clone());
				nan.form = Form::Nat;
				o.push(nan.clone());
				nan.form = Form::Key;
				o.push(nan);
				for t in 0..=v.len() as i64 {
					let mut c = Case::plain(Op::Contains, Form::Nat, v.to_vec());
					c.target = t;
					o.push(c);
				}
				o.push(Case::plain(Op::Rev, Form::Nat, v.to_vec()));
			}),
			"C14" => self.exhaust(if th { 7 } else { 6 }, of, |v, o| {
				o.push(Case::plain(Op::Cached, Form::Key, v.to_vec()));
				o.push(Case::plain(Op::PCached, Form::Key, v.to_vec()));
			}),
			_ => {}
		}
	}

	/// One item of the campaign.
	pub fn step(&mut self, i: u64) {
		self.item = i;
		self.beat();
		let prop = self.prop.clone();
		let pn: u64 = prop[1..].parse().unwrap();
		let mut rng = Rng::new(mix(self.seed ^ pn << 48) ^ i.wrapping_mul(0x1234_5678_9ABC_DEF1));
		let r = &mut rng;
		let wide = match prop.as_str() {
			"C05" => Some("sel"),
			"C06" => Some("many"),
			"C07" if Op::PMany.available() => Some("pmany"),
			"C11" => Some("find"),
			"C13" => Some("test"),
			"C16" => Some("calls"),
			_ => None,
		};
		if let (Some(w), true) = (wide, r.chance(1, 40)) {
			return crate::big::play(self, r, w);
		}
		match prop.as_str() {
			"C01" => self.sorts(r, Op::Sort, i),
			"C02" => self.sorts(r, Op::Unst, i),
			"C03" => self.sorts(r, Op::PSort, i),
			"C04" => self.sorts(r, Op::PUnst, i),
			"C05" => self.select(r),
			"C06" => self.bulk(r, Op::Many),
			"C07" => self.bulk(r, Op::PMany),
			"C08" => self.panics(r),
			"C09" => self.liars(r),
			"C10" => self.layouts(r),
			"C11" => self.search(r),
			"C12" => self.dedup(r),
			"C13" => self.tests(r),
			"C14" => self.cached(r, i),
			"C15" => self.cost(r, i),
			"C16" => self.adaptive(r),
			"C17" => self.exclusive(r),
			"C18" => self.reproducible(r),
			"C19" => self.payload(r),
			"C20" => self.storage(r),
			"C21" => self.history(r),
			"C22" => self.config(r, i),
			_ => unreachable!(),
		}
	}

	pub fn scenario(&self, r: &mut Rng, kind: &str) -> Option<Vec<i64>> {
		let v: Vec<&Vec<i64>> = self.scen.iter().filter(|x| x.0 == kind).map(|x| &x.1).collect();
		if v.is_empty() { None } else { Some(v[r.below(v.len())].clone()) }
	}
	/// Input from a scenario of the run-stack model: run lengths in units (negative: strictly descending).
	fn scen_runs(&self, r: &mut Rng) -> Option<Vec<u32>> {
		let mut s = self.scenario(r, "runs")?;
		let long = r.range(100, 600) as i64;
		let unit = r.pick(&[1i64, 3, 9, 10, 10, 10, 11, 12, 13, 20, 21, 25, 40, 1, 3, 9, 10, 10, 10, 11, 12, 13, 20, 25, 40, long]);
		let signs = r.below(3);
		for l in s.iter_mut() {
			*l *= unit;
			if unit >= 10 && r.chance(1, 6) {
				*l += r.below(unit as usize) as i64;
			}
			if signs == 1 && r.chance(1, 3) || signs == 2 && r.chance(2, 3) {
				*l = -*l;
			}
		}
		if r.chance(1, 4) {
			// found from the other end
			s.reverse();
		}
		Some(runs_of(r, &s))
	}
	/// Input from a deep scenario of the run-stack model: exact lengths.
	fn scen_deep(&self, r: &mut Rng) -> Option<Vec<u32>> {
		let mut s = self.scenario(r, "deep")?;
		let signs = r.below(3);
		for l in s.iter_mut() {
			if signs == 1 && r.chance(1, 3) || signs == 2 {
				*l = -*l;
			}
		}
		if r.chance(1, 3) {
			s.truncate(r.range(3, s.len()));
		}
		Some(runs_of(r, &s))
	}
	/// Input from a scenario of one of the small models of loops: signs of neighbours drawn out, elements equal to the
	/// pivot or greater, a few elements out of place.
	fn scen_shape(&self, r: &mut Rng) -> Option<Vec<u32>> {
		let unit = r.pick(&[0usize, 0, 1, 2, 5, 8, 9, 10, 11, 12, 20, 43, 64, 128, 129]);
		let len = |r: &mut Rng| if unit == 0 { r.pick(&[1usize, 2, 3, 8, 9, 10, 11, 12, 19, 20, 21, 40, 64, 100]) } else { unit };
		let mut out: Vec<i64> = vec![];
		if let (true, Some(s)) = (r.chance(1, 2), self.scenario(r, "signs")) {
			let mut x = 0i64;
			if r.chance(1, 4) {
				for _ in 0..r.below(40) {
					out.push(r.below(6) as i64);
				}
			}
			out.push(x);
			for d in s {
				for _ in 0..len(r) {
					x += d;
					out.push(x);
				}
			}
			if r.chance(1, 4) {
				for _ in 0..r.below(40) {
					out.push(x + r.below(6) as i64 - 3);
				}
			}
		} else if let (true, Some(s)) = (r.chance(1, 2), self.scenario(r, "equal")) {
			let m = r.pick(&[1usize, 2, 1000]);
			for g in s {
				for _ in 0..len(r) {
					out.push(if g == 0 { 0 } else { 1 + r.below(m) as i64 });
				}
			}
			let n = out.len();
			if n >= 8 && r.chance(3, 4) {
				for q in 1..4 {
					for d in 0..3 {
						out[n / 4 * q + d - 1] = 0;
					}
				}
			}
		} else if let Some(s) = self.scenario(r, "near") {
			// three pairs out of order are dealt with first, then the scenario is met
			let n = r.range(50, 300);
			let w = r.pick(&[0usize, 0, 1, 5]);
			out = (0..n as i64).map(|i| if w == 0 { 10 * i } else { 10 * (i / w as i64) }).collect();
			let at = if r.chance(1, 2) { n - s.len() } else { r.range(13, n - s.len()) };
			let base = out[at];
			for (j, x) in s.iter().enumerate() {
				out[at + j] = base + x - if r.chance(1, 8) { 100 } else { 0 };
			}
			for j in 0..r.pick(&[0usize, 2, 3, 3, 3, 4]) {
				out.swap(4 * j, 4 * j + 1);
			}
		} else {
			return None;
		}
		let min = *out.iter().min()?;
		Some(out.iter().map(|x| (x - min) as u32).collect())
	}
	/// Input from a scenario of the block-partition model: counts of low and high elements, in turn.
	fn scen_blocks(&self, r: &mut Rng) -> Option<Vec<u32>> {
		let s = self.scenario(r, "blocks")?;
		let mut out = vec![];
		let unit = r.pick(&[1i64, 16, 43, 64, 64, 64, 64, 64, 65]);
		let jitter = r.chance(1, 3);
		let n: usize = s.iter().map(|x| (x.unsigned_abs() as i64 * unit) as usize).sum();
		let dup = r.chance(1, 3);
		for x in s {
			let mut l = x.abs() * unit;
			if jitter {
				l += r.below(3) as i64 - 1;
			}
			for _ in 0..l {
				let v = if dup { r.below(2) } else { r.below(n + 1) } as u32;
				out.push(if x < 0 { v } else { n as u32 + 3 + v });
			}
		}
		// the places pivots are chosen from hold what separates low from high
		let len = out.len();
		if len >= 8 && r.chance(3, 4) {
			let p = n as u32 + 2;
			for q in 1..4 {
				let a = len / 4 * q;
				out[a] = p;
				if len >= 50 {
					out[a - 1] = p;
					out[a + 1] = p;
				}
			}
		}
		Some(out)
	}
	/// Input from a scenario of the fork-join model: per chunk of 2000: 0 unordered, 1 non-descending, 2 strictly
	/// descending; the tens: its first element against the last one before (1 less, 2 equal, 3 greater).
	fn scen_chunks(&self, r: &mut Rng) -> Option<Vec<u32>> {
		let s = self.scenario(r, "chunks")?;
		let mut out: Vec<i64> = vec![];
		let last = s.len() - 1;
		let m = match r.below(4) {
			0 => 3,
			1 => 40,
			2 => 3000,
			_ => 1_000_000,
		};
		let near = r.chance(2, 3);
		for (j, k) in s.iter().enumerate() {
			let len = if j == last { r.pick(&[1usize, 2, 9, 10, 11, 20, 21, 1000, 1999, 2000]) } else { 2000 };
			let mut v: Vec<i64> = (0..len).map(|_| r.below(m) as i64).collect();
			match k % 10 {
				1 => v.sort_unstable(),
				2 => {
					v.sort_unstable();
					for i in 1..len {
						if v[i] <= v[i - 1] {
							v[i] = v[i - 1] + 1;
						}
					}
					v.reverse();
				}
				_ => {}
			}
			if let Some(&p) = out.last() {
				let far = if near { 1 } else { 1 + r.below(m) as i64 };
				let d = match k / 10 {
					1 => p - far,
					2 => p,
					_ => p + far,
				} - v[0];
				v.iter_mut().for_each(|x| *x += d);
			}
			out.extend(v);
		}
		let min = *out.iter().min().unwrap();
		Some(out.iter().map(|x| (x - min) as u32).collect())
	}

	fn sorts(&mut self, r: &mut Rng, op: Op, i: u64) {
		if !op.available() {
			return;
		}
		let th = self.tier == Tier::Thorough;
		let par = op.parallel();
		let max = match (par, th) {
			(true, false) => 12_000,
			(true, true) => 60_000,
			(false, false) => 6_000,
			(false, true) => 40_000,
		};
		let n = if par && r.chance(2, 3) { g::par_size(r, max) } else { g::size(r, max) };
		let n = g::occ(r, n, 140_000);
		let f = form(r, op);
		let mut c = match r.below(12) {
			0..=1 => {
				let mut c = dress(r, op, f, vec![0; n.min(4000)]);
				c.mode = self.advm(r, n);
				if f == Form::Key {
					c.form = Form::By;
				}
				if par {
					c.perturb = 0;
				}
				c
			}
			2..=3 => match if r.chance(1, 3) {
				self.scen_shape(r)
			} else if op.stable() {
				if op == Op::Sort && i % 16 == 3 { self.scen_deep(r) } else { self.scen_runs(r) }
			} else {
				self.scen_blocks(r)
			} {
				Some(v) => dress(r, op, f, v),
				None => random(r, op, n),
			},
			4..=5 if par && op.stable() => match self.scen_chunks(r) {
				Some(v) => dress(r, op, f, v),
				None => random(r, op, n),
			},
			_ => {
				let v = g::pattern(r, n);
				dress(r, op, f, v)
			}
		};
		if par && i % 4 != 0 {
			c.perturb = if c.n() > 1500 { c.perturb } else { 0 };
		}
		if c.op.sorts() && r.chance(1, 60) && c.n() > 0 && !c.mode.adaptive() {
			c.ty = Ty::Z;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		let o = self.run_entail(&c);
		// An adversary's input again with the other forms, as plain values.
		if c.mode.adaptive() && o.status == Status::Returned {
			let mut d = c.clone();
			d.mode = Mode::Cons;
			d.ranks = o.ranks.clone();
			d.form = r.pick(&[Form::Nat, Form::Key, Form::By]);
			self.run(&d);
		}
	}

	fn select(&mut self, r: &mut Rng) {
		let th = self.tier == Tier::Thorough;
		let n = g::size(r, if th { 30_000 } else { 5_000 });
		let n = g::occ(r, n, 200_000);
		let op = Op::Sel;
		let f = form(r, op);
		let mut c = match r.below(10) {
			0..=2 => {
				let mut c = dress(r, op, f, vec![0; n]);
				c.mode = self.advm(r, n);
				if f == Form::Key {
					c.form = Form::By;
				}
				c
			}
			3 => match if r.chance(1, 3) { self.scen_shape(r) } else { self.scen_blocks(r) } {
				Some(v) => dress(r, op, f, v),
				None => random(r, op, n),
			},
			_ => random(r, op, n),
		};
		if r.chance(1, 25) {
			c.k = c.n() + r.below(3);
			if r.chance(1, 4) {
				c.k = usize::MAX;
			}
		}
		if r.chance(1, 40) {
			c.ty = Ty::Z;
			c.mode = Mode::Cons;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		let o = self.run_entail(&c);
		if c.mode.adaptive() && o.status == Status::Returned {
			let mut d = c.clone();
			d.mode = Mode::Cons;
			d.ranks = o.ranks.clone();
			d.form = r.pick(&[Form::Nat, Form::Key, Form::By]);
			self.run(&d);
			if r.chance(1, 2) {
				d.k = r.below(c.n().max(1));
				self.run(&d);
			}
		}
	}

	fn bulk(&mut self, r: &mut Rng, op: Op) {
		if !op.available() {
			return;
		}
		let th = self.tier == Tier::Thorough;
		let n = if op.parallel() && r.chance(1, 2) {
			g::par_size(r, if th { 40_000 } else { 9_000 })
		} else {
			g::size(r, if th { 20_000 } else { 3_000 })
		};
		let n = g::occ(r, n, 100_000);
		let mut c = random(r, op, n);
		if r.chance(1, 6) && c.form != Form::Key {
			c.mode = self.advm(r, n);
			c.perturb = 0;
		}
		if r.chance(1, 5) {
			if let Some(s) = self.scenario(r, "bulk") {
				// shape of the index tree: differences between ranks
				let mut x = -1i64;
				let mut v = vec![];
				let unit = r.pick(&[1i64, 1, 7, 100, 700, 2001, (c.n() as i64 / 8).max(1)]);
				for d in s {
					x += d * unit;
					v.push(x as usize);
				}
				if v.last().is_some_and(|x| *x < c.n()) {
					c.idx = v;
					c.spare = 0;
				}
			}
		}
		if r.chance(1, 12) {
			c.idx = g::bad_list(r, c.n());
		}
		if op == Op::Many && r.chance(1, 16) {
			c.ext = r.below(c.idx.len() + 1) as u64;
		}
		if r.chance(1, 40) {
			c.ty = Ty::Z;
			c.mode = Mode::Cons;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		let o = self.run_entail(&c);
		if c.mode.adaptive() && o.status == Status::Returned {
			let mut d = c.clone();
			d.mode = Mode::Cons;
			d.ranks = o.ranks.clone();
			d.form = r.pick(&[Form::Nat, Form::Key]);
			self.run(&d);
		}
	}

	fn any_op(&self, r: &mut Rng) -> Op {
		let all = avail(&[
			Op::Sort,
			Op::Sort,
			Op::Cached,
			Op::Unst,
			Op::Unst,
			Op::PSort,
			Op::PSort,
			Op::PCached,
			Op::PUnst,
			Op::Sel,
			Op::Sel,
			Op::Many,
			Op::PMany,
			Op::IsSorted,
			Op::Contains,
			Op::Bs,
			Op::Pp,
			Op::Dedup,
			Op::Dedup,
			Op::Rev,
		]);
		r.pick(&all)
	}

	/// A panic at every (or many) callback indices of an operation.
	fn panics(&mut self, r: &mut Rng) {
		let mut op = self.any_op(r);
		if op == Op::Rev || (op.readonly() && r.chance(4, 5)) {
			op = r.pick(&avail(&[Op::Sort, Op::Unst, Op::Sel, Op::Dedup]));
		}
		let par = op.parallel();
		let n = if par && r.chance(2, 3) {
			g::par_size(r, 9000)
		} else {
			match r.below(10) {
				0..=2 => r.range(0, 24),
				3..=6 => g::size(r, 160),
				_ => g::size(r, if self.tier == Tier::Thorough { 3000 } else { 900 }),
			}
		};
		let ranks = if r.chance(1, 6) {
			if par {
				self.scen_chunks(r)
			} else if r.chance(1, 12) {
				op = Op::Sort;
				self.scen_deep(r)
			} else if r.chance(1, 3) {
				self.scen_shape(r)
			} else {
				self.scen_runs(r)
			}
			.unwrap_or_else(|| g::pattern(r, n))
		} else {
			g::pattern(r, n)
		};
		let f = form(r, op);
		let mut c = dress(r, op, f, ranks);
		c.ty = match r.below(5) {
			0..=2 if op != Op::PCached => Ty::D,
			3 => Ty::L,
			_ => Ty::S,
		};
		c.ledger = c.owner != Owner::Lane;
		if c.op == Op::Dedup && f != Form::Key && r.chance(1, 3) {
			c.eq_kind = r.range(1, 7) as u8;
			c.detail = true;
		}
		if !par && f != Form::Key && op.sorts() | matches!(op, Op::Sel) && r.chance(1, 8) {
			c.mode = self.advm(r, n);
		}
		if r.chance(1, 10) && f != Form::Key && !op.readonly() && c.n() <= liar_max(op) {
			c.mode = Mode::Liar { kind: r.below(15) as u8, from: r.below(50) as u64 };
		}
		let o = self.run(&c);
		if op == Op::Many && o.status == Status::Returned {
			for _ in 0..4 {
				let mut d = c.clone();
				d.ext = r.below(c.idx.len() + 1) as u64;
				self.run(&d);
			}
		}
		if o.status != Status::Returned || o.calls == 0 {
			return;
		}
		let t = o.calls;
		let mut at: Vec<u64> = vec![];
		let budget = if par && c.n() > 1500 { 4 } else if c.n() > 300 { 12 } else { 40 };
		if t <= budget {
			at.extend(0..t);
		} else {
			at.push(t - 1);
			at.push(0);
			for _ in 0..budget {
				at.push(r.next() % t);
			}
			// around the end, where everything is merged or returned
			for j in 0..budget / 4 {
				at.push(t.saturating_sub(2 + j));
			}
		}
		for a in at {
			let mut d = c.clone();
			d.panic_at = a;
			d.panic_len = match r.below(4) {
				0..=1 => 1,
				2 => r.range(2, 40) as u64,
				_ => u64::MAX / 2,
			};
			if self.full() {
				return;
			}
			let o = self.run(&d);
			// It can be sorted again afterwards: the contract from the state the panic left.
			if o.status == Status::Injected && r.chance(1, 6) && c.op != Op::PCached && c.owner == Owner::View {
				let mut e = c.clone();
				e.mode = Mode::Cons;
				e.mem = o.post.clone();
				e.op = Op::Unst;
				e.form = Form::By;
				e.eq_kind = 0;
				e.detail = false;
				if monitor::broken(&d, &o, monitor::bit("PERM")) == 0 {
					self.run(&e);
				}
			}
		}
	}

	fn liars(&mut self, r: &mut Rng) {
		let mut op = self.any_op(r);
		if op == Op::Rev {
			op = Op::Unst;
		}
		let th = self.tier == Tier::Thorough;
		let n = if op.parallel() && r.chance(1, 2) { g::par_size(r, 8000) } else { g::size(r, if th { 20_000 } else { 3000 }) };
		let mut c = random(r, op, n.min(liar_max(op)));
		let n = c.n();
		if op == Op::Dedup && c.form != Form::Key {
			c.eq_kind = r.range(1, 7) as u8;
			c.detail = true;
		} else {
			c.mode = Mode::Liar {
				kind: r.below(15) as u8,
				from: if r.chance(1, 2) { 0 } else { r.below(4 * n + 2) as u64 },
			};
		}
		if c.op.readonly() && c.op == Op::Contains {
			c.mode = Mode::Cons;
			c.eq_kind = 0;
		}
		if matches!(op, Op::Cached | Op::PCached) {
			c.kw = 4;
		}
		c.ledger = c.owner != Owner::Lane && r.chance(1, 4);
		if r.chance(1, 2) && c.ty == Ty::S && c.op != Op::PCached {
			c.ty = Ty::D;
		}
		self.run(&c);
	}

	fn layouts(&mut self, r: &mut Rng) {
		let op = self.any_op(r);
		let n = if op.parallel() && r.chance(1, 2) { g::par_size(r, 7000) } else { g::size(r, 2000) };
		let n = g::occ(r, n, 70_000);
		let f = form(r, op);
		let mut ranks = g::pattern(r, n);
		if matches!(op, Op::Bs | Op::Pp) {
			ranks.sort_unstable();
		}
		let mut base = dress(r, op, f, ranks.clone());
		base.ty = Ty::S;
		// plain version of the same call
		let mut plain = base.clone();
		let vr: Vec<u32> = (0..n).map(|i| base.ranks[base.view.pos(i) as usize]).collect();
		plain.ranks = vr;
		plain.owner = Owner::Owned;
		plain.nb = n;
		plain.view = Desc { off: 0, st: 1, n: n as i64 };
		plain.idx_st = 1;
		let mut group = vec![plain.clone(), base];
		for _ in 0..2 {
			let mut c = plain.clone();
			c.ty = g::ty(r, n);
			if c.op == Op::PCached && c.ty == Ty::D {
				c.ty = Ty::L;
			}
			if !c.op.parallel() && c.ty == Ty::S && r.chance(1, 4) {
				g::shared(r, &mut c);
			} else {
				g::layout(r, &mut c);
			}
			c.idx_st = r.pick(&[1i64, 2, -1, -3]);
			group.push(c);
		}
		if op == Op::Dedup && f == Form::By && r.chance(1, 3) {
			// equality relations need identities; they differ between layouts, so not a group
			for mut c in group {
				c.eq_kind = r.range(1, 7) as u8;
				c.detail = true;
				self.run(&c);
			}
			return;
		}
		self.same(&group);
		// read-only operations on a broadcast view
		if n > 1 && r.chance(1, 5) {
			let op = r.pick(&[Op::IsSorted, Op::Contains, Op::Bs, Op::Pp]);
			let f = form(r, op);
			let mut c = Case::plain(op, f, (0..5).collect());
			c.owner = Owner::Bcast;
			c.view = Desc { off: r.below(5) as i64, st: 0, n: r.range(2, 40) as i64 };
			c.target = r.below(6) as i64;
			self.run(&c);
		}
	}

	fn search(&mut self, r: &mut Rng) {
		let th = self.tier == Tier::Thorough;
		let op = r.pick(&[Op::Bs, Op::Bs, Op::Bs, Op::Pp]);
		let n = if r.chance(1, 40) { r.range(1000, if th { 400_000 } else { 60_000 }) } else { g::size(r, 3000) };
		let f = form(r, op);
		let mut v = g::pattern(r, n);
		let unsorted = r.chance(1, 12);
		if !unsorted {
			v.sort_unstable();
		}
		let c = dress(r, op, f, v.clone());
		self.run(&c);
		for _ in 0..6 {
			let mut d = c.clone();
			d.target = target(r, &v);
			self.run(&d);
		}
		if r.chance(1, 8) {
			let mut d = c.clone();
			d.mode = Mode::Liar { kind: r.below(15) as u8, from: r.below(4) as u64 };
			self.run(&d);
		}
		if r.chance(1, 10) {
			let mut d = Case::plain(op, f, vec![0; n]);
			d.ty = Ty::Z;
			self.run(&d);
		}
	}

	fn dedup(&mut self, r: &mut Rng) {
		let n = g::size(r, 4000);
		let n = g::occ(r, n, 140_000);
		let f = form(r, Op::Dedup);
		let ranks = if let (true, Some(s)) = (r.chance(1, 3), self.scenario(r, "dedup")) {
			// the answers of a behaviour of the model, each of them some times
			let u = r.pick(&[1usize, 1, 2, 3, 40, 130, 255, 256, 257]);
			let mut v = vec![r.below(3) as u32];
			for a in s {
				for _ in 0..u {
					let l = *v.last().unwrap();
					v.push(if a == 1 { l } else { (l + 1 + r.below(3) as u32) % 5 });
				}
			}
			v
		} else if r.chance(1, 2) {
			// runs of repeats
			let mut v = vec![];
			let (a, b) = (r.range(1, 6), r.range(2, 6));
			while v.len() < n {
				let l = 1 + r.below(a);
				let x = r.below(b) as u32;
				v.extend(std::iter::repeat_n(x, l));
			}
			v.truncate(n);
			v
		} else {
			g::pattern(r, n)
		};
		let mut c = dress(r, Op::Dedup, f, ranks);
		if r.chance(1, 3) {
			c.ty = Ty::D;
			c.touch = true;
			if c.owner != Owner::Lane {
				c.owner = Owner::View;
			}
		}
		c.ledger = c.owner != Owner::Lane;
		c.detail = true;
		if f != Form::Key {
			c.eq_kind = if r.chance(1, 2) { 0 } else { r.range(1, 7) as u8 };
		}
		if r.chance(1, 30) {
			c.ty = Ty::Z;
			c.touch = false;
			c.eq_kind = 0;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		let o = self.run(&c);
		if o.calls > 0 && r.chance(1, 5) {
			c.panic_at = r.next() % o.calls;
			c.panic_len = 1;
			self.run(&c);
		}
	}

	fn tests(&mut self, r: &mut Rng) {
		let op = r.pick(&[Op::IsSorted, Op::IsSorted, Op::Contains, Op::Rev]);
		let n = g::size(r, 5000);
		let n = g::occ(r, n, 140_000);
		let f = form(r, op);
		let mut v = match r.below(4) {
			0 => g::pattern(r, n),
			1 => {
				let mut v = g::pattern(r, n);
				v.sort_unstable();
				v
			}
			_ => {
				// sorted but for one place
				let mut v = g::pattern(r, n);
				v.iter_mut().for_each(|x| *x = 2 * *x + 2);
				v.sort_unstable();
				if n > 0 {
					let i = { let xs = [0, n - 1, n / 2, r.below(n), r.below(n)]; r.pick(&xs) };
					if r.chance(1, 2) {
						v[i] = v[i].saturating_sub(1 + r.below(3) as u32);
					} else {
						v[i] += 1;
					}
				}
				v
			}
		};
		if op == Op::IsSorted && r.chance(1, 3) && n > 0 {
			for _ in 0..r.range(1, 3) {
				let i = { let xs = [0, n - 1, r.below(n)]; r.pick(&xs) };
				v[i] = NAN;
			}
		}
		if op == Op::Contains && n > 0 && r.chance(1, 2) {
			// a unique occurrence somewhere
			v.iter_mut().for_each(|x| *x = *x * 2);
			let i = { let xs = [0, n - 1, r.below(n), r.below(n)]; r.pick(&xs) };
			v[i] = 7;
		}
		let unequal = op == Op::Contains && n > 0 && r.chance(1, 8);
		if unequal {
			for _ in 0..r.range(1, 3) {
				v[r.below(n)] = NAN;
			}
		}
		let mut c = dress(r, op, f, v);
		if op == Op::Contains && r.chance(1, 2) {
			c.target = 7;
		}
		if unequal {
			c.target = NAN as i64;
		}
		if op == Op::IsSorted && f == Form::By && n <= 200 && r.chance(1, 3) {
			c.eq_kind = r.range(1, 7) as u8;
			c.detail = true;
		}
		if r.chance(1, 30) {
			c.ty = Ty::Z;
			c.eq_kind = 0;
			c.ranks.iter_mut().for_each(|x| *x = 0);
			if op == Op::Contains {
				c.ty = Ty::S;
			}
		}
		self.run(&c);
	}

	fn cached(&mut self, r: &mut Rng, i: u64) {
		let th = self.tier == Tier::Thorough;
		let ops = avail(&[Op::Cached, Op::Cached, Op::PCached]);
		if ops.is_empty() {
			return;
		}
		let op = r.pick(&ops);
		let n = if i % 200 < 4 {
			65_530 + r.below(12)
		} else if i % 200 == 4 && th {
			r.range(66_000, 140_000)
		} else {
			match r.below(8) {
				0..=1 => 250 + r.below(12),
				2 => g::size(r, 30),
				3 => r.range(240, 600),
				_ => g::size(r, 5000),
			}
		};
		let v = g::pattern(r, n);
		let mut c = dress(r, op, Form::Key, v);
		c.kw = r.pick(&[0, 1, 2, 4, 4, 8, 24, 48, 128]);
		match c.kw {
			0 => c.ranks.iter_mut().for_each(|x| *x = 0),
			1 => c.ranks.iter_mut().for_each(|x| *x &= 0xFF),
			2 => c.ranks.iter_mut().for_each(|x| *x &= 0xFFFF),
			_ => {}
		}
		if n > 20_000 {
			c.ty = Ty::S;
		}
		if r.chance(1, 40) && n > 0 {
			c.ty = Ty::Z;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		if let (true, Some(s)) = (r.chance(1, 6), self.scenario(r, "cycles")) {
			// ranks that realise a permutation with the given cycles
			let n: usize = s.iter().map(|x| *x as usize).sum();
			let mut perm: Vec<u32> = (0..n as u32).collect();
			let mut ids: Vec<usize> = (0..n).collect();
			r.shuffle(&mut ids);
			let mut at = 0;
			for l in s {
				let l = l as usize;
				for j in 0..l {
					perm[ids[at + j]] = ids[at + (j + 1) % l] as u32;
				}
				at += l;
			}
			let kw = if n < 250 { 1 } else { 2 };
			c = dress(r, op, Form::Key, perm);
			c.kw = kw;
			if c.ty == Ty::Z {
				c.ty = Ty::S;
			}
		}
		self.run(&c);
	}

	fn advm(&self, r: &mut Rng, n: usize) -> Mode {
		if r.chance(1, 4) { self.guide(r) } else { advm(r, n) }
	}
	/// An adversary that places the pivots as a behaviour of the model did, or as chance has it.
	fn guide(&self, r: &mut Rng) -> Mode {
		let (mut script, mut len) = (r.next() & ((1 << 63) - 1), r.range(1, 21));
		if r.chance(1, 4) {
			// long stretches of two kinds
			let (a, b, k) = (r.below(8) as u64, r.below(8) as u64, r.range(1, 20));
			len = 21;
			script = (0..21).fold(0, |s, j| s | (if j < k { a } else { b }) << (3 * j));
		}
		if let (true, Some(s)) = (r.chance(1, 2), self.scenario(r, "turns")) {
			len = s.len().min(21);
			script = s.iter().take(21).enumerate().fold(0, |t, (j, x)| t | (*x as u64 & 7) << (3 * j));
		}
		Mode::Guide { script, len: len as u8, freeze: u64::MAX }
	}
	fn cost(&mut self, r: &mut Rng, i: u64) {
		let th = self.tier == Tier::Thorough;
		let ops = avail(&[
			Op::Unst,
			Op::Sel,
			Op::Sort,
			Op::Sel,
			Op::Unst,
			Op::Many,
			Op::PUnst,
			Op::PSort,
			Op::PMany,
			Op::Cached,
			Op::Sel,
			Op::PCached,
		]);
		let op = ops[(i as usize / 8 + i as usize) % ops.len()];
		let big = if th { 100_000 } else { 16_000 };
		let n = match r.below(4) {
			0 => r.range(100, 2000),
			1 => r.range(2000, 6000),
			// beyond the last of the sizes at which selection changes its sample
			_ if r.chance(1, 8) && op == Op::Sel => r.range(131_073, 170_000),
			_ => r.range(4000, big),
		};
		let f = match op {
			Op::Cached | Op::PCached => Form::Key,
			_ => Form::By,
		};
		let mut c = Case::plain(op, f, vec![0; n]);
		c.seed = r.next() & 0xFFFF_FFFF;
		match op {
			Op::Sel => c.k = { let xs = [0, n / 2, n - 1, n / 3, r.below(n), r.below(n), r.below(n)]; r.pick(&xs) },
			Op::Many | Op::PMany => {
				c.idx = match r.below(5) {
					// dense: near the number of elements
					0 => (0..n).collect(),
					1 => {
						let s = r.range(2, 8);
						(0..n).step_by(s).collect()
					}
					_ => g::ranks_list(r, n),
				};
				c.spare = c.idx.len();
			}
			_ => {}
		}
		if op.parallel() {
			c.pool = pool(r);
		}
		if f == Form::By && r.chance(3, 4) {
			c.mode = Mode::Adv { freeze: u64::MAX, flip: r.chance(1, 2), dup: 0 };
			if r.chance(1, 4) {
				c.mode = self.advm(r, n);
			} else if r.chance(1, 2) {
				c.mode = self.guide(r);
			}
		} else {
			c.ranks = match r.below(6) {
				0 if op == Op::Sort && r.chance(1, 8) => self.scen_deep(r),
				0 if r.chance(1, 3) => self.scen_shape(r),
				0..=1 if op.stable() => self.scen_runs(r),
				2 if op == Op::PSort => self.scen_chunks(r),
				_ => None,
			}
			.unwrap_or_else(|| g::pattern(r, n));
			if c.ranks.len() != n {
				let (seed, pool) = (c.seed, c.pool);
				c = Case::plain(op, f, c.ranks);
				(c.seed, c.pool) = (seed, pool);
			}
			if r.chance(1, 2) {
				c.form = if f == Form::By { r.pick(&[Form::By, Form::Key]) } else { f };
			}
		}
		c.kw = 4;
		let o = self.run(&c);
		let cm = (o.ncmp + o.nkcmp) as f64;
		let nf = (c.n() as f64).max(2.0);
		match op {
			_ if op.sorts() => self.worst(&format!("{} comparisons/(n log2 n)", op.name()), cm / (nf * nf.log2())),
			Op::Sel => self.worst("sel comparisons/n", cm / nf),
			_ => self.worst(
				&format!("{} comparisons/(n*(log2(m+1)+1))", op.name()),
				cm / (nf * ((c.idx.len() as f64 + 1.0).log2() + 1.0)),
			),
		}
		if monitor::stack_known(&c) {
			self.worst(&format!("{} stack bytes", op.name()), o.stack as f64);
		}
		if c.mode.adaptive() && r.chance(1, 2) {
			let mut d = c.clone();
			d.mode = Mode::Cons;
			d.ranks = o.ranks.clone();
			d.form = r.pick(&[Form::Nat, Form::Key]);
			self.run(&d);
		}
	}

	fn adaptive(&mut self, r: &mut Rng) {
		let th = self.tier == Tier::Thorough;
		match r.below(4) {
			0..=1 => {
				let ops = avail(&[Op::Sort, Op::Unst, Op::PSort, Op::PUnst, Op::Cached, Op::PCached]);
				let op = r.pick(&ops);
				let max = if th { 60_000 } else { 12_000 };
				let n = match r.below(4) {
					0 => g::size(r, 2000),
					1 => r.range(1000, 4000),
					_ => r.range(3000, max),
				};
				let shape = match op {
					Op::Unst | Op::PUnst => r.below(3),
					Op::Sort | Op::Cached | Op::PSort => r.pick(&[0, 1, 3, 3]),
					_ => r.below(2),
				};
				let v: Vec<u32> = match shape {
					0 => {
						let d = r.pick(&[1usize, 1, 2, 7, 1000, 1_000_000]);
						(0..n).map(|i| (i / d) as u32).collect()
					}
					1 => (0..n).map(|i| (n - i) as u32).collect(),
					2 => {
						let d = r.range(1, 8);
						(0..n).map(|_| r.below(d) as u32).collect()
					}
					_ => {
						let c = { let xs = [n / 2, r.below(n + 1), r.below(n + 1), n - n.min(9), n.min(9)]; r.pick(&xs) };
						let m = r.pick(&[n + 1, n / 8 + 2, 1 << 30]);
						let mut v: Vec<u32> = (0..n).map(|_| r.below(m) as u32).collect();
						v[..c].sort_unstable();
						v[c..].sort_unstable();
						v
					}
				};
				let f = form(r, op);
				let mut c = dress(r, op, f, v);
				if matches!(op, Op::Cached | Op::PCached) {
					c.kw = 4;
				}
				c.perturb = 0;
				let o = self.run(&c);
				if n > 500 {
					let k = ["ascending", "descending", "few values", "two runs"][shape];
					self.worst(&format!("{} {k}: comparisons/n", op.name()), (o.ncmp + o.nkcmp) as f64 / n as f64);
				}
			}
			2 => {
				let op = r.pick(&[Op::Bs, Op::Pp, Op::IsSorted, Op::Contains]);
				let n = if r.chance(1, 20) { r.range(1000, 60_000) } else { g::size(r, 4000) };
				let f = form(r, op);
				let mut v = g::pattern(r, n);
				if r.chance(2, 3) {
					v.sort_unstable();
					if op == Op::IsSorted && n > 1 && r.chance(2, 3) {
						let i = r.below(n);
						v[i] = 0;
					}
				}
				let mut c = dress(r, op, f, v);
				if r.chance(1, 10) && matches!(op, Op::Bs | Op::Pp) {
					c.mode = Mode::Liar { kind: r.below(15) as u8, from: 0 };
				}
				let o = self.run(&c);
				if matches!(op, Op::Bs | Op::Pp) && n > 1 {
					self.worst("search callbacks - log2 n", o.calls as f64 - (n as f64).log2());
				}
			}
			_ => {
				let n = g::size(r, 4000);
				let mut c = random(r, Op::Dedup, n);
				if c.form != Form::Key {
					c.eq_kind = r.below(8) as u8;
				}
				self.run(&c);
			}
		}
	}

	fn exclusive(&mut self, r: &mut Rng) {
		let ops = avail(&[Op::PSort, Op::PSort, Op::PUnst, Op::PUnst, Op::PMany, Op::PMany, Op::PCached]);
		if ops.is_empty() {
			return;
		}
		let op = r.pick(&ops);
		let n = g::par_size(r, if self.tier == Tier::Thorough { 40_000 } else { 12_000 });
		let mut c = if op == Op::PSort && r.chance(1, 3) {
			let v = self.scen_chunks(r).unwrap_or_else(|| g::pattern(r, n));
			let f = form(r, op);
			dress(r, op, f, v)
		} else {
			random(r, op, n)
		};
		if op != Op::PCached {
			c.ty = Ty::D;
		}
		c.pool = r.pick(&[2, 3, 4, 4, 8]);
		c.perturb = (r.next() as u32) | 1;
		c.excl = op != Op::PCached;
		if c.form == Form::Key && op != Op::PCached && r.chance(1, 2) {
			c.form = Form::By;
		}
		// Bulk selection has to be longer than 2000 to fork at all.
		if r.chance(1, 12) && c.n() <= liar_max(op).max(2800) {
			c.mode = Mode::Liar { kind: r.below(15) as u8, from: r.below(20_000) as u64 };
		}
		if r.chance(1, 12) {
			c.panic_at = r.below(40_000) as u64;
			c.panic_len = if r.chance(1, 2) { 1 } else { u64::MAX / 2 };
		}
		if op == Op::PMany && r.chance(1, 3) {
			c.idx = (0..c.n()).step_by(r.range(1, 400)).collect();
		}
		if op == Op::PCached {
			// elements shared between threads: reads may overlap
			c.excl = false;
		}
		if self.worker % 4 == 0 && self.samples.is_empty() && c.excl && c.n() <= 2500 {
			c.detail = true;
		}
		self.run(&c);
	}

	fn reproducible(&mut self, r: &mut Rng) {
		let op = self.any_op(r);
		let n = if op.parallel() && r.chance(2, 3) { g::par_size(r, 8000) } else { g::size(r, 3000) };
		let n = g::occ(r, n, 70_000);
		let mut f = form(r, op);
		if f == Form::Key && !matches!(op, Op::Cached | Op::PCached) && r.chance(1, 2) {
			f = Form::By;
		}
		let ranks = g::pattern(r, n);
		let mut a = dress(r, op, f, ranks);
		a.ty = Ty::S;
		a.owner = Owner::Owned;
		let vr: Vec<u32> = (0..a.n()).map(|i| a.ranks[a.view.pos(i) as usize]).collect();
		a.ranks = vr;
		a.nb = n;
		a.view = Desc { off: 0, st: 1, n: n as i64 };
		let mut group = vec![a.clone()];
		for j in 0..3 {
			let mut b = a.clone();
			b.ty = g::ty(r, n);
			if b.op == Op::PCached && b.ty == Ty::D {
				b.ty = Ty::L;
			}
			if j > 0 {
				g::layout(r, &mut b);
			}
			if !matches!(op, Op::Cached | Op::PCached | Op::Pp | Op::Contains | Op::Rev) {
				b.form = r.pick(&[Form::Nat, Form::By, Form::Key]);
			}
			if op.parallel() {
				b.pool = pool(r);
				b.perturb = if r.chance(1, 2) { r.next() as u32 | 1 } else { 0 };
			}
			if matches!(op, Op::Many | Op::PMany) {
				b.prior = r.below(3);
				b.spare = r.below(2) * b.idx.len();
				b.idx_st = r.pick(&[1i64, -1, 2]);
			}
			group.push(b);
			if r.chance(1, 2) {
				// something else in between
				let n2 = r.range(0, 400);
				let o2 = self.any_op(r);
				let x = random(r, o2, n2);
				self.run(&x);
			}
		}
		self.same(&group);
		if a.n() <= 1500 && !matches!(op, Op::Rev) && r.chance(1, 3) {
			// while a callback makes another call; within a callback of another call; next to calls on other threads
			let mut x = a.clone();
			x.nest = Some(inner(r, op));
			self.same(&[a.clone(), x]);
			let n2 = r.range(12, 300);
			let mut w = random(r, Op::Unst, n2);
			if !op.parallel() {
				w.op = r.pick(&[Op::Sort, Op::Unst]);
				if !w.op.available() {
					w.op = Op::Unst;
				}
			}
			w.nest = Some(Box::new(Nest { every: r.pick(&[1, 7, 40]), max: 2, case: a.clone() }));
			let mut ow = self.run(&w);
			let inner: Vec<(Case, Outcome)> = std::mem::take(&mut ow.nested);
			let oa = self.run(&a);
			let (mut cs, mut os): (Vec<Case>, Vec<Outcome>) = inner.into_iter().unzip();
			cs.insert(0, a.clone());
			os.insert(0, oa);
			self.alike(&cs, os);
		}
		if !op.parallel() && a.n() <= 3000 && r.chance(1, 3) {
			let k = r.range(2, 4);
			let mut cs = vec![a.clone(); k];
			for c in cs.iter_mut().skip(2) {
				let n2 = r.range(0, 600);
				let o2 = r.pick(&avail(&[Op::Sort, Op::Unst, Op::Sel, Op::Many, Op::Cached, op]));
				*c = random(r, o2, n2);
			}
			let os = self.together(&cs);
			let alone = self.run(&a);
			let mut os: Vec<Outcome> = os.into_iter().take(2).collect();
			os.push(alone);
			self.alike(&[a.clone(), a.clone(), a.clone()], os);
		}
		if r.chance(1, 4) && f == Form::By && !op.parallel() && op != Op::Dedup && !op.readonly() && a.n() <= liar_max(op) {
			let mut d = a.clone();
			d.mode = Mode::Liar { kind: r.pick(&[4, 7, 11]), from: 0 };
			let mut e = d.clone();
			e.ty = Ty::D;
			self.same(&[d, e]);
		}
	}

	fn payload(&mut self, r: &mut Rng) {
		let ops = avail(&[
			Op::Sort,
			Op::Sort,
			Op::Unst,
			Op::Unst,
			Op::PSort,
			Op::PSort,
			Op::PUnst,
			Op::Sel,
			Op::Sel,
			Op::Many,
			Op::PMany,
			Op::Dedup,
			Op::Cached,
			Op::IsSorted,
			Op::Bs,
		]);
		let op = r.pick(&ops);
		let n = if op.parallel() && r.chance(2, 3) { g::par_size(r, 9000) } else { g::size(r, 3000) };
		let n = g::occ(r, n, 40_000);
		let mut c = random(r, op, n);
		let v = match r.below(12) {
			0 => self.scen_deep(r),
			1..=3 => self.scen_shape(r),
			_ => self.scen_runs(r),
		};
		if let (true, Some(v)) = (op.stable() && r.chance(1, 5), v) {
			let f = form(r, op);
			c = dress(r, op, f, v);
		}
		if !op.parallel() && op != Op::Cached && c.form != Form::Key && r.chance(1, 5) && !op.readonly() && op != Op::Dedup {
			c.mode = self.advm(r, n);
		}
		c.ty = Ty::D;
		c.touch = true;
		if matches!(op, Op::Cached) && c.kw == 2 {
			c.kw = 4;
		}
		if op == Op::Dedup && c.form != Form::Key && r.chance(1, 2) {
			c.eq_kind = r.range(1, 7) as u8;
		}
		if r.chance(1, 10) && c.form != Form::Key && !op.readonly() && op != Op::Dedup && c.n() <= liar_max(op) {
			c.mode = Mode::Liar { kind: r.below(15) as u8, from: 0 };
		}
		let o = self.run(&c);
		if o.calls > 0 && r.chance(1, 2) {
			for _ in 0..3 {
				let mut d = c.clone();
				d.panic_at = r.next() % o.calls;
				d.panic_len = if r.chance(1, 2) { 1 } else { u64::MAX / 2 };
				self.run(&d);
			}
		}
	}

	fn storage(&mut self, r: &mut Rng) {
		let op = self.any_op(r);
		let n = if op.parallel() && r.chance(2, 3) {
			g::par_size(r, 9000)
		} else if op == Op::Sort && r.chance(1, 3) {
			r.range(0, 30)
		} else {
			g::size(r, 4000)
		};
		let n = g::occ(r, n, 70_000);
		let mut c = random(r, op, n);
		if op == Op::Sort && r.chance(1, 3) {
			let v = match r.below(6) {
				0 => self.scen_deep(r),
				1..=2 => self.scen_shape(r),
				_ => self.scen_runs(r),
			};
			if let Some(v) = v {
				let f = form(r, op);
				c = dress(r, op, f, v);
			}
		}
		c.track = true;
		c.ty = match r.below(6) {
			0..=1 => Ty::S,
			2 if op != Op::PCached => Ty::D,
			3..=4 => Ty::L,
			_ => Ty::E3,
		};
		if r.chance(1, 20) && !op.readonly() && op != Op::Rev {
			c.ty = Ty::Z;
			c.ranks.iter_mut().for_each(|x| *x = 0);
		}
		c.spare = c.idx.len();
		if c.form == Form::By && r.chance(1, 8) && !op.parallel() && !op.readonly() && op != Op::Dedup {
			c.mode = self.advm(r, n);
		}
		let o = self.run(&c);
		if o.calls > 0 && r.chance(1, 3) {
			c.panic_at = r.next() % o.calls;
			c.panic_len = 1;
			self.run(&c);
		}
	}

	fn history(&mut self, r: &mut Rng) {
		if r.chance(1, 8) {
			// calls on other arrays from within callbacks, and on other threads
			let op = self.any_op(r);
			let n = if op.parallel() && r.chance(1, 2) { g::par_size(r, 6000) } else { r.range(2, 600) };
			let mut c = random(r, op, n);
			if op != Op::Rev {
				c.nest = Some(inner(r, op));
				c.detail = n <= 300;
			}
			self.run(&c);
			let k = r.range(2, 5);
			let cs: Vec<Case> = (0..k)
				.map(|_| {
					let o2 = r.pick(&avail(&[Op::Sort, Op::Sort, Op::Unst, Op::Sel, Op::Many, Op::Cached, Op::Dedup, Op::Bs]));
					let n2 = r.range(0, 1500);
					random(r, o2, n2)
				})
				.collect();
			self.together(&cs);
			return;
		}
		crate::hist::play(self, r);
	}

	fn config(&mut self, r: &mut Rng, i: u64) {
		let c = corpus(self.seed, i);
		let _ = r;
		if c.op.available() {
			self.run(&c);
		}
	}
}

/// Concatenated runs of the given lengths (negative: strictly descending), none continuing the one before it.
fn runs_of(r: &mut Rng, s: &[i64]) -> Vec<u32> {
	let n: usize = s.iter().map(|x| x.unsigned_abs() as usize).sum();
	let m = match r.below(4) {
		0 => 4,
		1 => n / 3 + 2,
		_ => 3 * n + 1,
	};
	let mut out: Vec<i64> = vec![];
	let mut down = false;
	for &l in s {
		let len = l.unsigned_abs() as usize;
		if len == 0 {
			continue;
		}
		let mut v: Vec<i64> = (0..len).map(|_| r.below(m) as i64).collect();
		v.sort_unstable();
		if l < 0 {
			for i in 1..len {
				if v[i] <= v[i - 1] {
					v[i] = v[i - 1] + 1;
				}
			}
			v.reverse();
		}
		if let Some(&lo) = out.last() {
			let far = r.below(3) as i64;
			let d = if down && v[0] < lo {
				lo + far - v[0]
			} else if !down && v[0] >= lo {
				lo - 1 - far - v[0]
			} else {
				0
			};
			v.iter_mut().for_each(|x| *x += d);
		}
		down = l < 0;
		out.extend(v);
	}
	let min = *out.iter().min().unwrap_or(&0);
	out.iter().map(|x| (x - min) as u32).collect()
}

/// Case i of the corpus every feature configuration must agree on.
pub fn corpus(seed: u64, i: u64) -> Case {
	let mut rng = Rng::new(mix(seed ^ 0x22) ^ i.wrapping_mul(0x9E37_79B9_97F4_A7C1));
	let r = &mut rng;
	let ops: Vec<Op> = OPS.iter().map(|x| x.0).collect();
	let mut op = ops[i as usize % ops.len()];
	if op.parallel() && r.chance(3, 4) {
		op = r.pick(&[Op::Unst, Op::Sel, Op::Many, Op::Sort, Op::Many]);
	}
	let n = g::size(r, 3000);
	let mut c = random(r, op, n);
	c.perturb = 0;
	match r.below(10) {
		0 => {
			if matches!(op, Op::Many | Op::PMany) {
				c.idx = g::bad_list(r, n);
			}
			if op == Op::Sel {
				c.k = n + r.below(2);
			}
		}
		1 if !op.parallel() => {
			c.panic_at = r.below(2 * n + 1) as u64;
			c.panic_len = 1;
		}
		2 if !op.parallel() && c.form != Form::Key && op != Op::Dedup && n <= liar_max(op) => {
			c.mode = Mode::Liar { kind: r.below(15) as u8, from: 0 };
		}
		3 if c.form == Form::By && !op.parallel() && op != Op::Dedup && !op.readonly() => {
			c.mode = advm(r, n);
		}
		_ => {}
	}
	c
}

pub fn digest(c: &Case, o: &Outcome) -> u64 {
	let mut h = DefaultHasher::new();
	logical(c, o).hash(&mut h);
	h.finish()
}
