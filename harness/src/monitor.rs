//! The clauses of Slice1.tla, evaluated fast. A filter only: what it flags is judged by TLC.
use crate::case::*;
use crate::ctx::{Mode, NAN};
use crate::exec::*;

pub type Clauses = u32;
pub const NAMES: [&str; 18] = [
	"PANIC", "PERM", "ORDER", "RESULT", "FRAME", "SHOWN", "DROPS", "PAYLOAD", "EXCL", "COST", "STACK", "LINEAR", "CALLS",
	"KEYONCE", "ARGS", "HEAP", "RELEASED", "MEMO",
];
pub fn bit(s: &str) -> u32 {
	1 << NAMES.iter().position(|x| *x == s).unwrap_or_else(|| panic!("clause {s}"))
}
pub fn bits(s: &str) -> u32 {
	s.split(',').filter(|x| !x.is_empty()).fold(0, |a, x| a | bit(x))
}

fn log2(n: u64) -> u64 {
	if n <= 1 { 0 } else { 63 - n.leading_zeros() as u64 }
}
fn clog2(n: u64) -> u64 {
	if n <= 1 { 0 } else { log2(n - 1) + 1 }
}

/// Witness: index before (1-based) of the element at each index after; 0 for anything else.
pub fn witness(c: &Case, o: &Outcome) -> Vec<u32> {
	let n = c.n();
	let pre = c.pre();
	let mut at = vec![0u32; c.nb];
	for (i, id) in pre.iter().enumerate() {
		at[*id as usize] = i as u32 + 1;
	}
	if c.owner == Owner::Bcast || c.ty == Ty::Z {
		return (1..=n as u32).collect();
	}
	(0..n)
		.map(|i| {
			let id = o.post[c.view.pos(i) as usize];
			if id >= 0 && (id as usize) < c.nb { at[id as usize] } else { 0 }
		})
		.collect()
}
pub fn norm(d: Desc) -> Desc {
	match d.n {
		0 => Desc { off: 0, st: 1, n: 0 },
		1 => Desc { off: d.off, st: 1, n: 1 },
		_ => d,
	}
}
pub fn sub(v: Desc, a: i64, b: i64) -> Desc {
	norm(Desc { off: v.off + v.st * a, st: v.st, n: b - a })
}
pub fn invalid(c: &Case) -> bool {
	match c.op {
		Op::Sel => c.k >= c.n(),
		Op::Many | Op::PMany => c.idx.iter().any(|x| *x >= c.n()) || c.idx.windows(2).any(|w| w[0] >= w[1]),
		_ => false,
	}
}
/// Whether the equality answers decide a deduplication (and were recorded).
pub fn eqk_rank(c: &Case) -> bool {
	c.eq_kind == 0 || c.form == Form::Key || c.op == Op::IsSorted && c.form == Form::Nat
}
pub fn cbs(c: &Case) -> bool {
	if c.op != Op::Dedup {
		return c.detail;
	}
	if c.form == Form::Key && matches!(c.mode, Mode::Liar { .. }) {
		return false;
	}
	eqk_rank(c) || c.detail
}
pub fn cons(c: &Case) -> bool {
	!matches!(c.mode, Mode::Liar { .. }) && (eqk_rank(c) || !matches!(c.op, Op::Dedup | Op::IsSorted))
}

fn leq(a: u32, b: u32) -> bool {
	a != NAN && b != NAN && a <= b
}

pub fn broken(c: &Case, o: &Outcome, want: Clauses) -> u32 {
	let mut bad = 0u32;
	for (c, o) in &o.nested {
		bad |= broken(c, o, want);
		if o.status == Status::Diverged {
			bad |= bit("PANIC");
		}
	}
	let n = c.n();
	let z = c.ty == Ty::Z;
	let w = |s: &str| want & bit(s);
	let ret = o.status == Status::Returned;
	let con = cons(c);
	let p = witness(c, o);
	let mut seen = vec![false; n + 1];
	let mut perm = true;
	for x in &p {
		if *x == 0 || seen[*x as usize] {
			perm = false;
			break;
		}
		seen[*x as usize] = true;
	}
	// PANIC
	let ok = match o.status {
		Status::Returned => !invalid(c) && o.raised == 0,
		Status::Own => o.raised == 0 && (invalid(c) || !con),
		Status::Injected => o.raised > 0,
		Status::Diverged => false,
	};
	if !ok || o.status == Status::Diverged {
		bad |= bit("PANIC");
	}
	if !perm || (c.op.readonly() && p.iter().enumerate().any(|(i, x)| *x != i as u32 + 1)) {
		bad |= bit("PERM");
	}
	let pre = c.pre();
	let r: Vec<u32> = pre.iter().map(|id| if z { 0 } else { o.ranks[*id as usize] }).collect();
	let q: Vec<u32> = p.iter().map(|x| if *x == 0 { 0 } else { r[*x as usize - 1] }).collect();
	if w("ORDER") != 0 && ret && perm && (con || matches!(c.op, Op::Rev)) {
		let ok = match c.op {
			op if op.stable() => (1..n).all(|i| q[i - 1] < q[i] || (q[i - 1] == q[i] && p[i - 1] < p[i])),
			op if op.sorts() => (1..n).all(|i| q[i - 1] <= q[i]),
			Op::Sel => {
				invalid(c) || (q[..c.k].iter().all(|x| *x <= q[c.k]) && q[c.k..].iter().all(|x| *x >= q[c.k]))
			}
			Op::Many | Op::PMany => {
				invalid(c) || {
					let m = c.idx.len();
					m == 0
						|| (0..=m).all(|j| {
							let lo = if j == 0 { 0 } else { c.idx[j - 1] };
							let hi = if j == m { n - 1 } else { c.idx[j] };
							let (a, b) = (if j == 0 { 0 } else { q[lo] }, if j == m { u32::MAX } else { q[hi] });
							q[lo..=hi].iter().all(|x| a <= *x && *x <= b)
						})
				}
			}
			Op::Rev => z || p.iter().enumerate().all(|(i, x)| *x as usize == n - i),
			_ => true,
		};
		if !ok {
			bad |= bit("ORDER");
		}
	}
	if w("RESULT") != 0 {
		let ok = match (&o.res, c.op) {
			(Res::Many { got, prior_ok }, _) => {
				*prior_ok
					&& (!ret
						|| (got.len() == c.idx.len()
							&& got.iter().zip(&c.idx).all(|((i, pos), x)| {
								(z || *pos == c.view.pos(*x)) && (c.op == Op::PMany || *i == *x as i64)
							})))
			}
			_ if !ret => true,
			(Res::Sel { l, m, r }, _) => {
				let k = c.k as i64;
				let n = n as i64;
				if z {
					l.n == k && r.n == n - 1 - k
				} else {
					norm(*l) == sub(c.view, 0, k) && *m == c.view.pos(c.k) && norm(*r) == sub(c.view, k + 1, n)
				}
			}
			(Res::Dedup { a, b }, _) => {
				if z {
					a.n + b.n == n as i64
				} else {
					let k = a.n;
					norm(*a) == sub(c.view, 0, k) && norm(*b) == sub(c.view, k, n as i64) && {
						!perm || kept(c, o, &pre, &r).is_none_or(|kp| p[..k as usize] == kp[..])
					}
				}
			}
			(Res::Bool(b), Op::IsSorted) if !eqk_rank(c) => {
				!c.detail
					|| if *b {
						(1..n).all(|i| o.fast.iter().any(|x| x.0 as i32 == pre[i - 1] && x.1 as i32 == pre[i] && x.2 == 1))
					} else {
						o.fast.iter().any(|x| x.2 == 0 && (1..n).any(|i| x.0 as i32 == pre[i - 1] && x.1 as i32 == pre[i]))
					}
			}
			(Res::Bool(b), Op::IsSorted) => !con || *b == (1..n).all(|i| leq(r[i - 1], r[i])),
			(Res::Bool(b), Op::Contains) => {
				!con || *b == (c.target as u32 != NAN && r.iter().any(|x| *x as i64 == c.target))
			}
			(Res::Bs(f, ix), _) => {
				let t = c.target;
				let cm = |x: u32| (x as i64).cmp(&t);
				*ix <= n
					&& (!*f || *ix < n)
					&& (!con
						|| ((!*f || r[*ix] as i64 == t)
							&& (!(1..n).all(|i| cm(r[i - 1]) <= cm(r[i]))
								|| if r.iter().any(|x| *x as i64 == t) {
									*f && r[*ix] as i64 == t
								} else {
									!*f && *ix == r.iter().filter(|x| (**x as i64) < t).count()
								})))
			}
			(Res::Pp(ix), _) => {
				let t = c.target;
				*ix <= n
					&& (!con
						|| !(1..n).all(|i| (r[i] as i64) >= t || (r[i - 1] as i64) < t)
						|| *ix == r.iter().filter(|x| (**x as i64) < t).count())
			}
			(Res::None, _) => true,
			_ => false,
		};
		if !ok {
			bad |= bit("RESULT");
		}
	}
	// FRAME: positions outside the view and the other owner
	if w("FRAME") != 0 && !z {
		let mut inside = vec![false; c.nb];
		for i in 0..n {
			inside[c.view.pos(i) as usize] = true;
		}
		let ok = (0..c.nb).all(|q| inside[q] || o.post[q] == c.mem_at(q as i64))
			&& o.other.as_ref().is_none_or(|v| (0..c.nb).all(|q| v[q] == c.mem_at(q as i64)));
		if !ok {
			bad |= bit("FRAME");
		}
	}
	if o.foreign > 0 {
		bad |= bit("SHOWN");
	}
	if o.op_drops > 0 || o.drops_bad > 0 {
		bad |= bit("DROPS");
	}
	if o.stale > 0 || o.lost > 0 {
		bad |= bit("PAYLOAD");
	}
	if o.excl_bad > 0 {
		bad |= bit("EXCL");
	}
	let nn = n as u64;
	let cmps = o.ncmp + o.nkcmp;
	let factor = if nn <= 131_072 { 100 } else { 800 };
	if con {
		let lim = match c.op {
			op if op.sorts() => (if matches!(op, Op::Sort | Op::PSort) { 2 } else { 4 }) * nn * (log2(nn) + 1) + 400,
			Op::Sel => factor * nn + 2000,
			Op::Many | Op::PMany => factor * nn * (clog2(c.idx.len() as u64 + 1) + 1) + 2000,
			_ => u64::MAX,
		};
		if cmps > lim {
			bad |= bit("COST");
		}
	}
	if stack_known(c) && o.stack > 16384 + 2048 * (log2(nn) + 1) {
		bad |= bit("STACK");
	}
	if w("LINEAR") != 0 && con && ret && c.op.sorts() && c.op != Op::PCached {
		let d = (1..n).filter(|i| r[*i] < r[i - 1]).count();
		let desc = (1..n).all(|i| r[i] < r[i - 1]);
		let mut u = r.clone();
		u.sort_unstable();
		u.dedup();
		let di = u.len() as u64;
		if ((d == 0 || desc) && cmps > 2 * nn + 300)
			|| (d <= 1 && c.op == Op::Sort && cmps > 3 * nn + 300)
			|| (d <= 1 && c.op == Op::PSort && cmps > 5 * nn + 10000)
			|| (matches!(c.op, Op::Unst | Op::PUnst) && di <= 8 && cmps > (2 * di + 4) * nn + 400)
		{
			bad |= bit("LINEAR");
		}
	}
	if w("CALLS") != 0 {
		let ok = match c.op {
			Op::Bs | Op::Pp => (if c.op == Op::Bs && c.form == Form::Key { o.nkey } else { o.ncmp }) <= clog2(nn + 1) + 1,
			Op::Dedup => o.ncmp <= nn.saturating_sub(1) && o.nkey <= 2 * nn.saturating_sub(1),
			Op::IsSorted if !eqk_rank(c) => {
				o.ncmp <= nn.saturating_sub(1) && o.fast.iter().rev().skip(1).all(|x| x.2 == 1)
			}
			Op::IsSorted if con => {
				let d = (1..n).find(|i| !leq(r[i - 1], r[*i])).unwrap_or(n.saturating_sub(1)) as u64;
				o.ncmp <= d && o.nkey <= 2 * d
			}
			Op::Contains if con => {
				let f = (0..n).find(|i| r[*i] as i64 == c.target && r[*i] != NAN).map_or(n, |i| i + 1) as u64;
				o.ncmp <= f
			}
			_ => true,
		};
		if !ok {
			bad |= bit("CALLS");
		}
	}
	if matches!(c.op, Op::Cached | Op::PCached) && o.kmax > 1 {
		bad |= bit("KEYONCE");
	}
	if c.op == Op::Dedup && ret && c.detail && !z {
		if o.fast.iter().enumerate().any(|(j, x)| j + 1 >= n || x.0 as i32 != pre[j + 1]) {
			bad |= bit("ARGS");
		}
	}
	if o.keys != 0 {
		bad |= bit("RELEASED");
	}
	if c.track {
		let h = &o.alloc;
		let sz = c.elem().size() as u64;
		if ret {
			let bp = h.big_peak as u64;
			let ok = match c.op {
				Op::Many => c.spare < c.idx.len() || h.count == 0,
				op if inplace(op) => h.count == 0,
				Op::Sort => {
					if n <= 10 || z {
						h.count == 0
					} else {
						(h.peak as u64) <= (nn / 2) * sz + 4096 && (h.max as u64) <= ((nn / 2) * sz).max(4096)
					}
				}
				Op::PUnst | Op::PMany => bp <= 32768,
				Op::PSort => bp <= nn * sz + 32768 && (h.max as u64) <= (nn * sz).max(32768),
				_ => true,
			};
			if !ok {
				bad |= bit("HEAP");
			}
		}
		if heap_live(c, o) != 0 || h.bad != 0 {
			bad |= bit("RELEASED");
		}
	}
	bad & want
}
pub fn inplace(op: Op) -> bool {
	matches!(op, Op::Unst | Op::Sel | Op::Many | Op::Dedup | Op::Rev) || op.readonly()
}
/// Bytes still allocated when the call is over (only element storage and the like for operations that may
/// legitimately leave something: the collection of a bulk selection, task queues of the pool, a panic message).
pub fn heap_live(c: &Case, o: &Outcome) -> i64 {
	if c.op.parallel() {
		// queues of the pool may have grown
		if o.alloc.big_live <= 32768 { 0 } else { o.alloc.big_live as i64 }
	} else if (c.op == Op::Many && c.spare < c.idx.len()) || o.status == Status::Own {
		0
	} else {
		o.alloc.live as i64
	}
}
/// The stack figure is meaningful for operations on the calling thread only, and without stack switching.
pub fn stack_known(c: &Case) -> bool {
	!c.op.parallel() && !cfg!(feature = "f_stacker")
}

/// Kept input indices (1-based) of a deduplication, None if they cannot be told from what was recorded.
pub fn kept(c: &Case, o: &Outcome, pre: &[i32], r: &[u32]) -> Option<Vec<u32>> {
	let n = c.n();
	if !cbs(c) {
		return None;
	}
	let mut k: Vec<u32> = vec![];
	for i in 0..n {
		if i == 0 {
			k.push(1);
			continue;
		}
		let last = *k.last().unwrap() as usize - 1;
		let same = if eqk_rank(c) {
			r[i] == r[last] && r[i] != NAN
		} else {
			let a = o.fast.get(i - 1)?;
			if a.0 as i32 != pre[i] || a.1 as i32 != pre[last] {
				return Some(vec![0]);
			}
			a.2 != 0
		};
		if !same {
			k.push(i as u32 + 1);
		}
	}
	Some(k)
}

/// What a call did, independent of layout: how it ended, the witness and the logical result.
pub fn logical(c: &Case, o: &Outcome) -> (u8, Vec<u32>, Vec<i64>) {
	let how = match o.status {
		Status::Returned => 0,
		Status::Own => 1,
		Status::Injected => 2,
		Status::Diverged => 3,
	};
	let p = witness(c, o);
	let _ = c;
	let res = if how != 0 {
		vec![]
	} else {
		match &o.res {
			Res::None => vec![],
			Res::Bool(b) => vec![*b as i64],
			Res::Bs(f, i) => vec![*f as i64, *i as i64],
			Res::Pp(i) => vec![*i as i64],
			Res::Sel { l, r, .. } => vec![l.n, r.n],
			Res::Many { got, .. } => vec![got.len() as i64],
			Res::Dedup { a, b } => vec![a.n, b.n],
		}
	};
	(how, p, res)
}

// ---------------------------------------------------------------- entailment
/// Do the recorded answers prove that the outcome is right? If not, an order is returned that is consistent with
/// every answer and for which it is wrong (ranks by identity).
pub fn refute(c: &Case, o: &Outcome) -> Option<Vec<u32>> {
	if o.status != Status::Returned || c.form == Form::Key || !cons(c) || c.ty == Ty::Z {
		return None;
	}
	let n = c.n();
	if n < 2 || n > 4000 {
		return None;
	}
	let p = witness(c, o);
	if p.contains(&0) {
		return None;
	}
	let pre = c.pre();
	let mut at = vec![usize::MAX; c.nb];
	for (i, id) in pre.iter().enumerate() {
		at[*id as usize] = i;
	}
	// up[i]: (j, strict) with i <= j or i < j
	let mut up: Vec<Vec<(u32, bool)>> = vec![vec![]; n];
	let mut down: Vec<Vec<(u32, bool)>> = vec![vec![]; n];
	let mut add = |a: u32, b: u32, r: i8| {
		let (a, b) = (at[a as usize], at[b as usize]);
		if a == usize::MAX || b == usize::MAX || a == b {
			return;
		}
		let (x, y, s) = if r < 0 { (a, b, true) } else { (b, a, false) };
		up[x].push((y as u32, s));
		down[y].push((x as u32, s));
	};
	if c.op.parallel() {
		for e in &o.log {
			if let crate::ctx::Ev::End { k: crate::ctx::EvKind::Cmp, a, b, r, .. } = e {
				if *a >= 0 && *b >= 0 {
					add(*a as u32, *b as u32, *r);
				}
			}
		}
	} else {
		for (a, b, r) in &o.fast {
			add(*a, *b, *r);
		}
	}
	let rank = |i: usize| o.ranks[pre[i] as usize];
	let post: Vec<usize> = p.iter().map(|x| *x as usize - 1).collect();
	// reach[v] from v: 1 = <=, 2 = <
	let closure = |from: usize, g: &Vec<Vec<(u32, bool)>>| -> Vec<u8> {
		let mut d = vec![0u8; n];
		d[from] = 1;
		let mut st = vec![from];
		while let Some(x) = st.pop() {
			for (y, s) in &g[x] {
				let y = *y as usize;
				let v = if *s || d[x] == 2 { 2 } else { 1 };
				if v > d[y] {
					d[y] = v;
					st.push(y);
				}
			}
		}
		d
	};
	// An order in which not (x <= y) (strict = false) or not (x < y) (strict = true).
	let counter = |x: usize, y: usize| -> Vec<u32> {
		let d = closure(y, &down); // d[z]: z <= y / z < y
		let mut keys: Vec<(u32, u32)> = Vec::with_capacity(n);
		for z in 0..n {
			let k = if d[x] == 0 {
				// y and everything below it, then the rest: y < x
				if d[z] > 0 { (0, rank(z)) } else { (1, rank(z)) }
			} else {
				// x <= y but not x < y: make them equal
				match d[z] {
					2 => (0, rank(z)),
					1 => (1, 0),
					_ => (2, rank(z)),
				}
			};
			keys.push(k);
		}
		let mut u = keys.clone();
		u.sort_unstable();
		u.dedup();
		let mut ranks = c.ranks.clone();
		for z in 0..n {
			ranks[pre[z] as usize] = u.binary_search(&keys[z]).unwrap() as u32;
		}
		ranks
	};
	let direct = |x: usize, y: usize, strict: bool| up[x].iter().any(|(z, s)| *z as usize == y && (*s || !strict));
	match c.op {
		op if op.sorts() => {
			for i in 1..n {
				let (x, y) = (post[i - 1], post[i]);
				let strict = c.op.stable() && x > y;
				if direct(x, y, strict) {
					continue;
				}
				let d = closure(x, &up);
				if d[y] < if strict { 2 } else { 1 } {
					return Some(counter(x, y));
				}
			}
			None
		}
		Op::Sel | Op::Many | Op::PMany => {
			let idx: Vec<usize> = if c.op == Op::Sel { vec![c.k] } else { c.idx.clone() };
			if idx.len() > 20 {
				return None;
			}
			for &k in &idx {
				let v = post[k];
				let u = closure(v, &up);
				let d = closure(v, &down);
				for i in 0..n {
					if i < k && d[post[i]] == 0 {
						return Some(counter(post[i], v));
					}
					if i > k && u[post[i]] == 0 {
						return Some(counter(v, post[i]));
					}
				}
			}
			None
		}
		_ => None,
	}
}
