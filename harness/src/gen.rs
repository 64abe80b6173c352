//! Input generators: rank patterns, sizes, memory layouts.
use crate::case::*;
use crate::ctx::Rng;

/// Array sizes, dense where the implementation's thresholds may lie and everywhere small.
pub fn size(r: &mut Rng, max: usize) -> usize {
	let n = match r.below(20) {
		0..=3 => r.range(0, 24),
		4..=6 => r.range(8, 64),
		7..=9 => r.range(40, 140),
		10..=12 => r.range(100, 400),
		13..=14 => r.range(250, 700),
		15 => {
			let b = [8, 11, 16, 20, 32, 50, 64, 100, 128, 256, 257, 384, 400, 512, 640, 1024, 1536, 2000, 2048];
			let b = r.pick(&b);
			(b + r.below(5)).saturating_sub(2)
		}
		16..=17 => r.range(400, 1500),
		18 => r.range(1000, 3000),
		_ => r.range(1, max.max(1)),
	};
	n.min(max)
}
/// Now and then a much larger size: past every threshold there is, and past the range of 16 bits.
pub fn occ(r: &mut Rng, n: usize, big: usize) -> usize {
	if !r.chance(1, 160) {
		return n;
	}
	match r.below(5) {
		0 if big > 65_000 => r.range(65_000, big),
		1 if big > 65_536 => 65_534 + r.below(6),
		_ => r.range(big / 16, big.min(40_000)),
	}
}
/// Sizes that reach the parallel code.
pub fn par_size(r: &mut Rng, max: usize) -> usize {
	let n = match r.below(12) {
		0 => size(r, 2000),
		1..=2 => r.range(1990, 2100),
		3..=4 => r.range(2000, 4100),
		5 => {
			let b = [2000, 4000, 5000, 6000, 8000, 10000, 12000];
			(r.pick(&b) + r.below(7)) - 3
		}
		6..=8 => r.range(4000, 7000),
		_ => r.range(5000, max.max(5001)),
	};
	n.min(max)
}

fn runs_of(r: &mut Rng, n: usize) -> Vec<usize> {
	// run lengths: small ones around the minimal run, long ones, powers
	let mut left = n;
	let mut v = vec![];
	let style = r.below(6);
	while left > 0 {
		let l = match style {
			0 => r.range(1, 12),
			1 => r.range(8, 40),
			2 => r.range(1, (n / 2).max(1)),
			3 => 1 << r.below(9),
			4 => r.range(n / 12 + 1, n / 6 + 2),
			_ => {
				if r.chance(1, 3) {
					r.range(1, (n / 3).max(1))
				} else {
					r.range(10, 24)
				}
			}
		};
		let l = l.min(left).max(1);
		v.push(l);
		left -= l;
	}
	v
}

/// Concatenated runs; each ascending (with ties), or strictly descending.
pub fn from_runs(r: &mut Rng, lens: &[usize], range: usize) -> Vec<u32> {
	let mut out = Vec::new();
	for &l in lens {
		let mut v: Vec<u32> = (0..l).map(|_| r.below(range.max(1)) as u32).collect();
		v.sort_unstable();
		if r.chance(1, 3) {
			// strictly descending needs distinct values
			v.dedup();
			while v.len() < l {
				let x = v.last().map_or(0, |x| x + 1);
				v.push(x);
			}
			v.reverse();
		}
		out.extend(v);
	}
	out
}

pub const PATTERNS: usize = 27;
pub fn pattern(r: &mut Rng, n: usize) -> Vec<u32> {
	let k = r.below(PATTERNS);
	pattern_k(r, n, k)
}
pub fn pattern_k(r: &mut Rng, n: usize, kind: usize) -> Vec<u32> {
	let rnd = |r: &mut Rng, m: usize| -> Vec<u32> { (0..n).map(|_| r.below(m.max(1)) as u32).collect() };
	match kind {
		0 | 1 => {
			let mut v: Vec<u32> = (0..n as u32).collect();
			r.shuffle(&mut v);
			v
		}
		2 => {
			let m = r.range(1, 5);
			rnd(r, m)
		}
		3 => {
			let m = r.range(2, 40);
			rnd(r, m)
		}
		4 => rnd(r, n / 2 + 1),
		5 => rnd(r, 4 * n + 1),
		6 => {
			// ascending with ties
			let d = r.range(1, 4);
			(0..n).map(|i| (i / d) as u32).collect()
		}
		7 => (0..n).map(|i| (n - i) as u32).collect(),
		8 => {
			// descending with ties
			let d = r.range(2, 6);
			(0..n).map(|i| ((n - i) / d) as u32).collect()
		}
		9 => (0..n).map(|i| i.min(n - i) as u32).collect(),
		10 => (0..n).map(|i| i.max(n - i) as u32).collect(),
		11 => {
			let p = r.range(2, (n / 2).max(3));
			if r.chance(1, 2) {
				(0..n).map(|i| (i % p) as u32).collect()
			} else {
				(0..n).map(|i| (p - i % p) as u32).collect()
			}
		}
		12..=14 => {
			let l = runs_of(r, n);
			let m = match r.below(3) {
				0 => n + 1,
				1 => n / 4 + 2,
				_ => 6,
			};
			from_runs(r, &l, m)
		}
		15 => {
			// nearly sorted
			let mut v: Vec<u32> = (0..n as u32).collect();
			if n > 1 {
				for _ in 0..r.range(1, 6) {
					let i = r.below(n);
					let j = r.below(n);
					v.swap(i, j);
				}
				if r.chance(1, 3) {
					v.reverse();
				}
			}
			v
		}
		16 => {
			// sorted with a disturbed head or tail
			let mut v: Vec<u32> = (0..n).map(|_| r.below(n + 1) as u32).collect();
			let t = r.range(0, (n / 4).min(30));
			if r.chance(1, 2) {
				v[..n - t].sort_unstable();
			} else {
				v[t..].sort_unstable();
			}
			v
		}
		17 => {
			// two sorted runs
			let m = if r.chance(1, 2) { n + 1 } else { n / 5 + 2 };
			let mut v = rnd(r, m);
			let c = r.below(n + 1);
			v[..c].sort_unstable();
			v[c..].sort_unstable();
			v
		}
		18 => {
			let c = r.below(n + 1);
			(0..n).map(|i| ((i + c) % n.max(1)) as u32).collect()
		}
		19 => {
			// blocks: low, high or mixed runs around a middle value
			let b = r.pick(&[16usize, 64, 127, 128, 129]);
			let mut v = Vec::with_capacity(n);
			while v.len() < n {
				let s = r.below(4);
				for _ in 0..b {
					let low = match s {
						0 => true,
						1 => false,
						2 => r.chance(1, 2),
						_ => r.chance(1, 16),
					};
					v.push(if low { r.below(n + 1) as u32 } else { (n + 1 + r.below(n + 1)) as u32 });
				}
			}
			v.truncate(n);
			v
		}
		20 => {
			// heavy tail
			(0..n)
				.map(|_| {
					let mut x = 0;
					while x < 30 && r.chance(1, 2) {
						x += 1;
					}
					x as u32
				})
				.collect()
		}
		21 => {
			// equal except outliers
			let mut v = vec![5u32; n];
			if n > 0 {
				for _ in 0..r.range(0, 4) {
					let i = r.below(n);
					v[i] = r.below(10) as u32;
				}
			}
			v
		}
		22 => {
			// chunks of 2000 sorted, reversed or random
			let mut v = rnd(r, n + 1);
			let c = r.pick(&[500usize, 1000, 2000, 2000, 2000, 4000]);
			for ch in v.chunks_mut(c) {
				match r.below(5) {
					0 | 1 => ch.sort_unstable(),
					2 => {
						ch.sort_unstable();
						ch.reverse();
					}
					_ => {}
				}
			}
			v
		}
		23 => {
			// chunks in mutual order: ascending chunks of a sorted or reversed whole
			let mut v = rnd(r, n + 1);
			v.sort_unstable();
			if r.chance(1, 2) {
				v.dedup();
				while v.len() < n {
					let x = v.last().map_or(0, |x| x + 1);
					v.push(x);
				}
				v.reverse();
			}
			for _ in 0..r.below(3) {
				if n > 1 {
					let i = r.below(n);
					let j = r.below(n);
					v.swap(i, j);
				}
			}
			v
		}
		24 => {
			// all but a few in the front are large; equal pivots
			let h = r.range(0, n);
			(0..n).map(|i| if i < h { 1 } else { r.below(3) as u32 }).collect()
		}
		25 => {
			// interleaved
			(0..n).map(|i| if i % 2 == 0 { i as u32 } else { (n + n - i) as u32 }).collect()
		}
		_ => {
			// merge-heavy: left run mostly above right run
			let c = n / 2 + r.below(n / 4 + 1);
			let c = c.min(n);
			let mut v: Vec<u32> = (0..n).map(|i| if i < c { (r.below(n + 1) + n / 2) as u32 } else { r.below(n + 1) as u32 }).collect();
			v[..c].sort_unstable();
			v[c..].sort_unstable();
			v
		}
	}
}

/// A layout for the viewed elements of `c` (which must be plain).
pub fn layout(r: &mut Rng, c: &mut Case) {
	let n = c.n();
	let k = r.below(10);
	let span = |st: usize| if n == 0 { 0 } else { (n - 1) * st + 1 };
	let s = r.next();
	let decoy = move |p: usize| (crate::ctx::mix(s ^ p as u64) % 50) as u32;
	if n > 20_000 && k < 5 {
		return;
	}
	match k {
		0 => {} // owned
		1 => c.relayout(Owner::View, 0, 1, n, decoy),
		2 | 3 => {
			// strided
			let st = if n <= 40 && r.chance(1, 6) { r.range(6, 700) } else { r.range(2, 5) };
			let off = r.range(0, 4);
			let nb = off + span(st) + r.below(5);
			c.relayout(Owner::View, off as i64, st as i64, nb, decoy);
		}
		4 | 5 => {
			// reversed, possibly strided
			let st = if n <= 40 && r.chance(1, 6) { r.range(4, 700) } else { r.range(1, 3) };
			let lo = r.range(0, 4);
			let nb = lo + span(st) + r.below(5);
			c.relayout(Owner::View, (lo + span(st).max(1) - 1) as i64, -(st as i64), nb.max(1), decoy);
		}
		6 | 7 => {
			// middle of a larger array
			let off = r.range(1, 9);
			c.relayout(Owner::View, off as i64, 1, off + n + r.range(1, 9), decoy);
		}
		_ => {
			if n == 0 {
				return;
			}
			let cols = if n <= 40 && r.chance(1, 6) { r.range(5, 700) } else { r.range(2, 4) };
			let off = r.below(cols);
			c.relayout(Owner::Lane, off as i64, cols as i64, cols * n, decoy);
			c.seed = (c.seed & !1) | r.below(2) as u64;
		}
	}
}
pub fn shared(r: &mut Rng, c: &mut Case) {
	// shared storage: whole array, or reversed shared view
	c.owner = if r.chance(1, 2) { Owner::Arc } else { Owner::Cow };
	if c.owner == Owner::Arc && r.chance(1, 3) && c.n() > 1 {
		let n = c.n();
		c.ranks.reverse();
		c.view = Desc { off: n as i64 - 1, st: -1, n: n as i64 };
	}
}
pub fn ty(r: &mut Rng, n: usize) -> Ty {
	match r.below(10) {
		0..=4 => Ty::S,
		5..=6 => Ty::D,
		7 => Ty::L,
		8 => Ty::E3,
		9 if n <= 2500 && r.chance(1, 3) => Ty::A,
		9 if n <= 250 && r.chance(1, 2) => Ty::B,
		9 => Ty::M,
		_ => Ty::S,
	}
}

/// A list of strictly increasing ranks below n.
pub fn ranks_list(r: &mut Rng, n: usize) -> Vec<usize> {
	if n == 0 {
		return vec![];
	}
	let m = match r.below(8) {
		0 => 1,
		1 => 2,
		2 => r.range(1, 5.min(n)),
		3 => r.range(1, n.min(40)),
		4 => n.min(1 + r.below(300)),
		5 => {
			return match r.below(5) {
				0 => (0..n).collect(),
				1 => (0..n).step_by(2).collect(),
				2 => vec![0],
				3 => vec![n - 1],
				_ => {
					let a = r.below(n);
					let b = (a + 1 + r.below(30)).min(n);
					(a..b).collect()
				}
			};
		}
		6 => {
			let mut v = vec![0, n - 1];
			v.push(n / 2);
			v.push(r.below(n));
			v.sort_unstable();
			v.dedup();
			return v;
		}
		_ => r.range(1, n.min(12)),
	};
	let mut v: Vec<usize> = (0..m).map(|_| r.below(n)).collect();
	v.sort_unstable();
	v.dedup();
	v
}
/// A list that must be refused.
pub fn bad_list(r: &mut Rng, n: usize) -> Vec<usize> {
	let mut v = ranks_list(r, n);
	match r.below(7) {
		0 => v.push(n + r.below(3)),
		1 => {
			v.push(usize::MAX - r.below(3));
		}
		2 if !v.is_empty() => {
			let i = r.below(v.len());
			let x = v[i];
			v.insert(i, x);
		}
		3 if v.len() > 1 => {
			let i = r.below(v.len() - 1);
			v.swap(i, i + 1);
		}
		4 if v.len() > 1 => v.reverse(),
		5 if v.len() > 1 => {
			let i = r.below(v.len());
			let j = r.below(v.len());
			v[i] = v[j];
			if v.windows(2).all(|w| w[0] < w[1]) {
				v.push(n);
			}
		}
		_ => v = vec![n],
	}
	if v.windows(2).all(|w| w[0] < w[1]) && v.last().is_some_and(|x| *x < n) {
		v.push(n);
	}
	v
}
