//! Arrays too long to be stored: elements of no size, or one element shown over and over.
use crate::camp::Runner;
use crate::ctx::Rng;
use crate::exec::Status;
use ndarray::{Array1, ArrayView1};
use ndarray_slice::Slice1Ext;
use std::cmp::Ordering::{Equal, Greater, Less};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any};

struct TooMany;

fn digits(x: usize) -> String {
	let x = x as u64;
	let d = |k: u32| x >> (20 * k) & 0xF_FFFF;
	format!("[{},{},{},{}]", d(0), d(1), d(2), d(3))
}
fn units(n: usize) -> Array1<()> {
	let mut v: Vec<()> = Vec::new();
	// SAFETY: elements of no size need no memory.
	unsafe { v.set_len(n) };
	Array1::from_vec(v)
}
fn length(r: &mut Rng) -> usize {
	let max = isize::MAX as usize;
	match r.below(12) {
		0 => max,
		1 => max - r.below(4),
		2 => (1 << 32) - r.below(3),
		3 => (1 << 32) + r.below(40),
		4 => (1 << 31) - r.below(3),
		5 => (1 << 31) + r.below(40),
		6 => (1 << 16) - 3 + r.below(6),
		7 => (1 << 8) - 3 + r.below(6),
		8 => r.below(300),
		9 => (1 << r.below(63)) + r.below(3),
		_ => (r.next() as usize & max) >> r.below(50),
	}
	.min(max)
}

#[derive(Default)]
struct Seen {
	/// digits of what came back
	res: Vec<usize>,
	/// found, true, or the like
	yes: bool,
}

pub fn play(run: &mut Runner, r: &mut Rng, what: &str) {
	let ops: &[&str] = match what {
		"find" => &["bs", "bs", "pp"],
		"test" => &["issorted", "contains"],
		"calls" => &["bs", "pp", "issorted", "contains"],
		x => &[x],
	};
	let op: &str = {
		let k = r.below(ops.len());
		// longer-lived than the slice of a match arm
		["bs", "pp", "issorted", "contains", "sel", "many", "pmany"].into_iter().find(|x| *x == ops[k]).unwrap()
	};
	let n = length(r);
	let ans = r.pick(&["lt", "gt", "eq"]);
	let form = r.below(3);
	let zst = r.chance(1, 2);
	let wide = units(n);
	let one = [5u32];
	let base = ArrayView1::from(&one[..]);
	let bc = base.broadcast(n).unwrap();
	let mut calls = 0u64;
	let mut k = 0;
	let mut idx: Vec<usize> = vec![];
	let o = match ans {
		"lt" => Less,
		"gt" => Greater,
		_ => Equal,
	};
	let tgt = match ans {
		"lt" => 6,
		"gt" => 4,
		_ => 5u32,
	};
	let mut tick = || {
		calls += 1;
		if calls > 4096 {
			panic_any(TooMany);
		}
	};
	let got = match op {
		"bs" => {
			let x = catch_unwind(AssertUnwindSafe(|| match (zst, form) {
				(true, _) => wide.binary_search_by(|_| {
					tick();
					o
				}),
				(_, 0) => bc.binary_search(&tgt),
				(_, 1) => bc.binary_search_by(|x| {
					tick();
					x.cmp(&tgt)
				}),
				_ => bc.binary_search_by_key(&tgt, |x| {
					tick();
					*x
				}),
			}));
			x.map(|x| Seen { yes: x.is_ok(), res: vec![x.unwrap_or_else(|i| i)] })
		}
		"pp" => catch_unwind(AssertUnwindSafe(|| {
			let i = if zst {
				wide.partition_point(|_| {
					tick();
					o == Less
				})
			} else {
				bc.partition_point(|x| {
					tick();
					*x < tgt
				})
			};
			Seen { res: vec![i], yes: false }
		})),
		// only what can be decided at the first element
		"issorted" => catch_unwind(AssertUnwindSafe(|| Seen {
			yes: wide.is_sorted_by(|_, _| {
				tick();
				false
			}),
			res: vec![],
		})),
		"contains" => catch_unwind(AssertUnwindSafe(|| {
			let n = n.max(1);
			Seen { yes: if zst { units(n).contains(&()) } else { base.broadcast(n).unwrap().contains(&5) }, res: vec![] }
		})),
		"sel" => {
			k = match r.below(5) {
				0 => n / 2,
				1 => n.saturating_sub(1),
				2 => n.saturating_add(r.below(3)),
				3 => (1 << 32) + r.below(3),
				_ => (r.next() >> 1) as usize % n.max(1),
			};
			let mut a = units(n);
			catch_unwind(AssertUnwindSafe(|| {
				let (l, _, x) = match form {
					0 => a.select_nth_unstable(k),
					1 => a.select_nth_unstable_by(k, |_, _| {
						tick();
						o
					}),
					_ => a.select_nth_unstable_by_key(k, |_| tick()),
				};
				Seen { res: vec![l.len(), x.len()], yes: false }
			}))
		}
		_ => {
			let m = r.below(9);
			idx = (0..m)
				.map(|_| match r.below(4) {
					0 => (1usize << 32).saturating_sub(2) + r.below(5),
					1 => (1usize << r.below(63)).min(n),
					_ => (r.next() >> 1) as usize % n.max(1),
				})
				.collect();
			idx.sort_unstable();
			idx.dedup();
			if r.chance(4, 5) {
				idx.retain(|i| *i < n);
			}
			let iv = Array1::from_vec(idx.clone());
			let mut a = units(n);
			catch_unwind(AssertUnwindSafe(|| {
				#[cfg(feature = "par")]
				if op == "pmany" {
					let mut v: Vec<&mut ()> = vec![];
					a.par_select_many_nth_unstable(&iv, &mut v);
					return Seen { res: vec![v.len()], yes: false };
				}
				let mut v: Vec<(usize, &mut ())> = vec![];
				match form {
					0 => a.select_many_nth_unstable(&iv, &mut v),
					1 => a.select_many_nth_unstable_by(&iv, &mut v, |_, _| {
						tick();
						o
					}),
					_ => a.select_many_nth_unstable_by_key(&iv, &mut v, |_| tick()),
				}
				let mut is: Vec<usize> = v.into_iter().map(|x| x.0).collect();
				is.sort_unstable();
				Seen { res: is, yes: false }
			}))
		}
	};
	let n = if op == "contains" { n.max(1) } else { n };
	let (how, seen) = match got {
		Ok(s) => ("ret", s),
		Err(p) if p.is::<TooMany>() => ("endless", Seen::default()),
		Err(_) => ("own", Seen::default()),
	};
	let bits = (64 - n.leading_zeros()) as u64;
	let invalid = match op {
		"sel" => k >= n,
		"many" | "pmany" => idx.iter().any(|i| *i >= n),
		_ => false,
	};
	let ok = (how == if invalid { "own" } else { "ret" })
		&& (how == "own"
			|| match op {
				"bs" => calls <= bits + 1 && seen.yes == (ans == "eq" && n > 0) && if seen.yes {
					seen.res[0] < n
				} else {
					seen.res[0] == if ans == "lt" { n } else { 0 }
				},
				"pp" => calls <= bits + 1 && seen.res[0] == if ans == "lt" { n } else { 0 },
				"issorted" => calls <= 1 && seen.yes == (n < 2),
				"contains" => seen.yes,
				"sel" => seen.res == [k, n - 1 - k],
				"many" => seen.res == idx,
				_ => seen.res == [idx.len()],
			});
	let l = |v: &[usize]| v.iter().map(|x| digits(*x)).collect::<Vec<_>>().join(",");
	let text = format!(
		"{{\"e\":\"wide\",\"op\":\"{op}\",\"n\":{},\"ans\":\"{ans}\",\"k\":{},\"idx\":[{}],\"how\":\"{how}\",\"yes\":{},\"res\":[{}],\"calls\":{}}}\n",
		digits(n),
		digits(k),
		l(&idx),
		seen.yes,
		l(&seen.res),
		calls.min(5000)
	);
	let st = match how {
		"ret" => Status::Returned,
		"own" => Status::Own,
		_ => Status::Diverged,
	};
	run.wide(op, st, calls, ok, text);
}
