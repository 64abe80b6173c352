//! Executions as trace lines for Slice1Trace.
use crate::case::*;
use crate::ctx::{Ev, EvKind, NAN};
use crate::exec::*;
use crate::monitor::*;
use std::fmt::Write;

const BIG: i64 = 2147483647;
fn int(x: i64) -> i64 {
	x.clamp(-BIG, BIG)
}
fn rk(r: u32) -> i64 {
	if r == NAN { BIG } else { int(r as i64).min(BIG - 1) }
}
pub fn list<T: Copy, F: Fn(T) -> i64>(v: &[T], f: F) -> String {
	let mut s = String::with_capacity(v.len() * 5 + 2);
	s.push('[');
	for (i, x) in v.iter().enumerate() {
		if i > 0 {
			s.push(',');
		}
		let _ = write!(s, "{}", f(*x));
	}
	s.push(']');
	s
}
fn desc(d: Desc) -> String {
	let d = norm(d);
	format!("{{\"off\":{},\"st\":{},\"n\":{}}}", int(d.off), int(d.st), d.n)
}
/// Memory and order before the call.
pub fn new_line(c: &Case, ranks: &[u32]) -> String {
	let mem: Vec<i32> = (0..c.nb).map(|p| c.mem_at(p as i64)).collect();
	format!("{{\"e\":\"new\",\"mem\":{},\"rank\":{}}}\n", list(&mem, |x| x as i64), list(ranks, rk))
}
pub fn view_line(d: Desc) -> String {
	let d = if d.n == 0 { norm(d) } else { d };
	format!("{{\"e\":\"view\",\"off\":{},\"st\":{},\"n\":{}}}\n", d.off, d.st, d.n)
}
/// Elements without identity and broadcast views are described by a memory of their own.
pub fn flat(c: &Case) -> bool {
	c.ty == Ty::Z || c.owner == Owner::Bcast
}
pub fn call_line(c: &Case, sig: &str) -> String {
	format!(
		"{{\"e\":\"call\",\"op\":\"{}\",\"form\":\"{}\",\"k\":{},\"idx\":{},\"tgt\":{},\"cons\":{},\"eqk\":\"{}\",\"sz\":{},\"spare\":{},\"sig\":\"{}\",\"cbs\":{},\"case\":\"{}\"}}\n",
		c.op.name(),
		c.form.name(),
		int(c.k.min(BIG as usize) as i64),
		list(&c.idx, |x| int(x.min(BIG as usize) as i64)),
		if c.target as u32 == NAN || c.target < 0 { BIG } else { int(c.target) },
		cons(c),
		if eqk_rank(c) { "rank" } else { "asks" },
		c.elem().size(),
		c.spare,
		sig,
		cbs(c),
		if c.ranks.len() <= 400 { c.to_text() } else { String::new() },
	)
}
fn kind(k: EvKind) -> &'static str {
	match k {
		EvKind::Cmp => "cmp",
		EvKind::Eq => "eq",
		EvKind::Key => "key",
		EvKind::Pred => "pred",
	}
}
pub fn cbs_lines(o: &Outcome, out: &mut String) {
	let mut tmap = std::collections::HashMap::new();
	let mut open = 0;
	for e in &o.log {
		if let Ev::Nest { i } = e {
			if open > 0 {
				out.push_str("]}\n");
				open = 0;
			}
			nest_lines(&o.nested[*i as usize], out);
			continue;
		}
		out.push_str(if open == 0 { "{\"e\":\"cbs\",\"l\":[" } else { "," });
		let mut th = |t: u32| {
			let n = tmap.len() + 1;
			*tmap.entry(t).or_insert(n)
		};
		let _ = match e {
			Ev::Beg { t, k, a, b } => write!(out, "[\"b\",{},\"{}\",{},{},0]", th(*t), kind(*k), a, b),
			Ev::End { t, k, a, b, r } => write!(out, "[\"e\",{},\"{}\",{},{},{}]", th(*t), kind(*k), a, b, r),
			Ev::Pan { t } => write!(out, "[\"p\",{},\"any\",0,0,0]", th(*t)),
			Ev::Nest { .. } => Ok(()),
		};
		open += 1;
		if open == 64 {
			out.push_str("]}\n");
			open = 0;
		}
	}
	if open > 0 {
		out.push_str("]}\n");
	}
}
fn nest_lines(x: &(Case, Outcome), out: &mut String) {
	out.push_str("{\"e\":\"nest\"}\n");
	out.push_str(&trace(&x.0, &x.1, ""));
	out.push_str("{\"e\":\"back\"}\n");
}
/// Calls made by callbacks, when the callbacks themselves are not in the trace.
pub fn nested_lines(c: &Case, o: &Outcome, out: &mut String) {
	if !c.detail {
		for x in &o.nested {
			nest_lines(x, out);
		}
	}
}
pub fn res_json(c: &Case, o: &Outcome) -> String {
	match &o.res {
		Res::None => if matches!(c.op, Op::Many | Op::PMany) { "{\"prior\":false,\"got\":[]}".into() } else { "0".into() },
		Res::Bool(b) => b.to_string(),
		Res::Bs(f, i) => format!("{{\"found\":{},\"ix\":{}}}", f, int((*i).min(BIG as usize) as i64)),
		Res::Pp(i) => format!("{}", (*i).min(BIG as usize)),
		Res::Sel { l, m, r } => format!("{{\"l\":{},\"m\":{},\"r\":{}}}", desc(*l), int(*m), desc(*r)),
		Res::Many { got, prior_ok } => {
			let mut s = String::new();
			for (i, (x, p)) in got.iter().enumerate() {
				if i > 0 {
					s.push(',');
				}
				let _ = write!(s, "[{},{}]", int(*x), int(*p));
			}
			format!("{{\"prior\":{},\"got\":[{}]}}", prior_ok, s)
		}
		Res::Dedup { a, b } => format!("{{\"a\":{},\"b\":{}}}", desc(*a), desc(*b)),
	}
}
pub fn end_line(c: &Case, o: &Outcome) -> String {
	if o.status == Status::Diverged {
		return "{\"e\":\"hang\",\"what\":\"callback cap reached\"}\n".into();
	}
	let (how, p, lres) = logical(c, o);
	let how = ["ret", "own", "inj"][how as usize];
	let raised = o.raised;
	format!(
		"{{\"e\":\"{}\",\"how\":\"{}\",\"p\":{},\"res\":{},\"logical\":{},\"other\":{},\"cnt\":{{\"cmp\":{},\"kcmp\":{},\"key\":{},\"kmax\":{},\"raised\":{},\"foreign\":{},\"stale\":{},\"lost\":{},\"excl\":{},\"opdrops\":{},\"dropbad\":{},\"keys\":{},\"stack\":{}}},\"heap\":{{\"on\":{},\"how\":\"{}\",\"count\":{},\"peak\":{},\"bigpeak\":{},\"max\":{},\"live\":{},\"bad\":{}}},\"msg\":{:?}}}\n",
		if how == "ret" { "ret" } else { "unw" },
		how,
		list(&p, |x| x as i64),
		res_json(c, o),
		list(&lres, |x| int(x)),
		if flat(c) { "[]".into() } else { o.other.as_ref().map_or("[]".into(), |v| list(v, |x| x as i64)) },
		o.ncmp.min(BIG as u64),
		o.nkcmp.min(BIG as u64),
		o.nkey.min(BIG as u64),
		o.kmax,
		raised,
		o.foreign,
		o.stale,
		o.lost,
		o.excl_bad,
		o.op_drops,
		o.drops_bad,
		o.keys.clamp(-BIG, BIG),
		if stack_known(c) { o.stack.min(BIG as u64) as i64 } else { -1 },
		c.track,
		how,
		o.alloc.count,
		int(o.alloc.peak as i64),
		int(o.alloc.big_peak as i64),
		int(o.alloc.max as i64),
		int(heap_live(c, o)),
		o.alloc.bad,
		o.msg.chars().filter(|c| c.is_ascii() && *c != '\\' && *c != '"').take(120).collect::<String>(),
	)
}
pub fn peek_line(o: &Outcome) -> String {
	format!("{{\"e\":\"peek\",\"mem\":{}}}\n", list(&o.post, |x| x as i64))
}
/// A whole execution of one case.
pub fn trace(c: &Case, o: &Outcome, sig: &str) -> String {
	let mut s = String::new();
	if flat(c) {
		// every viewed element has the same value; described as a memory of n equal elements
		let n = c.n();
		let mut d = c.clone();
		d.nb = n;
		d.mem = vec![];
		let r = if c.ty == Ty::Z { 0 } else { o.ranks[c.mem_at(c.view.off) as usize] };
		s.push_str(&new_line(&d, &vec![r; n]));
		let v = Desc { off: 0, st: 1, n: n as i64 };
		s.push_str(&view_line(v));
		s.push_str(&call_line(c, sig));
		s.push_str(&end_line(c, o));
		return s;
	}
	s.push_str(&new_line(c, &o.ranks));
	s.push_str(&view_line(c.view));
	s.push_str(&call_line(c, sig));
	if c.detail {
		cbs_lines(o, &mut s);
	}
	nested_lines(c, o, &mut s);
	s.push_str(&end_line(c, o));
	if o.status != Status::Diverged {
		s.push_str(&peek_line(o));
	}
	s
}
