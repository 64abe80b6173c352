//! One call (or one call per history step) on the real code, as data.
use crate::ctx::Mode;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
	Sort,
	Cached,
	Unst,
	PSort,
	PCached,
	PUnst,
	Sel,
	Many,
	PMany,
	IsSorted,
	Contains,
	Bs,
	Pp,
	Dedup,
	Rev,
}
pub const OPS: [(Op, &str); 15] = [
	(Op::Sort, "sort"),
	(Op::Cached, "cached"),
	(Op::Unst, "unst"),
	(Op::PSort, "psort"),
	(Op::PCached, "pcached"),
	(Op::PUnst, "punst"),
	(Op::Sel, "sel"),
	(Op::Many, "many"),
	(Op::PMany, "pmany"),
	(Op::IsSorted, "issorted"),
	(Op::Contains, "contains"),
	(Op::Bs, "bs"),
	(Op::Pp, "pp"),
	(Op::Dedup, "dedup"),
	(Op::Rev, "rev"),
];
impl Op {
	pub fn name(self) -> &'static str {
		OPS.iter().find(|x| x.0 == self).unwrap().1
	}
	pub fn parse(s: &str) -> Op {
		OPS.iter().find(|x| x.1 == s).unwrap_or_else(|| panic!("op {s}")).0
	}
	pub fn parallel(self) -> bool {
		matches!(self, Op::PSort | Op::PCached | Op::PUnst | Op::PMany)
	}
	pub fn stable(self) -> bool {
		matches!(self, Op::Sort | Op::PSort | Op::Cached | Op::PCached)
	}
	pub fn sorts(self) -> bool {
		matches!(self, Op::Sort | Op::PSort | Op::Cached | Op::PCached | Op::Unst | Op::PUnst)
	}
	pub fn readonly(self) -> bool {
		matches!(self, Op::IsSorted | Op::Contains | Op::Bs | Op::Pp)
	}
	pub fn available(self) -> bool {
		match self {
			Op::Sort => cfg!(feature = "f_alloc"),
			Op::Cached => cfg!(feature = "f_std"),
			o if o.parallel() => cfg!(feature = "par"),
			_ => true,
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Form {
	Nat,
	By,
	Key,
}
impl Form {
	pub fn name(self) -> &'static str {
		match self {
			Form::Nat => "nat",
			Form::By => "by",
			Form::Key => "key",
		}
	}
	pub fn parse(s: &str) -> Form {
		match s {
			"nat" => Form::Nat,
			"by" => Form::By,
			_ => Form::Key,
		}
	}
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
	S,
	D,
	L,
	E3,
	/// one byte
	B,
	/// four words
	M,
	/// large, aligned to a cache line
	A,
	Z,
}
impl Ty {
	pub fn name(self) -> &'static str {
		match self {
			Ty::S => "small",
			Ty::D => "drop",
			Ty::L => "large",
			Ty::E3 => "odd",
			Ty::A => "aligned",
			Ty::B => "byte",
			Ty::M => "medium",
			Ty::Z => "zst",
		}
	}
	pub fn parse(s: &str) -> Ty {
		match s {
			"small" => Ty::S,
			"drop" => Ty::D,
			"large" => Ty::L,
			"odd" => Ty::E3,
			"aligned" => Ty::A,
			"byte" => Ty::B,
			"medium" => Ty::M,
			_ => Ty::Z,
		}
	}
	pub fn size(self) -> usize {
		match self {
			Ty::S => 8,
			Ty::D => 12,
			Ty::L => 136,
			Ty::E3 => 3,
			Ty::A => 1088,
			Ty::B => 1,
			Ty::M => 32,
			Ty::Z => 0,
		}
	}
}
/// How the array owns its memory.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Owner {
	/// mutable view into a one-dimensional array (offset and stride as given)
	View,
	/// owned array (offset 0, stride 1)
	Owned,
	/// shared array with a second owner
	Arc,
	/// copy-on-write array borrowing from an original
	Cow,
	/// column of a row-major matrix / row of a column-major one (offset < stride)
	Lane,
	/// read-only view of stride 0
	Bcast,
}
impl Owner {
	pub fn name(self) -> &'static str {
		match self {
			Owner::View => "view",
			Owner::Owned => "owned",
			Owner::Arc => "arc",
			Owner::Cow => "cow",
			Owner::Lane => "lane",
			Owner::Bcast => "bcast",
		}
	}
	pub fn parse(s: &str) -> Owner {
		match s {
			"view" => Owner::View,
			"owned" => Owner::Owned,
			"arc" => Owner::Arc,
			"cow" => Owner::Cow,
			"lane" => Owner::Lane,
			_ => Owner::Bcast,
		}
	}
}
/// Viewed element i is at backing position off + i * st.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Desc {
	pub off: i64,
	pub st: i64,
	pub n: i64,
}
impl Desc {
	pub fn pos(&self, i: usize) -> i64 {
		self.off + self.st * i as i64
	}
}

/// A callback (every `every`-th, `max` times) makes this call.
#[derive(Clone, Debug)]
pub struct Nest {
	pub every: u64,
	pub max: u64,
	pub case: Case,
}

#[derive(Clone, Debug)]
pub struct Case {
	pub op: Op,
	pub form: Form,
	pub ty: Ty,
	pub owner: Owner,
	/// backing length
	pub nb: usize,
	pub view: Desc,
	/// rank of every backing element (by identity = initial position)
	pub ranks: Vec<u32>,
	/// current content of the backing memory (identities); empty: identity
	pub mem: Vec<i32>,
	pub k: usize,
	pub idx: Vec<usize>,
	/// stride of the view in which the index list itself is passed
	pub idx_st: i64,
	pub target: i64,
	pub prior: usize,
	pub spare: usize,
	pub kw: usize,
	pub pool: usize,
	pub mode: Mode,
	pub seed: u64,
	pub panic_at: u64,
	pub panic_len: u64,
	/// the collection panics at its so manieth element (selection of many)
	pub ext: u64,
	pub excl: bool,
	pub perturb: u32,
	pub touch: bool,
	pub eq_kind: u8,
	pub detail: bool,
	/// drop the array (and check the ledger) after the call
	pub ledger: bool,
	pub track: bool,
	pub nest: Option<Box<Nest>>,
}

impl Case {
	pub fn plain(op: Op, form: Form, ranks: Vec<u32>) -> Case {
		let n = ranks.len();
		Case {
			op,
			form,
			ty: Ty::S,
			owner: Owner::Owned,
			nb: n,
			view: Desc { off: 0, st: 1, n: n as i64 },
			ranks,
			mem: vec![],
			k: 0,
			idx: vec![],
			idx_st: 1,
			target: 0,
			prior: 0,
			spare: 0,
			kw: 4,
			pool: 0,
			mode: Mode::Cons,
			seed: 1,
			panic_at: u64::MAX,
			panic_len: 0,
			ext: u64::MAX,
			excl: false,
			perturb: 0,
			touch: false,
			eq_kind: 0,
			detail: false,
			ledger: false,
			track: false,
			nest: None,
		}
	}
	pub fn n(&self) -> usize {
		self.view.n as usize
	}
	/// Elements of one byte have room for few identities.
	pub fn elem(&self) -> Ty {
		if self.ty == Ty::B && self.nb > 250 { Ty::S } else { self.ty }
	}
	/// identities of the viewed elements before the call
	pub fn pre(&self) -> Vec<i32> {
		(0..self.n()).map(|i| self.mem_at(self.view.pos(i))).collect()
	}
	pub fn view_ranks(&self) -> Vec<u32> {
		(0..self.n()).map(|i| self.ranks[self.view.pos(i) as usize]).collect()
	}
	pub fn mem_at(&self, p: i64) -> i32 {
		if self.mem.is_empty() { p as i32 } else { self.mem[p as usize] }
	}
	/// Zero-sized elements have no identity, place or value: a plain layout of equal elements.
	pub fn normal(&self) -> Case {
		let mut c = self.clone();
		if c.ty == Ty::Z {
			let n = c.n();
			c.owner = Owner::Owned;
			c.nb = n;
			c.view = Desc { off: 0, st: 1, n: n as i64 };
			c.ranks = vec![0; n];
			c.mem = vec![];
			c.ledger = false;
			c.touch = false;
			c.excl = false;
			c.detail = false;
			c.nest = None;
		}
		c
	}
	/// Re-lay the viewed ranks out with the given descriptor; other positions get decoy ranks.
	pub fn relayout(&mut self, owner: Owner, off: i64, st: i64, nb: usize, decoy: impl Fn(usize) -> u32) {
		let n = self.n();
		let vr: Vec<u32> = (0..n).map(|i| self.ranks[self.view.pos(i) as usize]).collect();
		self.owner = owner;
		self.view = Desc { off, st, n: n as i64 };
		self.nb = nb;
		self.mem = vec![];
		self.ranks = (0..nb).map(|p| decoy(p)).collect();
		for (i, r) in vr.iter().enumerate() {
			let p = self.view.pos(i);
			assert!(p >= 0 && (p as usize) < nb);
			self.ranks[p as usize] = *r;
		}
	}
	pub fn to_text(&self) -> String {
		fn list<T: ToString>(v: &[T]) -> String {
			if v.is_empty() { "-".into() } else { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
		}
		let mode = match self.mode {
			Mode::Cons => "cons".to_string(),
			Mode::Adv { freeze, flip, dup } => format!("adv,{},{},{}", freeze, flip as u8, dup),
			Mode::Guide { script, len, freeze } => format!("guide,{},{},{}", script, len, freeze),
			Mode::Liar { kind, from } => format!("liar,{},{}", kind, from),
		};
		let nest = match &self.nest {
			None => String::new(),
			Some(x) => format!(" nest={},{}|{}", x.every, x.max, x.case.to_text().replace(' ', "|")),
		};
		let t = format!(
			"op={} form={} ty={} owner={} nb={} view={},{},{} k={} idx={} ist={} tgt={} prior={} spare={} kw={} pool={} mode={} seed={} pan={},{} ext={} excl={} pert={} touch={} eq={} detail={} ledger={} track={} mem={} ranks={}",
			self.op.name(),
			self.form.name(),
			self.ty.name(),
			self.owner.name(),
			self.nb,
			self.view.off,
			self.view.st,
			self.view.n,
			self.k,
			list(&self.idx),
			self.idx_st,
			self.target,
			self.prior,
			self.spare,
			self.kw,
			self.pool,
			mode,
			self.seed,
			self.panic_at,
			self.panic_len,
			self.ext,
			self.excl as u8,
			self.perturb,
			self.touch as u8,
			self.eq_kind,
			self.detail as u8,
			self.ledger as u8,
			self.track as u8,
			list(&self.mem),
			list(&self.ranks),
		);
		t + &nest
	}
	pub fn parse(s: &str) -> Case {
		let mut c = Case::plain(Op::Rev, Form::Nat, vec![]);
		fn list<T: std::str::FromStr>(v: &str) -> Vec<T> {
			if v == "-" { vec![] } else { v.split(',').map(|x| x.parse().ok().expect("number")).collect() }
		}
		for kv in s.split_whitespace() {
			let (k, v) = kv.split_once('=').expect("k=v");
			let b = || v == "1";
			let p = || v.parse::<u64>().expect("number");
			match k {
				"op" => c.op = Op::parse(v),
				"form" => c.form = Form::parse(v),
				"ty" => c.ty = Ty::parse(v),
				"owner" => c.owner = Owner::parse(v),
				"nb" => c.nb = p() as usize,
				"view" => {
					let l: Vec<i64> = list(v);
					c.view = Desc { off: l[0], st: l[1], n: l[2] };
				}
				"k" => c.k = p() as usize,
				"idx" => c.idx = list(v),
				"ist" => c.idx_st = v.parse().unwrap(),
				"tgt" => c.target = v.parse().unwrap(),
				"prior" => c.prior = p() as usize,
				"spare" => c.spare = p() as usize,
				"kw" => c.kw = p() as usize,
				"pool" => c.pool = p() as usize,
				"mode" => {
					let l: Vec<&str> = v.split(',').collect();
					c.mode = match l[0] {
						"cons" => Mode::Cons,
						"adv" => Mode::Adv {
							freeze: l[1].parse().unwrap(),
							flip: l[2] == "1",
							dup: l[3].parse().unwrap(),
						},
						"guide" => Mode::Guide {
							script: l[1].parse().unwrap(),
							len: l[2].parse().unwrap(),
							freeze: l[3].parse().unwrap(),
						},
						_ => Mode::Liar { kind: l[1].parse().unwrap(), from: l[2].parse().unwrap() },
					};
				}
				"seed" => c.seed = p(),
				"pan" => {
					let l: Vec<u64> = list(v);
					c.panic_at = l[0];
					c.panic_len = l[1];
				}
				"excl" => c.excl = b(),
				"pert" => c.perturb = p() as u32,
				"touch" => c.touch = b(),
				"eq" => c.eq_kind = p() as u8,
				"detail" => c.detail = b(),
				"ledger" => c.ledger = b(),
				"track" => c.track = b(),
				"ext" => c.ext = v.parse().unwrap(),
				"mem" => c.mem = list(v),
				"nest" => {
					let (h, t) = v.split_once('|').expect("nest");
					let l: Vec<u64> = list(h);
					c.nest = Some(Box::new(Nest { every: l[0], max: l[1], case: Case::parse(&t.replace('|', " ")) }));
				}
				"ranks" => c.ranks = list(v),
				_ => panic!("case key {k}"),
			}
		}
		c
	}
}
