//! Element types: every element carries an identity so that the memory can be read back as a sequence of identities.
use crate::ctx::{ctx, try_ctx};
use std::cell::Cell;
use std::cmp::Ordering;

pub trait Elem: Ord + Send + 'static {
	/// Whether `id` is an identity (otherwise it is the rank).
	const IDENT: bool = true;
	fn make(id: u32) -> Self;
	fn id(&self) -> i32;
	fn count(&self) -> Option<u32> {
		None
	}
	fn bump(&self) {}
	/// The value looked for by a membership test.
	fn target() -> Self;
}
const CK: u32 = 0xA5C3_5A3C;
pub const TGT: u32 = 0x7FFF_FFFF;

macro_rules! ord_impl {
	($t:ty) => {
		impl PartialEq for $t {
			fn eq(&self, o: &Self) -> bool {
				ctx().eq(self, o)
			}
		}
		impl Eq for $t {}
		impl PartialOrd for $t {
			fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
				ctx().pcmp(self, o)
			}
		}
		impl Ord for $t {
			fn cmp(&self, o: &Self) -> Ordering {
				if o.id() == -2 {
					return ctx().probe(self, ctx().target as i64);
				}
				ctx().cmp(self, o)
			}
		}
	};
}

/// Small copyable element.
#[derive(Clone, Copy)]
pub struct ES {
	id: u32,
	ck: u32,
}
ord_impl!(ES);
fn rd(id: u32, ck: u32) -> i32 {
	if id ^ CK != ck {
		-1
	} else if id == TGT {
		-2
	} else if id > TGT {
		-1
	} else {
		id as i32
	}
}
impl Elem for ES {
	fn make(id: u32) -> Self {
		ES { id, ck: id ^ CK }
	}
	fn id(&self) -> i32 {
		rd(self.id, self.ck)
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}
impl std::fmt::Debug for ES {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{}", self.id)
	}
}

/// Element with a destructor and a touch counter behind interior mutability (Send, not Sync).
pub struct ED {
	id: u32,
	ck: u32,
	cnt: Cell<u32>,
}
ord_impl!(ED);
impl Elem for ED {
	fn make(id: u32) -> Self {
		ED { id, ck: id ^ CK, cnt: Cell::new(0) }
	}
	fn id(&self) -> i32 {
		rd(self.id, self.ck)
	}
	fn count(&self) -> Option<u32> {
		Some(self.cnt.get())
	}
	fn bump(&self) {
		self.cnt.set(self.cnt.get() + 1)
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}
impl Drop for ED {
	fn drop(&mut self) {
		let i = self.id();
		if i == -2 {
			return;
		}
		if let Some(c) = try_ctx() {
			c.dropped(i);
		}
	}
}

/// Large element; a torn copy is not a valid element.
pub struct EL {
	w: [u64; 17],
}
ord_impl!(EL);
impl Elem for EL {
	fn make(id: u32) -> Self {
		let mut w = [0; 17];
		for (i, x) in w.iter_mut().enumerate() {
			*x = ((id as u64) << 32) | (id ^ CK ^ i as u32) as u64;
		}
		EL { w }
	}
	fn id(&self) -> i32 {
		let id = (self.w[0] >> 32) as u32;
		for (i, x) in self.w.iter().enumerate() {
			if *x != ((id as u64) << 32) | (id ^ CK ^ i as u32) as u64 {
				return -1;
			}
		}
		rd(id, id ^ CK)
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}

/// Element of odd size and alignment 1.
pub struct E3 {
	b: [u8; 3],
}
ord_impl!(E3);
impl Elem for E3 {
	fn make(id: u32) -> Self {
		let id = id.min(0xFF_FFFF);
		E3 { b: [id as u8, (id >> 8) as u8, (id >> 16) as u8] }
	}
	fn id(&self) -> i32 {
		let id = self.b[0] as i32 | (self.b[1] as i32) << 8 | (self.b[2] as i32) << 16;
		if id == 0xFF_FFFF { -2 } else { id }
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}

/// A single byte (see `Case::elem`).
pub struct EB(u8);
ord_impl!(EB);
impl Elem for EB {
	fn make(id: u32) -> Self {
		EB(id.min(255) as u8)
	}
	fn id(&self) -> i32 {
		if self.0 == 255 { -2 } else { self.0 as i32 }
	}
	fn target() -> Self {
		EB(255)
	}
}

/// Four words.
pub struct EM {
	w: [u64; 4],
}
ord_impl!(EM);
impl Elem for EM {
	fn make(id: u32) -> Self {
		let x = ((id as u64) << 32) | (id ^ CK) as u64;
		EM { w: [x, x + 1, x + 2, x + 3] }
	}
	fn id(&self) -> i32 {
		let [x, a, b, c] = self.w;
		if a.wrapping_sub(x) != 1 || b.wrapping_sub(x) != 2 || c.wrapping_sub(x) != 3 {
			return -1;
		}
		rd((x >> 32) as u32, x as u32)
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}

/// Element of more than a kilobyte, aligned to 64 bytes: anywhere else it is not a valid element.
#[repr(align(64))]
pub struct EA {
	w: [u64; 130],
}
ord_impl!(EA);
impl Elem for EA {
	fn make(id: u32) -> Self {
		let mut w = [0; 130];
		let x = ((id as u64) << 32) | (id ^ CK) as u64;
		(w[0], w[64], w[129]) = (x, x, x);
		EA { w }
	}
	fn id(&self) -> i32 {
		let x = self.w[0];
		let id = (x >> 32) as u32;
		if x != self.w[64] || x != self.w[129] || self as *const EA as usize & 63 != 0 {
			return -1;
		}
		rd(id, x as u32)
	}
	fn target() -> Self {
		Self::make(TGT)
	}
}

/// Zero-sized element.
pub struct EZ;
impl PartialEq for EZ {
	fn eq(&self, _: &Self) -> bool {
		true
	}
}
impl Eq for EZ {}
impl PartialOrd for EZ {
	fn partial_cmp(&self, _: &Self) -> Option<Ordering> {
		Some(Ordering::Equal)
	}
}
impl Ord for EZ {
	fn cmp(&self, _: &Self) -> Ordering {
		Ordering::Equal
	}
}
impl Elem for EZ {
	fn make(_: u32) -> Self {
		EZ
	}
	fn id(&self) -> i32 {
		0
	}
	fn target() -> Self {
		EZ
	}
}

/// Key type: its order is a user callback as well. `W` pads it.
pub struct Key<const W: usize> {
	pub r: u32,
	#[allow(dead_code)]
	pub pad: [u32; W],
}
impl<const W: usize> Key<W> {
	/// Keys made by a callback are temporaries of the call: each has to be dropped exactly once.
	pub fn new(r: u32) -> Self {
		ctx().key_made(r);
		Key { r, pad: [0; W] }
	}
}
impl<const W: usize> Drop for Key<W> {
	fn drop(&mut self) {
		if let Some(c) = try_ctx() {
			c.key_dropped(self.r);
		}
	}
}
impl<const W: usize> PartialEq for Key<W> {
	fn eq(&self, o: &Self) -> bool {
		ctx().kcmp(self.r, o.r) == Ordering::Equal && self.r != crate::ctx::NAN
	}
}
impl<const W: usize> Eq for Key<W> {}
impl<const W: usize> PartialOrd for Key<W> {
	fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
		let c = ctx().kcmp(self.r, o.r);
		if self.r == crate::ctx::NAN || o.r == crate::ctx::NAN { None } else { Some(c) }
	}
}
impl<const W: usize> Ord for Key<W> {
	fn cmp(&self, o: &Self) -> Ordering {
		ctx().kcmp(self.r, o.r)
	}
}
