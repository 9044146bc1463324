//! Large subsequences and many subsequences, around the sizes where representations change
//! (powers of two, 16-bit and 8-bit limits): every combination of a size, a way to arrange and
//! build it, a position to focus, and a short edit.
use crate::common::It;
use crate::mc::*;
use crate::raz_model::Oracle;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::Count;
use std::rc::Rc;

type R = Raz<u32, Count>;
type T = RazTree<u32, Count>;
/// (elements of the subsequences, levels between them)
#[derive(Clone, Debug)]
pub struct Layout { sizes: Vec<usize>, levels: Vec<u32> }
pub fn layouts(sizes: &[usize], groups: &[usize]) -> Vec<Layout> {
	let mut v = vec![];
	for &n in sizes {
		v.push(Layout { sizes: vec![n], levels: vec![] });
		v.push(Layout { sizes: vec![n, 1], levels: vec![3] });
		v.push(Layout { sizes: vec![1, n], levels: vec![3] });
		v.push(Layout { sizes: vec![2, n, 2], levels: vec![2, 5] });
		v.push(Layout { sizes: vec![n / 2, 1, n - n / 2 - 1], levels: vec![5, 2] });
	}
	for &g in groups {
		v.push(Layout { sizes: vec![1; g], levels: (0..g as u32 - 1).map(|i| (i + 1).trailing_zeros() + 1).collect() });
		v.push(Layout { sizes: vec![1; g], levels: vec![7; g - 1] });
		v.push(Layout { sizes: vec![2; g], levels: (1..g as u32).collect() });
		v.push(Layout { sizes: vec![1; g], levels: (1..g as u32).rev().collect() });
	}
	v
}
/// four small subsequences and all triples of levels from the whole range
pub fn level_range() -> Vec<Layout> {
	let r = [1, 32, 64, 255, 256, 65_536, 1 << 31, u32::max_value() - 1];
	let mut v = vec![];
	for &a in &r { for &b in &r { for &c in &r { v.push(Layout { sizes: vec![1, 2, 1, 1], levels: vec![a, b, c] }); } } }
	v
}
/// as sequences with named markers
pub fn named(ls: &[Layout]) -> Vec<Vec<It>> {
	ls.iter().map(|l| {
		let (mut v, mut e) = (vec![], 0);
		for (i, &n) in l.sizes.iter().enumerate() {
			if i > 0 { v.push(It::M(l.levels[i - 1], i as u16)) }
			for _ in 0..n { v.push(It::E(e)); e += 1; }
		}
		v
	}).collect()
}
/// `Ok` an element, `Err` a marker of that level
type Items = Vec<Result<u32, u32>>;
fn items(l: &Layout) -> Items {
	let mut v = vec![];
	let mut e = 0;
	for (i, &n) in l.sizes.iter().enumerate() {
		if i > 0 { v.push(Err(l.levels[i - 1])) }
		for _ in 0..n { v.push(Ok(e)); e += 1; }
	}
	v
}
fn elems(v: &[Result<u32, u32>]) -> Vec<u32> { v.iter().filter_map(|i| i.ok()).collect() }
fn read(t: &T) -> Items {
	let v = std::cell::RefCell::new(vec![]);
	let v = Rc::new(v);
	let (a, b) = (v.clone(), v.clone());
	t.clone().fold_lr_meta((), Rc::new(move |_, e: &u32| a.borrow_mut().push(Ok(*e))), Rc::new(move |_, (l, _)| b.borrow_mut().push(Err(l))));
	let r = v.borrow().clone();
	r
}
fn build(i: &Items, way: usize) -> R {
	let mut r = R::new();
	let a = match way { 0 => i.len(), 1 => 0, _ => i.len() / 2 };
	for x in &i[..a] { match *x { Ok(e) => { r.push_left(e); } Err(l) => r.archive_left(l, None) } }
	for x in i[a..].iter().rev() { match *x { Ok(e) => { r.push_right(e); } Err(l) => r.archive_right(l, None) } }
	r
}
/// hash of a sequence, composable in any bracketing
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
struct Poly { n: usize, pow: u64, h: u64 }
impl Poly {
	fn nil() -> Poly { Poly { n: 0, pow: 1, h: 0 } }
	fn one(e: u32) -> Poly { Poly { n: 1, pow: 0x9e37_79b9_7f4a_7c15, h: (e as u64 + 1).wrapping_mul(0xff51_afd7_ed55_8ccd) ^ 77 } }
	fn mark(l: u32) -> Poly { Poly { n: 0, ..Poly::one(l ^ 0x8000_0000) } }
	fn then(self, b: Poly) -> Poly { Poly { n: self.n + b.n, pow: self.pow.wrapping_mul(b.pow), h: self.h.wrapping_mul(b.pow).wrapping_add(b.h) } }
}
fn all(v: &[Result<u32, u32>]) -> Poly { v.iter().fold(Poly::nil(), |a, i| a.then(match *i { Ok(e) => Poly::one(e), Err(l) => Poly::mark(l) })) }
pub struct Large { pub oracle: Oracle, pub layouts: Vec<Layout> }
fn short<X: std::fmt::Debug>(v: &[X]) -> String { if v.len() < 40 { format!("{:?}", v) } else { format!("{} entries: {:?} .. {:?}", v.len(), &v[..8], &v[v.len() - 8..]) } }
fn first_diff<X: PartialEq>(a: &[X], b: &[X]) -> usize { (0..).find(|&i| a.get(i) != b.get(i) || i > a.len()).unwrap() }
fn same_list<X: PartialEq + std::fmt::Debug>(key: &str, what: &str, got: &[X], want: &[X]) -> Res<()> {
	ensure!(key, got == want, "{}: got {}, the model says {} (first difference at {})", what, short(got), short(want), first_diff(got, want));
	Ok(())
}
impl Large {
	fn check(&self, what: &str, t: &T, want: &Items) -> Res<()> {
		let o = self.oracle;
		let es = elems(want);
		if o.list || o.persist || o.focus { same_list("content", &format!("elements {}", what), &elems(&read(t)), &es)?; }
		if o.marks { same_list("markers", &format!("elements and markers {}", what), &read(t), want)?; }
		if o.meta {
			same!("meta-count", format!("element count in the metadata {}", what), t.meta().0, es.len());
			let m: T = t.clone().map(Rc::new(|e: &u32| *e));
			same!("meta-count", format!("element count in the metadata after mapping {}", what), m.meta().0, es.len());
		}
		if o.folds {
			// concatenating would take quadratic time: a polynomial hash reveals the order as well
			let h = |v: &[u32]| v.iter().fold(Poly::nil(), |a, e| a.then(Poly::one(*e)));
			let want_h = h(&es);
			let r = t.clone().fold_up(Rc::new(|e: &u32| Poly::one(*e)), Rc::new(|a: Poly, b: Poly| a.then(b)));
			same!("fold_up", format!("(count, hash) by fold_up {}", what), r, if es.is_empty() { None } else { Some(want_h) });
			let r = t.clone().fold_up_gauged(Rc::new(move |v: &Vec<u32>| h(v)), Rc::new(|a: Poly, l, _, b: Poly| a.then(Poly::mark(l)).then(b)));
			same!("fold_up_gauged", format!("(count, hash) by fold_up_gauged {}", what), r, if es.is_empty() { None } else { Some(all(want)) });
			let r = t.clone().fold_up_nl(Rc::new(|e: &u32| Poly::one(*e)), Rc::new(|a: Poly, b: Poly| a.then(b)), Rc::new(|a: Poly, l, _, b: Poly| a.then(Poly::mark(l)).then(b)));
			same!("fold_up_nl", format!("(count, hash) by fold_up_nl {}", what), r, if es.is_empty() { None } else { Some(all(want)) });
			let r = t.clone().fold_lr(Poly::nil(), Rc::new(|a: Poly, e: &u32| a.then(Poly::one(*e))));
			same!("fold_lr", format!("(count, hash) by fold_lr {}", what), r, want_h);
			let m: T = t.clone().map(Rc::new(|e: &u32| e + 1_000_000));
			same_list("map", &format!("the mapped sequence {}", what), &read(&m), &want.iter().map(|i| i.map(|e| e + 1_000_000)).collect::<Vec<_>>())?;
		}
		if o.canon {
			#[derive(Clone, PartialEq, Eq, Hash, Debug)]
			struct S { lev: u32, ok: bool }
			let r = t.clone().fold_up_gauged(Rc::new(|_: &Vec<u32>| S { lev: 0, ok: true }), Rc::new(|a: S, l, _, b: S| S { lev: l, ok: a.ok && b.ok && a.lev < l && b.lev <= l }));
			ensure!("canonical", r.map(|s| s.ok).unwrap_or(true), "{}: some branch is not above everything to its left and at least everything to its right", what);
		}
		Ok(())
	}
}
impl Model for Large {
	type S = u32;
	fn inits(&self) -> usize { self.layouts.len() * 3 }
	fn describe_init(&self, i: usize) -> String { let l = &self.layouts[i / 3]; format!("subsequences of sizes {}, levels {}, built {}", short(&l.sizes), short(&l.levels), ["from the left", "from the right", "from the middle"][i % 3]) }
	fn init(&self, i: usize) -> Res<u32> {
		let its = items(&self.layouts[i / 3]);
		let n = elems(&its).len();
		let r = build(&its, i % 3);
		let t = r.unfocus();
		self.check("as built", &t, &its)?;
		// positions: ends, next to every (or some) markers, the middle
		let mut ps = vec![0, 1, n / 2, n - 1, n, usize::max_value()];
		let mut c = 0;
		let ms: Vec<usize> = its.iter().filter_map(|i| match *i { Ok(_) => { c += 1; None } Err(_) => Some(c) }).collect();
		for (k, m) in ms.iter().enumerate() { if k < 4 || k + 4 > ms.len() || k == ms.len() / 2 { ps.extend(&[m - 1, *m, m + 1]); } }
		ps.sort(); ps.dedup();
		for p in ps {
			if p > n && p != usize::max_value() { continue }
			let cut = if p == 0 { 0 } else if p > n { its.len() } else { let mut c = 0; its.iter().position(|i| { if i.is_ok() { c += 1 } c == p }).unwrap() + 1 };
			let z = match t.clone().focus(p) { Some(z) => z, None => return bad("focus-refused", format!("focus({}) of {} elements is refused", p, n)) };
			let (l, rt) = (its[..cut].to_vec(), its[cut..].to_vec());
			if self.oracle.focus || self.oracle.list {
				same!("peek_left", format!("peek_left after focus({})", p), z.peek_left(), elems(&l).last().cloned());
				same!("peek_right", format!("peek_right after focus({})", p), z.peek_right(), elems(&rt).first().cloned());
			}
			// nothing, one push on each side, pops on each side, a marker with new data
			for e in 0..6 {
				let mut z = z.clone();
				let (mut l, mut rt) = (l.clone(), rt.clone());
				match e {
					0 => {}
					1 => { z.push_left(2_000_000); l.push(Ok(2_000_000)); }
					2 => { z.push_right(2_000_001); rt.insert(0, Ok(2_000_001)); }
					3 | 4 => for _ in 0..3 {
						if e == 3 { let got = z.pop_left(); let want = match l.iter().rposition(|i| i.is_ok()) { None => None, Some(q) => { let e = l[q]; l.truncate(q); e.ok() } }; if self.oracle.list { same!("pop_left", "pop_left", got, want); } }
						else { let got = z.pop_right(); let want = match rt.iter().position(|i| i.is_ok()) { None => None, Some(q) => { let e = rt[q]; rt.drain(..q + 1); e.ok() } }; if self.oracle.list { same!("pop_right", "pop_right", got, want); } }
					},
					_ => {
						if l.last().map(|i| i.is_ok()).unwrap_or(false) { l.push(Err(4)) }
						z.archive_left(4, None); z.push_left(2_000_000); l.push(Ok(2_000_000));
					}
				}
				let u = z.unfocus();
				let mut want = l; want.extend(rt);
				if e >= 3 {
					// dropped and merged markers are C04's matter: take what is there
					let got = read(&u);
					if elems(&got) == elems(&want) { want = got; }
				}
				self.check(&format!("after edit {} at {}", e, p), &u, &want)?;
			}
			if self.oracle.persist { self.check(&format!("after editing copies focused at {}", p), &t, &its)?; }
		}
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
