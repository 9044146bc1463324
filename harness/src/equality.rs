//! C26: values compare equal exactly when they hold the same content, and hash accordingly.
//! Every pair of contents from a complete small space (and from large ones with a single
//! difference at every place) is compared, each content built in several ways.
use crate::common::*;
use crate::mc::*;
use crate::raz_model::{build, inc, spine, WAYS};
use crate::trees::{relabel, shapes, to_imp, D, T};
use adapton::engine::{name_of_usize, Name};
use iodyn::archive_stack::AStack;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Position, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use iodyn::level_tree::Tree;
use iodyn::tree_cursor::Cursor;
use std::any::Any;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;
use std::rc::Rc;

pub trait Source: Send + Sync + 'static {
	type C: Eq + Debug + Send + Sync + 'static;
	type V: Eq + Hash + Clone + 'static;
	const WHAT: &'static str;
	/// in how many ways a content is built; all must give equal values
	fn ways(c: &Self::C) -> usize;
	fn build(c: &Self::C, way: usize) -> Self::V;
}
/// `contents` are pairwise different
pub struct Equality<S: Source> { pub key: usize, pub contents: Vec<S::C> }
thread_local!(static BUILT: RefCell<(usize, Option<Rc<dyn Any>>)> = RefCell::new((0, None)));
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
impl<S: Source> Equality<S> {
	/// one value of every content
	fn all(&self) -> Rc<Vec<S::V>> {
		BUILT.with(|b| {
			let mut b = b.borrow_mut();
			if b.0 != self.key || b.1.is_none() {
				let v: Vec<S::V> = self.contents.iter().map(|c| S::build(c, 0)).collect();
				*b = (self.key, Some(Rc::new(v)));
			}
			b.1.clone().unwrap().downcast::<Vec<S::V>>().expect("values of this part")
		})
	}
}
impl<S: Source> Model for Equality<S> {
	type S = u32;
	fn inits(&self) -> usize { self.contents.len() }
	fn describe_init(&self, i: usize) -> String { format!("{} holding {:?}, compared with {} others", S::WHAT, self.contents[i], self.contents.len() - 1) }
	fn init(&self, i: usize) -> Res<u32> {
		let all = self.all();
		let c = &self.contents[i];
		let v = S::build(c, 0);
		ensure!("itself", v == all[i] && all[i] == v && v == v.clone() && !(v != all[i]), "two values built alike, holding {:?}, are not equal", c);
		same!("hash", format!("hash of two values built alike, holding {:?}", c), hash(&v), hash(&all[i]));
		same!("hash", format!("hash of a clone of the value holding {:?}", c), hash(&v.clone()), hash(&v));
		for way in 1..S::ways(c) {
			let w = S::build(c, way);
			ensure!("same-content", w == v && v == w && !(v != w), "the value holding {:?} differs from the one built in way {}", c, way);
			same!("hash", format!("hash of the value holding {:?} built in way {}", c, way), hash(&w), hash(&v));
		}
		for (j, o) in all.iter().enumerate() {
			ensure!("different-content", i == j || v != *o, "the value holding {:?} equals the one holding {:?}", c, self.contents[j]);
		}
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}

/// all lists of `groups` subsequences of `sizes` elements out of two, with all markers
pub fn contents(groups: std::ops::RangeInclusive<usize>, size: usize, levels: &[u32], names: &[u16], last_empty: bool) -> Vec<Vec<It>> {
	let mut gs: Vec<Vec<It>> = vec![];
	for n in 1..size + 1 { let mut v = vec![0usize; n]; loop { gs.push(v.iter().map(|e| It::E(*e as u16)).collect()); if !inc(&mut v, 2, 0) { break } } }
	let mut ms = vec![];
	for &l in levels { for &n in names { ms.push(It::M(l, n)); } }
	let mut out: Vec<Vec<It>> = vec![vec![]];
	let mut cur = gs.clone();
	for g in 1..*groups.end() + 1 {
		if groups.contains(&g) { out.extend(cur.iter().cloned()); }
		let mut next = vec![];
		for c in &cur { for m in &ms {
			let mut p = c.clone();
			p.push(*m);
			if last_empty && groups.contains(&g) { out.push(p.clone()); }
			if g < *groups.end() { for h in &gs { let mut q = p.clone(); q.extend(h); next.push(q); } }
		} }
		cur = next;
	}
	out
}
/// long contents, and each of them with a single difference at every place
pub fn long(sections: &[usize], sizes: &[usize]) -> Vec<Vec<It>> {
	let mut base: Vec<Vec<It>> = sizes.iter().map(|n| (0..*n).map(|i| It::E(i as u16)).collect()).collect();
	for &n in sections { base.push(spine(n, &|i| (i as u32 + 1).trailing_zeros() + 1, true)); base.push(spine(n, &|_| 3, true)); }
	let mut out: Vec<Vec<It>> = vec![];
	for b in base {
		for i in 0..b.len() {
			let alts = match b[i] { It::E(e) => vec![It::E(e + 1000)], It::M(l, n) => vec![It::M(l + 1, n), It::M(l, 0), It::M(l, n + 500)] };
			for a in alts { let mut c = b.clone(); c[i] = a; if !out.contains(&c) { out.push(c); } }
			// one element fewer, where that leaves none of the subsequences empty
			if b[i].is_e() && b.len() > 1 && (i > 0 && b[i - 1].is_e() || i + 1 < b.len() && b[i + 1].is_e()) { let mut c = b.clone(); c.remove(i); out.push(c); }
		}
		out.push(b);
	}
	out
}

/// an unfocused sequence
pub struct Seqs<K>(PhantomData<K>);
unsafe impl<K> Send for Seqs<K> {}
unsafe impl<K> Sync for Seqs<K> {}
impl<K: Kind> Source for Seqs<K> {
	type C = Vec<It>;
	type V = RazTree<El, K>;
	const WHAT: &'static str = "a sequence";
	fn ways(_: &Vec<It>) -> usize { WAYS }
	fn build(c: &Vec<It>, way: usize) -> RazTree<El, K> { build(c, way) }
}
/// metadata: of names, and of counts
pub struct NameMeta;
impl Source for NameMeta {
	/// which names
	type C = u32;
	type V = Names;
	const WHAT: &'static str = "metadata of names";
	fn ways(_: &u32) -> usize { 4 }
	fn build(c: &u32, way: usize) -> Names {
		let mut ids: Vec<u16> = (0..32).filter(|i| c >> i & 1 == 1).map(|i| i + 1).collect();
		if way % 2 == 1 { ids.reverse(); }
		let none = || <Names as RazMeta<El>>::from_none(0, None);
		let mut m = none();
		for &i in &ids {
			m = match way {
				0 => <Names as RazMeta<El>>::from_meta(&m, &none(), 1, nm(i)),
				1 => <Names as RazMeta<El>>::from_meta(&none(), &m, 2, nm(i)),
				2 => <Names as RazMeta<El>>::from_meta(&m, &<Names as RazMeta<El>>::from_none(1, nm(i)), 1, None),
				_ => <Names as RazMeta<El>>::from_meta(&<Names as RazMeta<El>>::from_vec(&vec![El(1)], 1, nm(i)), &m, 1, nm(i)),
			}
		}
		m
	}
}
pub struct CountMeta;
impl Source for CountMeta {
	type C = usize;
	type V = (Count, Position<usize>);
	const WHAT: &'static str = "a count and a position";
	fn ways(_: &usize) -> usize { 1 }
	fn build(c: &usize, _: usize) -> (Count, Position<usize>) { (Count(*c), Position::from(*c)) }
}
pub struct Places;
impl Source for Places {
	type C = usize;
	type V = Position<Option<Name>>;
	const WHAT: &'static str = "a position";
	fn ways(_: &usize) -> usize { 1 }
	fn build(c: &usize, _: usize) -> Position<Option<Name>> { match *c { 0 => Position::first(), 1 => Position::last(), c => Position::Center(nm(c as u16 - 2)) } }
}
/// a focused sequence: different content or position, different value
pub struct Focused;
impl Source for Focused {
	type C = (Vec<It>, usize);
	type V = Raz<El, Count>;
	const WHAT: &'static str = "a focused sequence";
	fn ways(_: &Self::C) -> usize { 1 }
	fn build(c: &Self::C, _: usize) -> Raz<El, Count> { build::<Count>(&c.0, 0).focus(c.1).expect("a valid position") }
}
pub fn focused(v: Vec<Vec<It>>) -> Vec<(Vec<It>, usize)> { v.into_iter().flat_map(|c| (0..elems(&c).len() + 1).map(move |p| (c.clone(), p))).collect() }
/// an archive stack
pub struct AStacks;
impl Source for AStacks {
	type C = Vec<It>;
	type V = AStack<El, u32>;
	const WHAT: &'static str = "an archive stack";
	fn ways(_: &Vec<It>) -> usize { 3 }
	fn build(c: &Vec<It>, way: usize) -> AStack<El, u32> {
		let mut s: AStack<El, u32> = AStack::new();
		for i in c {
			if way > 0 { s.push(El(77)); if way > 1 { s.archive(nm(99), 9); } s.pop(); }
			match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(nm(n), l); } }
		}
		if way > 0 { let old = s.clone(); s.push(El(77)); s = old; }
		s
	}
}
/// a list: markers stand for nothing but the name of the element before
pub struct Lists;
impl Source for Lists {
	type C = Vec<(u16, u16)>;
	type V = Stack<El>;
	const WHAT: &'static str = "a stack";
	fn ways(_: &Self::C) -> usize { 2 }
	fn build(c: &Self::C, way: usize) -> Stack<El> {
		let mut s = Stack::new();
		for &(e, n) in c {
			if way > 0 { s = s.push(nm(n), El(e)).push(None, El(77)).pull().expect("two elements"); } else { s = s.push(nm(n), El(e)); }
		}
		if way > 0 { s = s.push(nm(98), El(77)).pull().expect("an element"); }
		s
	}
}
pub fn lists(max: usize, names: u16, long: &[usize]) -> Vec<Vec<(u16, u16)>> {
	let mut out = vec![];
	for n in 0..max + 1 { let mut v = vec![0usize; n]; loop { out.push(v.iter().map(|x| ((x % 2) as u16, (x / 2) as u16)).collect()); if n == 0 || !inc(&mut v, 2 * (names as usize + 1), 0) { break } } }
	for &n in long {
		let base: Vec<(u16, u16)> = (0..n).map(|i| (i as u16 + 10, i as u16)).collect();
		for i in 0..n { let mut c = base.clone(); c[i].0 = 5; out.push(c); let mut c = base.clone(); c[i].1 = 1000; out.push(c); if i > 0 { out.push(base[i..].to_vec()) } }
		out.push(base);
	}
	out
}
/// a tree, and the same tree as its own cursor leaves it
pub struct Trees;
impl Source for Trees {
	type C = T;
	type V = Tree<D>;
	const WHAT: &'static str = "a tree";
	fn ways(_: &T) -> usize { 3 }
	fn build(c: &T, way: usize) -> Tree<D> {
		let t = to_imp(c).expect("a tree");
		if way == 0 { return t }
		let mut c = Cursor::from(t);
		if way == 1 { while c.down_left() {} } else { while c.down_right() {} }
		loop { match c.up() { iodyn::tree_cursor::UpResult::Fail => break, _ => {} } }
		c.at_tree().expect("a tree")
	}
}
/// a cursor at the root
pub struct Cursors;
impl Source for Cursors {
	type C = T;
	type V = Cursor<D>;
	const WHAT: &'static str = "a cursor";
	fn ways(_: &T) -> usize { 1 }
	fn build(c: &T, _: usize) -> Cursor<D> { Cursor::from(to_imp(c).expect("a tree")) }
}
pub fn labelled(max: usize, levels: u32, names: u16) -> Vec<T> {
	let base = 2 * levels as usize * (names as usize + 1);
	let mut out = vec![];
	for n in 1..max + 1 { for s in shapes(n, 0) { let mut v = vec![0usize; n]; loop {
		out.push(relabel(&s, &|i| { let x = v[i as usize]; ((x % 2) as u16, (x / 2) as u32 % levels + 1, (x / 2 / levels as usize) as u16) }));
		if !inc(&mut v, base, 0) { break }
	} } }
	out
}
/// a skip list: different maps, different values
pub struct Maps;
impl Source for Maps {
	type C = Vec<Option<u16>>;
	type V = Skiplist<u32, u16>;
	const WHAT: &'static str = "a skip list";
	fn ways(_: &Self::C) -> usize { 1 }
	fn build(c: &Self::C, _: usize) -> Skiplist<u32, u16> {
		let mut s = Skiplist::emp(2, name_of_usize(100));
		for (k, v) in c.iter().enumerate() { if let Some(v) = *v { s.put(k as u32, v); } }
		s
	}
}
pub fn maps(keys: usize, vals: usize) -> Vec<Vec<Option<u16>>> {
	let mut out = vec![];
	let mut v = vec![0usize; keys];
	loop { out.push(v.iter().map(|x| if *x == 0 { None } else { Some(*x as u16) }).collect()); if !inc(&mut v, vals + 1, 0) { break } }
	out
}
