//! Elements, the scripted data source and reference sequences.
use adapton::engine::*;
use rand::{Rand, Rng, SeedableRng, StdRng};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashSet;

thread_local! {
	static GEN: RefCell<Vec<u32>> = RefCell::new(vec![]);
	static RAW: Cell<u64> = Cell::new(0);
	static EQUAL: Cell<Option<u32>> = Cell::new(None);
	static FRESH: Cell<u32> = Cell::new(0);
}
/// An element that remembers that it was generated.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct El(pub u32);
impl El { fn key(&self) -> (u32, u32) { (self.0 * 7 % 11, self.0) } }
// an order that is not the order of generation
impl Ord for El { fn cmp(&self, o: &El) -> Ordering { self.key().cmp(&o.key()) } }
impl PartialOrd for El { fn partial_cmp(&self, o: &El) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Rand for El {
	fn rand<R: Rng>(r: &mut R) -> El {
		let n = r.next_u32();
		GEN.with(|g| g.borrow_mut().push(n));
		El(n)
	}
}
/// the labels of the elements generated since the last call
pub fn generated() -> Vec<u32> { GEN.with(|g| g.borrow_mut().drain(..).collect()) }
/// from now on, the n-th element drawn is the n-th bit of this (or its own number)
pub fn set_equal(p: Option<u32>) { EQUAL.with(|c| c.set(p)) }
pub fn set_raw(r: u64) { RAW.with(|c| c.set(r)) }

/// The data source: elements are numbered in the order they are drawn; what positions are
/// computed from is set by the exploration.
#[derive(Clone, Debug)]
pub struct Coord { n: u32 }
impl Coord { pub fn new() -> Coord { Coord { n: 0 } } }
impl Rng for Coord {
	fn next_u32(&mut self) -> u32 { let n = self.n; self.n += 1; EQUAL.with(|c| match c.get() { None => n, Some(p) => p >> (n % 32) & 1 }) }
	fn next_u64(&mut self) -> u64 { RAW.with(|c| c.get()) }
}

/// What a sequence consists of.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum It { E(u32), M(u32, Option<Name>) }
/// What it should consist of: an item that was there, or a new marker (named or not).
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ex { Old(It), New(bool) }
impl Ex { pub fn is_e(&self) -> bool { match *self { Ex::Old(It::E(_)) => true, _ => false } } }
pub fn show(v: &[It]) -> String {
	v.iter().map(|i| match *i { It::E(e) => format!("{}", e), It::M(l, None) => format!("|{}", l), It::M(l, Some(ref n)) => format!("|{}#{:?}", l, n) }).collect::<Vec<_>>().join(" ")
}
pub fn elems(v: &[It]) -> Vec<u32> { v.iter().filter_map(|i| match *i { It::E(e) => Some(e), _ => None }).collect() }
pub fn names(v: &[It]) -> Vec<Name> { v.iter().filter_map(|i| match *i { It::M(_, Some(ref n)) => Some(n.clone()), _ => None }).collect() }
pub fn groups(v: &[It]) -> Vec<Vec<u32>> {
	let mut g = vec![vec![]];
	for i in v { match *i { It::E(e) => g.last_mut().unwrap().push(e), _ => g.push(vec![]) } }
	g
}
/// What unfocusing may make of markers: those at the ends disappear, of adjacent ones one stays.
pub fn legal(all: &[Ex]) -> Vec<Vec<Ex>> {
	let a = match all.iter().position(|i| i.is_e()) { None => return vec![vec![]], Some(a) => a };
	let b = all.iter().rposition(|i| i.is_e()).unwrap();
	let core = &all[a..b + 1];
	let mut outs: Vec<Vec<Ex>> = vec![vec![]];
	let mut i = 0;
	while i < core.len() {
		if core[i].is_e() { for o in outs.iter_mut() { o.push(core[i].clone()); } i += 1; continue }
		let mut j = i;
		while !core[j].is_e() { j += 1; }
		let mut next = vec![];
		for o in &outs { for k in i..j { let mut o = o.clone(); o.push(core[k].clone()); next.push(o); } }
		outs = next;
		i = j;
	}
	outs
}
/// is `got` what `want` describes, with new markers named anew?
pub fn matches(got: &[It], want: &[Ex], used: &[Name]) -> bool {
	got.len() == want.len() && got.iter().zip(want).all(|(g, w)| match (g, w) {
		(g, &Ex::Old(ref w)) => g == w,
		(&It::M(l, ref n), &Ex::New(named)) => l > 0 && n.is_some() == named && n.as_ref().map(|n| !used.contains(n)).unwrap_or(true),
		_ => false,
	})
}
pub fn in_ns<R, F: FnOnce() -> R>(s: &str, f: F) -> R { ns(name_of_string(s.to_string()), f) }
/// run with nothing remembered from earlier runs
pub fn fresh<R, F: FnOnce() -> R>(f: F) -> R {
	let n = FRESH.with(|c| { c.set(c.get() + 1); c.get() });
	in_ns(&format!("fresh{}", n), f)
}
pub fn start_engine(dcg: bool) {
	FRESH.with(|c| c.set(0));
	set_raw(0);
	set_equal(None);
	generated();
	if dcg { manage::init_dcg(); } else { manage::init_naive(); }
}
pub fn rng(seed: usize) -> StdRng { StdRng::from_seed(&[seed]) }
/// seeds for which the first `n` generated levels (cut off at 3) take all patterns
pub fn seeds(n: usize) -> Vec<usize> {
	let mut seen: HashSet<Vec<u32>> = HashSet::new();
	let mut out = vec![];
	for s in 0..200_000 {
		let mut r = rng(s);
		let p: Vec<u32> = (0..n).map(|_| iodyn::tree_cursor::gen_level(&mut r).min(3)).collect();
		if seen.insert(p) { out.push(s); if out.len() == 3usize.pow(n as u32) { break } }
	}
	out
}
