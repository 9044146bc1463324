//! C07, C08, C22: edits and computations on the change-propagating engine.
//! The engine keeps its graph in thread-local state, so executions are explored statelessly:
//! every choice sequence is executed from a fresh engine.
use crate::common::*;
use crate::mc::*;
use crate::raz_model::{build, legal_unfocus};
use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::Count;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;
use iodyn::skiplist::{FinMap, Skiplist};

thread_local! { static CALLS: RefCell<Vec<u16>> = RefCell::new(vec![]); }
pub fn called(e: u16) { CALLS.with(|c| c.borrow_mut().push(e)) }
pub fn calls() -> Vec<u16> { CALLS.with(|c| c.borrow_mut().drain(..).collect()) }

/// The computations; each is demanded in a namespace of its own, as different functions may not
/// share names.
pub const COMPS: usize = 11;
pub const NAMES: [&str; COMPS] = ["fold_up", "fold_up_nl", "fold_up_gauged", "fold_lr", "fold_lr_meta", "fold_lr_archive", "map", "map+fold_up", "map+fold_lr_meta", "map+map+fold_up_nl", "fold_up_max"];
/// the accumulating computations (C16) follow them
pub const ACCS: usize = 5;
pub const ACC_NAMES: [&str; ACCS] = ["accumulate a skip list of every element", "accumulate a skip list of lists by residue", "accumulate a skip list with removals", "accumulate a stack", "accumulate a monotone stack, convert it and fold"];
pub fn comp_name(c: usize) -> &'static str { if c < COMPS { NAMES[c] } else { ACC_NAMES[c - COMPS] } }
/// left-to-right computations may reuse only the part before the first difference
fn prefix_only(c: usize) -> bool { c == 3 || c == 4 || c == 5 || c == 8 }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum A { E(u16), Fin(Option<Name>), M(u32) }
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct G(Vec<Vec<u16>>, Vec<(u32, u16)>);

pub fn compute<M: Kind>(c: usize, t: &RazTree<El, M>, items: &[It]) -> Res<()> {
	if c >= COMPS { return accumulate(c - COMPS, t, items) }
	let mx = MAX_ID;
	let es = elems(items);
	let t = t.clone();
	let some = |v: Vec<u16>| if v.is_empty() { None } else { Some(v) };
	let plus = |k: u16| items.iter().map(|i| match *i { It::E(e) => It::E(e + k), m => m }).collect::<Vec<_>>();
	let app = || Rc::new(|mut a: Vec<u16>, b: Vec<u16>| { a.extend(b); a });
	match c {
		0 => { let r = in_ns("c0", || t.fold_up(Rc::new(|e: &El| { called(e.0); vec![e.0] }), app())); same!("fold_up", "fold_up", r, some(es)); }
		1 => {
			let r = in_ns("c1", || t.fold_up_nl(Rc::new(|e: &El| { called(e.0); vec![It::E(e.0)] }), Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
				Rc::new(move |mut a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { a.push(It::M(l, id_of_tree_name(&n, mx))); a.extend(b); a })));
			same!("fold_up_nl", "fold_up_nl", r, if items.is_empty() { None } else { Some(items.to_vec()) });
		}
		2 => {
			let r = in_ns("c2", || t.fold_up_gauged(Rc::new(|v: &Vec<El>| { for e in v { called(e.0) } G(vec![labels(v)], vec![]) }),
				Rc::new(move |mut a: G, l: u32, n: Option<Name>, b: G| { a.0.extend(b.0); a.1.push((l, id_of_tree_name(&n, mx))); a.1.extend(b.1); a })));
			same!("fold_up_gauged", "fold_up_gauged", r, if items.is_empty() { None } else { Some(G(groups(items), marks(items))) });
		}
		3 => {
			let r = in_ns("c3", || t.fold_lr(vec![9999u16], Rc::new(|mut a: Vec<u16>, e: &El| { called(e.0); a.push(e.0); a })));
			let mut w = vec![9999]; w.extend(es);
			same!("fold_lr", "fold_lr", r, w);
		}
		4 => {
			let r = in_ns("c4", || t.fold_lr_meta(vec![], Rc::new(|mut a: Vec<It>, e: &El| { called(e.0); a.push(It::E(e.0)); a }),
				Rc::new(move |mut a: Vec<It>, (l, n): (u32, Option<Name>)| { a.push(It::M(l, id_of_tree_name(&n, mx))); a })));
			same!("fold_lr_meta", "fold_lr_meta", r, items.to_vec());
		}
		5 => {
			let r = in_ns("c5", || t.fold_lr_archive(vec![], Rc::new(|mut a: Vec<A>, e: &El| { called(e.0); a.push(A::E(e.0)); a }),
				Rc::new(|mut a: Vec<A>, n: Option<Name>| { a.push(A::Fin(n)); a }), Rc::new(|mut a: Vec<A>, l: u32| { a.push(A::M(l)); a })));
			let mut w = vec![];
			if !items.is_empty() {
				let mut cur = Some(name_of_string("start".to_string()));
				for it in items { match *it {
					It::E(e) => w.push(A::E(e)),
					It::M(l, n) => { w.push(A::Fin(cur.clone())); w.push(A::M(l)); cur = tree_nm(n); }
				} }
				w.push(A::Fin(cur));
			}
			same!("fold_lr_archive", "fold_lr_archive", r, w);
		}
		6 => {
			let m: RazTree<El, Count> = in_ns("c6", || t.map(Rc::new(|e: &El| { called(e.0); El(e.0 + 1000) })));
			same!("map", "the mapped sequence", to_items(&fresh_observe(&m), mx), plus(1000));
			Count::check_meta(m.meta(), items, &|| canonical(items))?;
			// the mapped sequence can be focused at every position
			for i in 0..es.len() + 1 {
				let r = match m.clone().focus(i) { Some(r) => r, None => return bad("map-focus", format!("focus({}) on the mapped sequence is refused", i)) };
				same!("map-focus", "element right of the focus in the mapped sequence", r.peek_right().map(|e| e.0), es.get(i).map(|e| e + 1000));
				same!("map-focus", "element left of the focus in the mapped sequence", r.peek_left().map(|e| e.0), if i == 0 { None } else { Some(es[i - 1] + 1000) });
			}
		}
		7 => {
			let m: RazTree<El, Count> = in_ns("c7", || t.map(Rc::new(|e: &El| { called(e.0); El(e.0 + 1000) })));
			let r = in_ns("c7f", || m.fold_up(Rc::new(|e: &El| { called(e.0 - 1000); vec![e.0] }), app()));
			same!("map-fold_up", "map then fold_up", r, some(es.iter().map(|e| e + 1000).collect()));
		}
		8 => {
			let m: RazTree<El, ()> = in_ns("c8", || t.map(Rc::new(|e: &El| El(e.0 + 1000))));
			let r = in_ns("c8f", || m.fold_lr_meta(vec![], Rc::new(|mut a: Vec<It>, e: &El| { called(e.0 - 1000); a.push(It::E(e.0)); a }),
				Rc::new(move |mut a: Vec<It>, (l, n): (u32, Option<Name>)| { a.push(It::M(l, id_of_tree_name(&n, mx))); a })));
			same!("map-fold_lr", "map then fold_lr_meta", r, plus(1000));
		}
		9 => {
			let m: RazTree<El, Trace> = in_ns("c9", || t.map(Rc::new(|e: &El| { called(e.0); El(e.0 + 1000) })));
			Trace::check_meta(m.meta(), &plus(1000), &|| fresh_ns(|| raw_shape(&m)).map(|s| to_shape(&s, mx)))?;
			let m: RazTree<El, ()> = in_ns("c9m", || m.map(Rc::new(|e: &El| { called(e.0 - 1000); El(e.0 + 1000) })));
			let r = in_ns("c9f", || m.fold_up_nl(Rc::new(|e: &El| { called(e.0 - 2000); vec![It::E(e.0)] }), Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
				Rc::new(move |mut a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { a.push(It::M(l, id_of_tree_name(&n, mx))); a.extend(b); a })));
			same!("map-map-fold", "map, map, fold_up_nl", r, if items.is_empty() { None } else { Some(plus(2000)) });
		}
		_ => {
			// a fold whose value often stays the same when elements change
			let r = in_ns("c10", || t.fold_up(Rc::new(|e: &El| { called(e.0); e.0 % 3 }), Rc::new(|a: u16, b: u16| a.max(b))));
			same!("fold_up-max", "fold_up with max of element mod 3", r, es.iter().map(|e| e % 3).max());
		}
	}
	Ok(())
}
/// One fold which builds up a map or a stack, archived at the end of each subsequence with the
/// name handed over there.  The accumulators hold named cells, so what they contain is compared
/// (not the cells).
fn accumulate<M: Kind>(c: usize, t: &RazTree<El, M>, items: &[It]) -> Res<()> {
	let es = elems(items);
	let t = t.clone();
	let start = name_of_string("accumulator".to_string());
	type L<V> = Skiplist<u16, V>;
	fn arch<V: Clone + Debug + Eq + Hash + 'static>() -> Rc<dyn Fn(L<V>, Option<Name>) -> L<V>> { Rc::new(|mut a: L<V>, n: Option<Name>| { if let Some(n) = n { a.archive(n) } a }) }
	let read = |s: &AStack<u16, u32>| -> Vec<u16> { let mut v: Vec<u16> = s.clone().into_iter().collect(); v.reverse(); v };
	match c {
		0 => {
			let a = in_ns("a0", || t.fold_lr_archive(L::<u16>::emp(2, start), Rc::new(|mut a: L<u16>, e: &El| { called(e.0); a.put(e.0, e.0 + 1); a }), { let f = arch::<u16>(); Rc::new(move |a, n| f(a, n)) }, Rc::new(|a, _| a)));
			let w: BTreeMap<u16, u16> = es.iter().map(|e| (*e, e + 1)).collect();
			for k in 0..24 { same!("accumulated-map", format!("{}: key {}", ACC_NAMES[c], k), a.get(k), w.get(&k).cloned()); }
		}
		1 => {
			let a = in_ns("a1", || t.fold_lr_archive(L::<Vec<u16>>::emp(1, start), Rc::new(|mut a: L<Vec<u16>>, e: &El| { called(e.0); let mut v = a.get(e.0 % 3).unwrap_or(vec![]); v.push(e.0); a.put(e.0 % 3, v); a }), { let f = arch::<Vec<u16>>(); Rc::new(move |a, n| f(a, n)) }, Rc::new(|a, _| a)));
			for k in 0..4 { let w: Vec<u16> = es.iter().filter(|e| **e % 3 == k).cloned().collect(); same!("accumulated-map", format!("{}: key {}", ACC_NAMES[c], k), a.get(k), if w.is_empty() { None } else { Some(w) }); }
		}
		2 => {
			// only the parity of the number of elements with a residue stays: put when absent, removed when present
			let a = in_ns("a2", || t.fold_lr_archive(L::<u16>::emp(2, start), Rc::new(|mut a: L<u16>, e: &El| { called(e.0); if a.rem(e.0 % 3).is_none() { a.put(e.0 % 3, e.0) } a }), { let f = arch::<u16>(); Rc::new(move |a, n| f(a, n)) }, Rc::new(|a, _| a)));
			let mut w: BTreeMap<u16, u16> = BTreeMap::new();
			for e in &es { if w.remove(&(e % 3)).is_none() { w.insert(e % 3, *e); } }
			for k in 0..4 { same!("accumulated-map", format!("{}: key {}", ACC_NAMES[c], k), a.get(k), w.get(&k).cloned()); }
		}
		3 => {
			let a = in_ns("a3", || t.fold_lr_archive(AStack::<u16, u32>::new(), Rc::new(|mut a: AStack<u16, u32>, e: &El| { called(e.0); a.push(e.0); a }), Rc::new(|mut a: AStack<u16, u32>, n| { a.archive(n, 1); a }), Rc::new(|a, _| a)));
			same!("accumulated-stack", ACC_NAMES[c], read(&a), es);
		}
		_ => {
			// keeps the elements smaller than all later ones (by e mod 5)
			let a = in_ns("a4", || t.fold_lr_archive(AStack::<u16, u32>::new(), Rc::new(|mut a: AStack<u16, u32>, e: &El| { called(e.0); while let Some(p) = a.peek() { if p % 5 > e.0 % 5 { a.pop(); } else { break } } a.push(e.0); a }), Rc::new(|mut a: AStack<u16, u32>, n| { a.archive(n, 2); a }), Rc::new(|a, _| a)));
			let mut w: Vec<u16> = vec![];
			for e in &es { while w.last().map(|p| p % 5 > e % 5).unwrap_or(false) { w.pop(); } w.push(*e); }
			same!("accumulated-stack", ACC_NAMES[c], read(&a), w);
			let s: RazTree<u16, Count> = in_ns("a4c", || RazTree::memo_from(&AtTail(a)));
			let r = in_ns("a4f", || s.fold_up(Rc::new(|e: &u16| vec![*e]), Rc::new(|mut a: Vec<u16>, b: Vec<u16>| { a.extend(b); a })));
			same!("accumulated-stack", "the accumulated stack converted to a sequence", r, if w.is_empty() { None } else { Some(w) });
		}
	}
	Ok(())
}
thread_local! { static FRESH: RefCell<u32> = RefCell::new(0); }
/// read a sequence with nothing remembered from earlier reads
pub fn fresh_observe<M: Kind>(t: &RazTree<El, M>) -> Vec<Obs> {
	let n = FRESH.with(|f| { let mut f = f.borrow_mut(); *f += 1; *f });
	in_ns(&format!("obs{}", n), || observe(t))
}
pub fn fresh_ns<R, F: FnOnce() -> R>(f: F) -> R {
	let n = FRESH.with(|f| { let mut f = f.borrow_mut(); *f += 1; *f });
	in_ns(&format!("fresh{}", n), f)
}
pub fn start_engine() { FRESH.with(|f| *f.borrow_mut() = 0); calls(); manage::init_dcg(); }

/// The subsequences of a sequence with what bounds them.
type Leaf = (Vec<u16>, Option<(u32, u16)>, Option<(u32, u16)>);
fn leaves(items: &[It]) -> Vec<Leaf> {
	let (g, m) = (groups(items), marks(items));
	if items.is_empty() { return vec![] }
	(0..g.len()).map(|i| (g[i].clone(), if i == 0 { None } else { Some(m[i - 1]) }, m.get(i).cloned())).collect()
}
fn all_named(items: &[It]) -> bool { let m = marks(items); !m.is_empty() && m.iter().all(|m| m.1 != 0) }
/// elements which must not be looked at again
pub fn reusable(prefix_only: bool, before: &[It], now: &[It]) -> Vec<u16> {
	if !all_named(before) || !all_named(now) { return vec![] }
	let (b, n) = (leaves(before), leaves(now));
	let mut out = vec![];
	if prefix_only {
		for (x, y) in b.iter().zip(n.iter()) { if x == y { out.extend(x.0.iter().cloned()) } else { break } }
	} else {
		for y in &n { if b.contains(y) { out.extend(y.0.iter().cloned()) } }
	}
	out
}

/// More names than any sequence here has.  (A constant: computations capture it, and a
/// remembered computation keeps what it captured.)
const MAX_ID: u16 = 2000;

#[derive(Clone, Copy, Default)]
pub struct Want { pub results: bool, pub reuse: bool, pub content: bool }

pub struct DcgRaz<K> {
	pub want: Want,
	pub seeds: Vec<Vec<It>>,
	pub ways: Vec<usize>,
	/// per round: up to how many operations while focused
	pub ops: Vec<usize>,
	pub levels: Vec<u32>,
	pub unnamed: bool,
	/// push other elements, too (so that elements are replaced and change places)
	pub other: bool,
	/// the choices of what to demand after a round (bit sets over the computations)
	pub demand: Vec<u32>,
	/// also observe (peeks after every operation; focusing a copy, peeking, dropping it)
	pub observe: bool,
	/// focus at the ends, in the middle, and around some of the markers only
	pub sparse: bool,
	pub kind: PhantomData<fn() -> K>,
}
#[derive(Clone, Copy)]
pub enum Op { Push(bool), Other(bool), Again(bool), Pop(bool), Archive(bool, u32, bool) }
pub fn fresh_label(items: &[It]) -> u16 { let u = elems(items); (0..).find(|i| !u.contains(i)).unwrap() }
/// a label that `fresh_label` would not choose, to replace one element by another
pub fn other_label(items: &[It]) -> u16 { let u = elems(items); (13..).find(|i| !u.contains(i)).unwrap() }
pub fn fresh_marker(items: &[It]) -> u16 { let u = marks(items); (1..).find(|i| !u.iter().any(|m| m.1 == *i)).unwrap() }
/// apply an operation to the list, and to the real sequence
pub fn apply<K: Kind>(op: Op, raz: &mut Raz<El, K>, left: &mut Vec<It>, right: &mut Vec<It>) -> Res<String> {
	let mut all = left.clone(); all.extend(right.iter().cloned());
	match op {
		Op::Push(l) | Op::Other(l) | Op::Again(l) => {
			// (`Again`: equal to the nearest element on that side, or else on the other)
			let near = |list: &[It]| list.iter().rev().filter_map(|i| match *i { It::E(e) => Some(e), _ => None }).next();
			let e = match op { Op::Push(_) => fresh_label(&all), Op::Other(_) => other_label(&all), _ => near(if l { &left[..] } else { &right[..] }).or(near(if l { &right[..] } else { &left[..] })).unwrap_or(0) };
			let list = if l { left } else { right };
			let n = if l { raz.push_left(El(e)) } else { raz.push_right(El(e)) };
			list.push(It::E(e));
			same!("push-count", "elements since the last marker, reported by push", n, list.iter().rev().take_while(|i| i.is_e()).count());
			Ok(format!("push_{}({})", if l { "left" } else { "right" }, e))
		}
		Op::Pop(l) => {
			let list = if l { left } else { right };
			let want = match list.iter().rposition(|i| i.is_e()) { None => None, Some(p) => { let e = list[p]; list.truncate(p); match e { It::E(e) => Some(e), _ => None } } };
			let got = if l { raz.pop_left() } else { raz.pop_right() };
			same!("pop", "pop", got.map(|e| e.0), want);
			Ok(format!("pop_{}()", if l { "left" } else { "right" }))
		}
		Op::Archive(l, lv, named) => {
			let n = if named { fresh_marker(&all) } else { 0 };
			let list = if l { left } else { right };
			if l { raz.archive_left(lv, nm(n)) } else { raz.archive_right(lv, nm(n)) }
			if list.last().map(|i| i.is_e()).unwrap_or(false) { list.push(It::M(lv, n)); }
			Ok(format!("archive_{}({}, #{})", if l { "left" } else { "right" }, lv, n))
		}
	}
}
pub fn distinct_foci<K: Kind>(items: &[It]) -> Vec<usize> {
	let mut seen = vec![];
	let mut out = vec![];
	for k in 0..K::n_foci(items) { if let Some(p) = K::expect(items, k) { if !seen.contains(&p) { seen.push(p); out.push(k); } } }
	out
}
pub fn peeks<K: Kind>(r: &Raz<El, K>, left: &[It], right: &[It]) -> Res<()> {
	same!("peek_left", "peek_left", r.peek_left().map(|e| e.0), elems(left).last().cloned());
	same!("peek_right", "peek_right", r.peek_right().map(|e| e.0), elems(right).last().cloned());
	Ok(())
}
/// the ends, the middles of subsequences, and around the first, middle and last markers
pub fn sparse_foci<K: Kind>(items: &[It], foci: Vec<usize>) -> Vec<usize> {
	let ms: Vec<usize> = (0..items.len()).filter(|&i| !items[i].is_e()).collect();
	let mut at = vec![0, 1, items.len() / 2, items.len(), items.len().max(1) - 1];
	let mut last = 0;
	for (k, &m) in ms.iter().enumerate() {
		if k < 2 || k + 2 >= ms.len() || k == ms.len() / 2 { at.extend(&[m - 1, m, m + 1, m + 2, (last + m) / 2]); }
		last = m;
	}
	foci.into_iter().filter(|&k| at.contains(&K::expect(items, k).unwrap())).collect()
}
impl<K: Kind> DcgRaz<K> {
	fn foci(&self, items: &[It]) -> Vec<usize> { let f = distinct_foci::<K>(items); if self.sparse { sparse_foci::<K>(items, f) } else { f } }
	fn op_list(&self) -> Vec<Op> {
		let mut v = vec![Op::Push(true), Op::Push(false), Op::Pop(true), Op::Pop(false)];
		if self.other { v.push(Op::Other(true)); v.push(Op::Other(false)); }
		// (whether an element was looked at again is told by its label, which must be its own then)
		if self.other && !self.want.reuse && !self.sparse { v.push(Op::Again(true)); v.push(Op::Again(false)); }
		for &s in &[true, false] { for &l in &self.levels { v.push(Op::Archive(s, l, true)); if self.unnamed { v.push(Op::Archive(s, l, false)); } } }
		v
	}
	fn check_tree(&self, what: &str, t: &RazTree<El, K>, items: &[It]) -> Res<()> {
		if !self.want.content { return Ok(()) }
		same!("content", format!("the sequence {}", what), to_items(&fresh_observe(t), MAX_ID), items.to_vec());
		K::check_meta(t.meta(), items, &|| canonical(items))?;
		same!("is_empty", "is_empty", t.is_empty(), items.is_empty());
		Ok(())
	}
}
impl<K: Kind> Scenario for DcgRaz<K> {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let seed = &self.seeds[ch.choose(self.seeds.len())];
		let way = self.ways[ch.choose(self.ways.len())];
		let mut t: RazTree<El, K> = build::<K>(seed, way);
		let mut items = seed.clone();
		ch.note(|| format!("build {:?} (way {})", items, way));
		self.check_tree("as built", &t, &items)?;
		let ops = self.op_list();
		let mut last: BTreeMap<usize, Vec<It>> = BTreeMap::new();
		for round in 0..self.ops.len() + 1 {
			if round > 0 {
				// edit
				let foci = self.foci(&items);
				let k = foci[ch.choose(foci.len())];
				let p = K::expect(&items, k).unwrap();
				ch.note(|| format!("{} on {:?}", K::describe(&items, k), items));
				let mut r = match K::focus(t, &items, k) { Some(r) => r, None => return bad("focus-refused", format!("{} on {:?} is refused", K::describe(&items, k), items)) };
				let (mut left, mut right) = (items[..p].to_vec(), items[p..].iter().rev().cloned().collect::<Vec<_>>());
				let peek = self.observe && ch.choose(2) == 1;
				if peek { ch.note(|| "peeking after every operation".to_string()); peeks(&r, &left, &right)?; }
				for _ in 0..self.ops[round - 1] {
					let c = ch.choose(ops.len() + 1);
					if c == 0 { break }
					let s = apply(ops[c - 1], &mut r, &mut left, &mut right)?;
					ch.note(|| s);
					if peek { peeks(&r, &left, &right)?; }
				}
				t = r.unfocus();
				let mut all = left.clone(); all.extend(right.iter().rev().cloned());
				let got = to_items(&fresh_observe(&t), MAX_ID);
				if self.want.content {
					let legal = legal_unfocus(&left, &right);
					ensure!("unfocus-content", legal.contains(&got), "after unfocusing {:?} ^ {:?} the sequence is {:?}", left, right.iter().rev().collect::<Vec<_>>(), got);
				}
				items = got;
				ch.note(|| format!("unfocus: {:?}", items));
				self.check_tree("after unfocus", &t, &items)?;
			}
			if self.observe {
				// look at a focused copy; the sequence itself must not notice
				let foci = self.foci(&items);
				let c = ch.choose(foci.len() + 1);
				if c > 0 {
					let k = foci[c - 1];
					let p = K::expect(&items, k).unwrap();
					ch.note(|| format!("look at a copy focused by {}", K::describe(&items, k)));
					if let Some(r) = K::focus(t.clone(), &items, k) { peeks(&r, &items[..p], &items[p..].iter().rev().cloned().collect::<Vec<_>>())?; }
					self.check_tree("after looking at a focused copy", &t, &items)?;
				}
			}
			let d = self.demand[ch.choose(self.demand.len())];
			for c in 0..COMPS + ACCS {
				if d >> c & 1 == 0 { continue }
				ch.note(|| format!("demand {} on {:?}", comp_name(c), items));
				calls();
				let r = compute(c, &t, &items);
				let done = calls();
				if self.want.results { r?; }
				if self.want.reuse {
					if let Some(b) = last.get(&c) {
						let keep = reusable(prefix_only(c), b, &items);
						if let Some(e) = done.iter().find(|e| keep.contains(e)) {
							return bad("recomputed", format!("{} on {:?} looked at element {} again although its subsequence has not changed since the run on {:?} (elements looked at: {:?})", comp_name(c), items, e, b, done));
						}
					}
					last.insert(c, items.clone());
				}
			}
			if d != 0 { self.check_tree("after computations", &t, &items)?; }
			let mut f = Fp::new(); f.dbg(&items).dbg(&d).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
/// A stack that grows and shrinks, converted to a sequence and computed with after each round.
pub struct DcgConv {
	pub want: Want,
	pub rounds: Vec<usize>,
	pub first: Vec<Vec<It>>,
	pub levels: Vec<u32>,
	pub unnamed: bool,
	/// build the stack anew with one of its items changed, instead of working at its top
	pub anew: bool,
	pub demand: Vec<u32>,
}
/// all sequences with one item changed, inserted or removed, or two neighbours exchanged
pub fn changed(items: &[It], levels: &[u32], equal: bool) -> Vec<Vec<It>> {
	let mut out = vec![];
	let e = It::E(other_label(items));
	for i in 0..items.len() + 1 {
		let with = |new: &[It], skip: usize| { let mut v = items[..i].to_vec(); v.extend(new.iter().cloned()); v.extend(items[i + skip..].iter().cloned()); v };
		out.push(with(&[e], 0));
		if equal && i > 0 { if let It::E(_) = items[i - 1] { out.push(with(&[items[i - 1]], 0)) } }
		if i == items.len() { break }
		match items[i] {
			It::E(_) => out.push(with(&[e], 1)),
			It::M(l, n) => {
				for &k in levels { if k != l { out.push(with(&[It::M(k, n)], 1)) } }
				out.push(with(&[It::M(l, fresh_marker(items))], 1));
			}
		}
		out.push(with(&[], 1));
		if i + 1 < items.len() { out.push(with(&[items[i + 1], items[i]], 2)); }
	}
	// markers need data on both sides
	for v in out.iter_mut() { *v = legal_unfocus(v, &[])[0].clone(); }
	out.retain(|v| v != items);
	let mut uniq: Vec<Vec<It>> = vec![];
	for v in out { if !uniq.contains(&v) { uniq.push(v) } }
	uniq
}
fn stack_of(items: &[It]) -> AStack<El, u32> {
	let mut s: AStack<El, u32> = AStack::new();
	for i in items { match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(tree_nm(n), l); } } }
	s
}
impl Scenario for DcgConv {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let head = ch.choose(2) == 1;
		let mut items = self.first[ch.choose(self.first.len())].clone();
		let mut s = stack_of(&items);
		ch.note(|| format!("stack {:?}, read from its {}", items, if head { "head" } else { "tail" }));
		let mut last: BTreeMap<usize, Vec<It>> = BTreeMap::new();
		let mut converted: Option<Vec<It>> = None;
		for round in 0..self.rounds.len() + 1 {
			if round > 0 && self.anew {
				for _ in 0..self.rounds[round - 1] {
					let v = changed(&items, &self.levels, !self.want.reuse);
					let c = ch.choose(v.len() + 1);
					if c == 0 { break }
					items = v[c - 1].clone();
				}
				s = stack_of(&items);
				ch.note(|| format!("the stack is built anew as {:?}", items));
			} else if round > 0 {
				let nops = 2 + self.levels.len() * if self.unnamed { 2 } else { 1 };
				for _ in 0..self.rounds[round - 1] {
					let c = ch.choose(nops + 1);
					if c == 0 { break }
					match c {
						1 => { let e = fresh_label(&items); s.push(El(e)); items.push(It::E(e)); ch.note(|| format!("push({})", e)); }
						2 => {
							let want = match items.iter().rposition(|i| i.is_e()) { None => None, Some(p) => { let e = items[p]; items.truncate(p); match e { It::E(e) => Some(e), _ => None } } };
							same!("pop", "pop", s.pop().map(|e| e.0), want);
							ch.note(|| "pop()".to_string());
						}
						c => {
							let (l, n) = (self.levels[(c - 3) % self.levels.len()], if (c - 3) / self.levels.len() == 1 { 0 } else { fresh_marker(&items) });
							s.archive(tree_nm(n), l);
							if items.last().map(|i| i.is_e()).unwrap_or(false) { items.push(It::M(l, n)); }
							ch.note(|| format!("archive({}, #{})", l, n));
						}
					}
				}
			}
			let d = self.demand[ch.choose(self.demand.len())];
			if d == 0 { continue }
			let mut want = items.clone();
			if let Some(&It::M(..)) = want.last() { want.pop(); }
			if head { want.reverse(); }
			let t: RazTree<El, Count> = in_ns("conv", || if head { RazTree::memo_from(&AtHead(s.clone())) } else { RazTree::memo_from(&AtTail(s.clone())) });
			ch.note(|| format!("convert {:?}", items));
			if self.want.reuse {
				// with user-defined metadata, which is made anew where something changed
				let conv = || meta_calls(|| -> RazTree<El, Trace> { in_ns("convm", || if head { RazTree::memo_from(&AtHead(s.clone())) } else { RazTree::memo_from(&AtTail(s.clone())) }) }).1;
				let first = conv();
				let same = converted.as_ref() == Some(&want);
				for done in vec![if same { first } else { vec![] }, conv()] {
					if all_named(&want) && !done.is_empty() { return bad("converted-again", format!("the unchanged stack {:?} is converted once more; metadata was made again for the subsequences with elements {:?}", items, done)) }
				}
				converted = Some(want.clone());
			}
			if self.want.content {
				same!("content", "the converted sequence", to_items(&fresh_observe(&t), MAX_ID), want);
				same!("canonical", "structure of the converted sequence", { let n = FRESH.with(|f| { let mut f = f.borrow_mut(); *f += 1; *f }); in_ns(&format!("shape{}", n), || raw_shape(&t)) }.map(|s| to_shape(&s, MAX_ID)), canonical(&want));
				Count::check_meta(t.meta(), &want, &|| canonical(&want))?;
			}
			for c in 0..COMPS + ACCS {
				if d >> c & 1 == 0 { continue }
				ch.note(|| format!("demand {} on {:?}", comp_name(c), want));
				calls();
				let r = compute(c, &t, &want);
				let done = calls();
				if self.want.results { r?; }
				if self.want.reuse {
					if let Some(b) = last.get(&c) {
						let keep = reusable(prefix_only(c), b, &want);
						if let Some(e) = done.iter().find(|e| keep.contains(e)) {
							return bad("recomputed", format!("{} on {:?} looked at element {} again although its subsequence has not changed since the run on {:?}", comp_name(c), want, e, b));
						}
					}
					last.insert(c, want.clone());
				}
			}
			let mut f = Fp::new(); f.dbg(&items).dbg(&d).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
