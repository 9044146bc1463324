//! C20: what the evaluation collections hold after creation and edits.
use crate::common::*;
use crate::mc::*;
use adapton::engine::*;
use eval::actions::*;
use eval::eval_iastack::EvalIAStack;
use eval::eval_iraz::EvalIRaz;
use eval::eval_raz_name_index::EvalRazNameIndex;
use eval::eval_vec::EvalVec;
use eval::primitives::*;
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, Names};
use iodyn::{IRaz, IRazTree};
use rand::StdRng;
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::rc::Rc;

pub type IR = EvalIRaz<El, Coord>;
pub type NI = EvalRazNameIndex<El, Coord>;
pub type EV = EvalVec<El, Coord>;

pub trait Coll: Clone + 'static {
	const NAME: &'static str;
	/// does it keep markers?
	const MARKS: bool;
	/// in which order does a block of insertions end up?
	const ORDERED: bool;
	/// starting points besides creation from generated data
	const STARTS: usize;
	fn start(k: usize, items: &[It], dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self;
	fn start_name(k: usize) -> &'static str;
	fn create(size: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self;
	fn append(self, b: usize, single: bool, r: &mut StdRng) -> Self;
	fn insert(self, b: usize, r: &mut StdRng) -> Self;
	fn extend(self, _b: usize, _r: &mut StdRng) -> Option<Self> { None }
	fn items(&self, r: &mut StdRng) -> Vec<It>;
	/// from how many positions does an insertion choose?
	fn places(items: &[It]) -> usize;
}
fn pushes(items: &[It], e: &mut dyn FnMut(Option<El>, u32, Option<Name>)) {
	for i in items { match *i { It::E(x) => e(Some(El(x)), 0, None), It::M(l, ref n) => e(None, l, n.clone()) } }
}
fn stack_of(items: &[It]) -> AtTail<El, u32> {
	let mut s: AStack<El, u32> = AStack::new();
	pushes(items, &mut |e, l, n| match e { Some(e) => s.push(e), None => { s.archive(n, l); } });
	AtTail(s)
}
macro_rules! raz_coll { ($t:ty, $m:ty, $name:expr, $places:expr) => {
	impl Coll for $t {
		const NAME: &'static str = $name;
		const MARKS: bool = true;
		const ORDERED: bool = true;
		const STARTS: usize = 4;
		fn start(k: usize, items: &[It], dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self {
			let raz = |left: bool| -> Raz<El, $m> {
				let mut z = Raz::new();
				if left { pushes(items, &mut |e, l, n| match e { Some(e) => { z.push_left(e); }, None => z.archive_left(l, n) }) }
				else { let mut v = items.to_vec(); v.reverse(); pushes(&v, &mut |e, l, n| match e { Some(e) => { z.push_right(e); }, None => z.archive_right(l, n) }) }
				z
			};
			match k {
				0 => IncrementalEmpty { datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1,
				1 => IncrementalFrom { data: raz(true), datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1,
				2 => { let t: RazTree<El, $m> = raz(false).unfocus(); IncrementalFrom { data: t, datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1 }
				_ => { let s = in_ns("stack", || stack_of(items)); in_ns("convert", || IncrementalFrom { data: s.clone(), datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1) }
			}
		}
		fn start_name(k: usize) -> &'static str { ["IncrementalEmpty", "IncrementalFrom a focused sequence", "IncrementalFrom a sequence", "IncrementalFrom the tail of a stack"][k] }
		fn create(size: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { IncrementalInit { size: size, datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1 }
		fn append(self, b: usize, single: bool, r: &mut StdRng) -> Self { if single { SingleAppend.edit(self, r).1 } else { BatchAppend(b).edit(self, r).1 } }
		fn insert(self, b: usize, r: &mut StdRng) -> Self { BatchInsert(b).edit(self, r).1 }
		fn items(&self, r: &mut StdRng) -> Vec<It> {
			fresh(|| self.comp_fold_meta(vec![], Rc::new(|mut v: Vec<It>, e: &El| { v.push(It::E(e.0)); v }), Rc::new(|mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v }), r).1)
		}
		fn places(items: &[It]) -> usize { let f: fn(&[It]) -> usize = $places; f(items) }
	}
} }
raz_coll!(IR, Count, "EvalIRaz", |i| elems(i).len());
raz_coll!(NI, Names, "EvalRazNameIndex", |i| names(i).len());
impl Coll for EV {
	const NAME: &'static str = "EvalVec";
	const MARKS: bool = false;
	const ORDERED: bool = false;
	const STARTS: usize = 2;
	fn start(k: usize, items: &[It], dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self {
		if k == 0 { IncrementalEmpty { datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1 }
		else { let v: Vec<El> = elems(items).into_iter().map(El).collect(); IncrementalFrom { data: v, datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1 }
	}
	fn start_name(k: usize) -> &'static str { ["IncrementalEmpty", "IncrementalFrom a vector"][k] }
	fn create(size: usize, dg: usize, ng: usize, c: &Coord, r: &mut StdRng) -> Self { IncrementalInit { size: size, datagauge: dg, namegauge: ng, coord: c.clone() }.create(r).1 }
	fn append(self, b: usize, single: bool, r: &mut StdRng) -> Self { if single { SingleAppend.edit(self, r).1 } else { BatchAppend(b).edit(self, r).1 } }
	fn insert(self, b: usize, r: &mut StdRng) -> Self { BatchInsert(b).edit(self, r).1 }
	fn extend(self, b: usize, r: &mut StdRng) -> Option<Self> { Some(BatchExtend(b).edit(self, r).1) }
	fn items(&self, r: &mut StdRng) -> Vec<It> {
		self.comp_fold_meta(vec![], Rc::new(|mut v: Vec<It>, e: &El| { v.push(It::E(e.0)); v }), Rc::new(|v: Vec<It>, _: ()| v), r).1
	}
	fn places(items: &[It]) -> usize { items.len() }
}

/// a new block: a marker after every element at which the counter is a multiple of the gauge
fn block(marks: bool, gen: &[u32], counter: &mut usize, dg: usize, ng: usize) -> Vec<Ex> {
	let mut v = vec![];
	for &g in gen {
		v.push(Ex::Old(It::E(g)));
		*counter += 1;
		if marks && *counter % dg == 0 { v.push(Ex::New(*counter % (dg * ng) == 0)); }
	}
	v
}
fn olds(i: &[It]) -> Vec<Ex> { i.iter().cloned().map(Ex::Old).collect() }

/// what given data looks like: groups of two elements, markers named alternately
fn given(n: usize, marks: bool) -> Vec<It> {
	let mut v = vec![];
	for i in 0..n as u32 {
		if marks && i > 0 && i % 2 == 0 { v.push(It::M(1 + i / 2 % 3, if i % 4 == 0 { None } else { Some(name_of_string(format!("given{}", i))) })); }
		v.push(It::E(1000 + i));
	}
	v
}
/// names of markers get a suffix when a focused sequence is unfocused; compare without them
fn same_but_names(got: &[It], want: &[It]) -> bool {
	got.len() == want.len() && got.iter().zip(want).all(|(g, w)| match (g, w) {
		(&It::M(a, ref m), &It::M(b, ref n)) => a == b && m.is_some() == n.is_some(),
		(g, w) => g == w,
	})
}

pub struct Colls<C> {
	pub dcg: bool,
	pub sizes: Vec<usize>,
	pub gauges: Vec<(usize, usize)>,
	pub seeds: Vec<usize>,
	pub edits: usize,
	pub appends: Vec<usize>,
	pub inserts: Vec<usize>,
	/// all insertion positions, or only the first, a middle and the last one
	pub all_places: bool,
	/// also enumerate what else a collection can start from
	pub starts: bool,
	pub kind: PhantomData<fn() -> C>,
}
impl<C: Coll> Colls<C> {
	fn check(&self, what: &str, c: &C, want: &[Vec<Ex>], before: &[It], used: &mut Vec<Name>, r: &mut StdRng) -> Res<Vec<It>> {
		let got = c.items(r);
		let ok = want.iter().any(|w| matches(&got, w, used));
		ensure!("content", ok, "{}: the {} held {}, now it holds {}; it should be {}{:?}", what, C::NAME, show(before), show(&got), if want.len() > 1 { "one of several like " } else { "" }, want.first());
		let n = names(&got);
		for (i, a) in n.iter().enumerate() {
			ensure!("name-twice", !n[..i].contains(a), "{}: two markers of the {} have the same name: {}", what, C::NAME, show(&got));
			if !used.contains(a) { used.push(a.clone()); }
		}
		Ok(got)
	}
	/// all results of inserting a block
	fn inserted(&self, items: &[It], got: &[It], gen: &[u32], counter: &mut usize, dg: usize, ng: usize) -> Vec<Vec<Ex>> {
		let b = block(C::MARKS, gen, counter, dg, ng);
		if !C::ORDERED {
			// any order: decided by content below
			return vec![];
		}
		let mut v: Vec<Vec<Ex>> = vec![];
		// only positions with as many elements before as are before the block now can match
		let at = gen.first().and_then(|g| elems(got).iter().position(|e| e == g));
		for p in 0..items.len() + 1 {
			if let Some(at) = at { if items[..p].iter().filter(|i| match *i { It::E(_) => true, _ => false }).count() != at { continue } } else if p > 0 { break }
			let mut all = olds(&items[..p]);
			all.extend(b.iter().cloned());
			all.extend(olds(&items[p..]));
			v.extend(legal(&all));
		}
		v
	}
	fn check_insert(&self, what: &str, c: &C, items: &[It], gen: &[u32], counter: &mut usize, dg: usize, ng: usize, used: &mut Vec<Name>, r: &mut StdRng) -> Res<Vec<It>> {
		let mut want = self.inserted(items, &c.items(r), gen, counter, dg, ng);
		if !C::ORDERED {
			let got = c.items(r);
			let e = elems(&got);
			let old = elems(items);
			let ok = (0..old.len() + 1).any(|p| e.len() == old.len() + gen.len() && e[..p] == old[..p] && e[p + gen.len()..] == old[p..] && {
				let mut a = e[p..p + gen.len()].to_vec();
				let mut b = gen.to_vec();
				a.sort();
				b.sort();
				a == b
			});
			ensure!("content", ok, "{}: the {} held {}, now it holds {}; inserted were {:?}", what, C::NAME, show(items), show(&got), gen);
			want = vec![olds(&got)];
		}
		self.check(what, c, &want, items, used, r)
	}
}
impl<C: Coll> Scenario for Colls<C> {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine(self.dcg);
		let (dg, ng) = self.gauges[ch.choose(self.gauges.len())];
		let coord = Coord::new();
		let k = if self.starts { ch.choose(C::STARTS + 1) } else { 0 };
		let mut used = vec![];
		let mut counter = 0;
		let (mut c, mut items, mut r);
		if k == 0 {
			let size = self.sizes[ch.choose(self.sizes.len())];
			let seed = self.seeds[if C::MARKS { ch.choose(self.seeds.len()) } else { 0 }];
			r = rng(seed);
			ch.note(|| format!("{}: IncrementalInit of size {}, data gauge {}, name gauge {}, levels of seed {}", C::NAME, size, dg, ng, seed));
			c = C::create(size, dg, ng, &coord, &mut r);
			let gen = generated();
			same!("generated", "number of elements generated for the creation", gen.len(), size);
			let b = block(C::MARKS, &gen, &mut 0, dg, ng);
			items = self.check("after creation", &c, &legal(&b), &[], &mut used, &mut r)?;
		} else {
			let n = if k == 1 { 0 } else { self.sizes[ch.choose(self.sizes.len())] };
			r = rng(self.seeds[0]);
			let g = given(n, C::MARKS);
			ch.note(|| format!("{}: {} holding {}, data gauge {}, name gauge {}", C::NAME, C::start_name(k - 1), show(&g), dg, ng));
			c = C::start(k - 1, &g, dg, ng, &coord, &mut r);
			same!("generated", "elements generated for a creation from given data", generated(), vec![]);
			items = c.items(&mut r);
			ensure!("content", same_but_names(&items, &g), "created from {}, the {} holds {}", show(&g), C::NAME, show(&items));
			used = names(&items);
		}
		{ let mut f = Fp::new(); f.dbg(&items).dbg(&dg).dbg(&ng); ch.state(f.end()); }
		for _ in 0..self.edits {
			// append single/batches; insert batches at all positions; extend
			let places = C::places(&items);
			let picks: Vec<usize> = if self.all_places || places <= 3 { (0..places).collect() } else { vec![0, places / 2, places - 1] };
			let (na, ni) = (self.appends.len(), self.inserts.len() * picks.len());
			let ne = if c.clone().extend(0, &mut r).is_some() { self.appends.len() } else { 0 };
			generated();
			let o = ch.choose(1 + na + 1 + ni + ne);
			if o == 0 { break }
			let o = o - 1;
			if o <= na || o > na + ni {
				let (b, single) = if o == na { (1, true) } else if o < na { (self.appends[o], false) } else { (self.appends[o - na - ni - 1], false) };
				ch.note(|| format!("{} {} on {}", if o > na { "extend" } else if single { "append one" } else { "append" }, b, show(&items)));
				c = if o > na { c.extend(b, &mut r).unwrap() } else { c.append(b, single, &mut r) };
				let gen = generated();
				same!("generated", "number of elements generated for the edit", gen.len(), b);
				let mut all = olds(&items);
				all.extend(block(C::MARKS, &gen, &mut counter, dg, ng));
				items = self.check("after appending", &c, &legal(&all), &items, &mut used, &mut r)?;
			} else {
				let (b, p) = (self.inserts[(o - na - 1) / picks.len()], picks[(o - na - 1) % picks.len()]);
				set_raw(p as u64);
				ch.note(|| format!("insert {} (draw {}) on {}", b, p, show(&items)));
				c = c.insert(b, &mut r);
				let gen = generated();
				same!("generated", "number of elements generated for the edit", gen.len(), b);
				items = self.check_insert("after inserting", &c, &items, &gen, &mut counter, dg, ng, &mut used, &mut r)?;
			}
			let mut f = Fp::new(); f.dbg(&items).dbg(&counter).dbg(&dg).dbg(&ng); ch.state(f.end());
		}
		// the original engine is persistent: try every draw on a copy, and find every place reached
		if !self.dcg && C::places(&items) <= 40 {
			let n = C::places(&items);
			let mut reached = BTreeSet::new();
			for raw in 0..2 * n {
				set_raw(raw as u64);
				let d = c.clone().insert(1, &mut rng(1));
				let gen = generated();
				let got = self.check_insert("after inserting into a copy", &d, &items, &gen, &mut counter.clone(), dg, ng, &mut used.clone(), &mut rng(1))?;
				reached.insert(elems(&got).iter().position(|e| *e == gen[0]).unwrap());
			}
			same!("places", "number of different places reached by all draws", reached.len(), n);
			let again = c.items(&mut r);
			ensure!("copy", again == items, "inserting into copies changed the {} from {} to {}", C::NAME, show(&items), show(&again));
		}
		Ok(())
	}
}

/// the example tree, and the stack harness which can only be created
pub struct Examples;
impl Scenario for Examples {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		let dcg = ch.choose(2) == 1;
		start_engine(dcg);
		if ch.choose(2) == 0 {
			ch.note(|| "examples::iraztree_depth_4".to_string());
			let t: IRazTree<usize> = eval::examples::iraztree_depth_4();
			let n = fresh(|| t.clone().fold_lr(vec![], Rc::new(|mut v: Vec<usize>, e: &usize| { v.push(*e); v })));
			same!("example", "elements of the example tree", n, (1..17).collect::<Vec<_>>());
			let s = fresh(|| t.clone().fold_up_gauged(Rc::new(|v: &Vec<usize>| format!("{:?}", v)), Rc::new(|a: String, l: u32, n: Option<Name>, b: String| format!("({} {}{} {})", a, if n.is_some() { "#" } else { "" }, l, b))));
			same!("example", "shape of the example tree", s, Some("((([1, 2] #1 [3, 4]) #4 ([5, 6] #2 [7, 8])) #6 (([9, 10] #3 [11, 12]) #5 ([13, 14] #4 [15, 16])))".to_string()));
			let mut ns = fresh(|| t.clone().fold_lr_meta(vec![], Rc::new(|v: Vec<Name>, _: &usize| v), Rc::new(|mut v: Vec<Name>, (_, n): (u32, Option<Name>)| { v.extend(n); v })));
			let k = ns.len();
			ns.dedup();
			same!("example", "number of names in the example tree", (k, ns.iter().enumerate().all(|(i, n)| !ns[..i].contains(n))), (7, true));
			let z: IRaz<usize> = match t.focus(7usize) { Some(z) => z, None => return bad("example", "the example tree cannot be focused".to_string()) };
			same!("example", "element right of position 7 in the example tree", z.peek_right(), Some(8));
		} else {
			ch.note(|| "EvalIAStack: IncrementalEmpty".to_string());
			let s: EvalIAStack<El, Coord> = IncrementalEmpty { datagauge: 1, namegauge: 1, coord: Coord::new() }.create(&mut rng(1)).1;
			same!("stack", "debug output of an empty stack harness", format!("{:?}", s), "[]".to_string());
		}
		Ok(())
	}
}

pub fn c20(th: bool) -> Vec<Part> {
	let b = if th { 600 } else { 60 };
	let g: Vec<(usize, usize)> = if th { vec![(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (4, 2)] } else { vec![(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2)] };
	let lv = seeds(if th { 4 } else { 3 });
	let mut v = vec![dfs_part("examples", 30, Examples)];
	fn parts<C: Coll>(v: &mut Vec<Part>, th: bool, b: u64, g: &[(usize, usize)], lv: &[usize]) {
		let q = |a: usize, b: usize| if th { b } else { a };
		let base = |dcg| Colls::<C> { dcg: dcg, sizes: vec![], gauges: g.to_vec(), seeds: lv.to_vec(), edits: 0, appends: vec![], inserts: vec![], all_places: true, starts: false, kind: PhantomData };
		for &dcg in &[false, true] {
			if dcg && !C::MARKS { continue }
			let e = if dcg { "incremental" } else { "original" };
			v.push(dfs_part(&format!("creation/{}/{}", C::NAME, e), b, Colls { sizes: (0..q(26, 50)).collect(), ..base(dcg) }));
			v.push(dfs_part(&format!("edits/{}/{}", C::NAME, e), b, Colls { sizes: (0..q(7, 10)).collect(), edits: 2, appends: vec![0, 1, 2, 3, 5], inserts: vec![0, 1, 2, 4], starts: true, seeds: lv.iter().cloned().take(q(9, 30)).collect(), ..base(dcg) }));
			v.push(dfs_part(&format!("more-edits/{}/{}", C::NAME, e), b, Colls { sizes: vec![2, 5], edits: q(4, 5), appends: vec![1, 3], inserts: vec![1, 3], seeds: lv[..q(2, 4)].to_vec(), all_places: false, gauges: vec![(1, 1), (2, 1), (1, 2), (2, 2)], ..base(dcg) }));
			v.push(dfs_part(&format!("appends/{}/{}", C::NAME, e), b, Colls { sizes: vec![1], edits: q(3, 4), appends: (1..q(8, 9)).collect(), seeds: lv[..1].to_vec(), gauges: vec![(1, 2), (1, 3), (2, 2), (3, 1)], ..base(dcg) }));
			v.push(dfs_part(&format!("inserts/{}/{}", C::NAME, e), b, Colls { sizes: vec![2], edits: q(3, 4), appends: vec![], inserts: (1..q(8, 9)).collect(), all_places: false, seeds: lv[..1].to_vec(), gauges: vec![(1, 2), (1, 3), (2, 2), (3, 1)], ..base(dcg) }));
			v.push(dfs_part(&format!("large/{}/{}", C::NAME, e), b, Colls { sizes: vec![100, 301], edits: 2, appends: vec![7, 64], inserts: vec![20], seeds: lv[..2].to_vec(), all_places: false, gauges: vec![(1, 1), (7, 3), (64, 2), (1000, 1)], ..base(dcg) }));
		}
	}
	parts::<IR>(&mut v, th, b, &g, &lv);
	parts::<NI>(&mut v, th, b, &g, &lv);
	parts::<EV>(&mut v, th, b, &g, &lv);
	v
}
