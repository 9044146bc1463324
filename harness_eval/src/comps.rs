//! C21: computations on the evaluation collections, between edits.
use crate::colls::*;
use crate::common::*;
use crate::mc::*;
use adapton::engine::*;
use eval::accum_lists::*;
use eval::actions::*;
use eval::eval_iraz::EvalIRaz;
use eval::interface::*;
use eval::primitives::*;
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names, RazMeta};
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::{IRaz, IRazTree};
use rand::StdRng;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;
use time::Duration;

fn nm(s: &str) -> Name { name_of_string(s.to_string()) }
fn content<M: RazMeta<El> + 'static>(t: &RazTree<El, M>) -> Vec<It> {
	fresh(|| t.clone().fold_lr_meta(vec![], Rc::new(|mut v: Vec<It>, e: &El| { v.push(It::E(e.0)); v }), Rc::new(|mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v })))
}
fn content32<M: RazMeta<u32> + 'static>(t: &RazTree<u32, M>) -> Vec<It> {
	fresh(|| t.clone().fold_lr_meta(vec![], Rc::new(|mut v: Vec<It>, e: &u32| { v.push(It::E(*e)); v }), Rc::new(|mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v })))
}
fn sorted(mut v: Vec<u32>) -> Vec<u32> { v.sort(); v }
fn cat(mut a: Vec<u32>, b: Vec<u32>) -> Vec<u32> { a.extend(b); a }
/// the markers as folds from left to right see them: the end of each subsequence with the name of
/// the marker before it, then the level
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum A { E(u32), Fin(Option<Name>), M(u32) }
fn archive_view(items: &[It]) -> Vec<A> {
	let mut w = vec![];
	if items.is_empty() { return w }
	let mut cur = Some(nm("start"));
	for i in items { match *i {
		It::E(e) => w.push(A::E(e)),
		It::M(l, ref n) => { w.push(A::Fin(cur.clone())); w.push(A::M(l)); cur = n.clone(); }
	} }
	w.push(A::Fin(cur));
	w
}
/// a stack machine: what one element does to the stack of results
fn machine(e: u32) -> (usize, u32) { (match e % 4 { 3 => 1, 2 if e % 8 == 6 => 2, _ => 0 }, e * 10) }
fn machine_on(v: &mut Vec<u32>, e: u32) { let (p, x) = machine(e); for _ in 0..p { v.pop(); } v.push(x); if e % 3 == 0 { v.push(x + 1) } }
fn step<L: IFaceSeq<u32>>(a: L, e: u32) -> L {
	let (p, x) = machine(e);
	let mut a = a;
	for _ in 0..p { a = a.seq_pop().1; }
	let a = a.seq_push(x);
	if e % 3 == 0 { a.seq_push(x + 1) } else { a }
}
fn drained<L: IFaceSeq<u32> + Clone>(l: &L) -> Vec<u32> {
	let mut l = l.clone();
	let mut v = vec![];
	loop { let (e, m) = l.seq_pop(); l = m; match e { Some(e) if v.len() < 10_000 => v.push(e), _ => break } }
	v.reverse();
	v
}

pub trait Comps: Coll {
	const N: usize;
	fn name(c: usize) -> &'static str;
	fn run(&self, c: usize, items: &[It], dcg: bool, r: &mut StdRng) -> Res<()>;
}
const COMMON: usize = 17;
const NAMES: [&str; COMMON + 5] = ["FindMax", "TreeFold", "comp_tfold", "comp_map", "Mapper", "comp_fold", "Folder", "FFolder", "comp_fold_meta", "MFolder", "comp_fold_archive", "HFolder",
	"Compute2 of a stack machine and a fold", "Compute2 with Proj0", "MFolder into lists", "HFolder into a skip list", "actions that finish with a sequence under their own names",
	"comp_tfoldnl", "TreeFoldNL", "comp_tfoldg and TreeFoldG", "TreeFoldG reversing", "TreeFoldG filtering"];

macro_rules! into_list { ($d:expr, $r:expr, $items:expr, $t:ty, $n:expr) => {{
	let (ds, a): (Vec<Duration>, $t) = MFolder::new(nm($n), <$t as IFaceNew>::new(), |a: $t, e: &El| step(a, e.0), |a: $t, (l, n): (u32, Option<Name>)| IFaceArchive::archive(a, (l, n)), |a: $t| a).compute($d, $r);
	let mut w = vec![];
	for e in elems($items) { machine_on(&mut w, e); }
	same!("lists", format!("list built by {}", $n), drained(&a), w);
	same!("durations", "number of durations", ds.len(), 1);
}} }

macro_rules! common_comps { ($d:expr, $c:expr, $items:expr, $dcg:expr, $r:expr, $m:ty) => {{
	let (d, r, items) = ($d, $r, $items);
	let es = elems(items);
	let some = |v: Vec<u32>| if v.is_empty() { None } else { Some(v) };
	let seen: Rc<RefCell<Vec<Vec<u32>>>> = Rc::new(RefCell::new(vec![]));
	match $c {
		0 => {
			let (_, m): (Duration, Option<El>) = in_ns("max", || FindMax.compute(d, r));
			same!("max", "FindMax", m.map(|e| e.0), es.iter().cloned().map(El).max().map(|e| e.0));
			let _: Duration = in_ns("max", || FindMax.compute(d, r));
			let (_, m): (Duration, Option<El>) = in_ns("max2", || d.comp_max(r));
			same!("max", "comp_max", m.map(|e| e.0), es.iter().cloned().map(El).max().map(|e| e.0));
		}
		1 => {
			let s = seen.clone();
			let _: Duration = in_ns("tf", || TreeFold::new(|e: &El| vec![e.0], move |a: Vec<u32>, b: Vec<u32>| { let v = cat(a, b); s.borrow_mut().push(v.clone()); v }).compute(d, r));
			// nothing is remembered by the original engine, so the last combination is the result
			if !$dcg && es.len() > 1 { same!("treefold", "last combination made by TreeFold", seen.borrow().last().cloned(), Some(es)); }
		}
		2 => {
			let v = in_ns("tfold", || d.comp_tfold(Rc::new(|e: &El| vec![e.0]), Rc::new(cat), r).1);
			same!("tfold", "comp_tfold", v, some(es));
		}
		3 => {
			let t: RazTree<El, $m> = in_ns("map", || d.comp_map(Rc::new(|e: &El| El(e.0 + 5000)), r).1);
			let want: Vec<It> = items.iter().map(|i| match *i { It::E(e) => It::E(e + 5000), ref m => m.clone() }).collect();
			same!("map", "comp_map", content(&t), want);
			let t: RazTree<u32, $m> = in_ns("map2", || d.comp_map(Rc::new(|e: &El| e.0 % 2), r).1);
			let want: Vec<It> = items.iter().map(|i| match *i { It::E(e) => It::E(e % 2), ref m => m.clone() }).collect();
			same!("map", "comp_map with equal values", content32(&t), want);
		}
		4 => {
			let s = seen.clone();
			let _: Duration = Mapper::new(nm("mapper"), move |e: &El| { s.borrow_mut().push(vec![e.0]); e.0 + 1 }).compute(d, r);
			if !$dcg { same!("mapper", "elements Mapper looked at, in any order", sorted(seen.borrow().iter().map(|v| v[0]).collect()), sorted(es)); }
		}
		5 => {
			let v = in_ns("fold", || d.comp_fold(vec![77], Rc::new(|mut v: Vec<u32>, e: &El| { v.push(e.0); v }), r).1);
			same!("fold", "comp_fold", v, cat(vec![77], es));
		}
		6 => {
			let f = |v: Vec<u32>, e: &El| cat(v, vec![e.0]);
			let (_, v): (Duration, Vec<u32>) = in_ns("folder", || Folder::new(vec![], f).compute(d, r));
			same!("folder", "Folder", v, es);
			let (ds, v): (Vec<Duration>, Vec<u32>) = in_ns("folder2", || Folder::new(vec![5], f).compute(d, r));
			same!("folder", "Folder with a list of durations", v, cat(vec![5], es.clone()));
			same!("durations", "number of durations", ds.len(), 1);
			let s = seen.clone();
			let _: Duration = in_ns("folder3", || Folder::new(vec![], move |v: Vec<u32>, e: &El| { let v = cat(v, vec![e.0]); s.borrow_mut().push(v.clone()); v }).compute(d, r));
			if !$dcg && !es.is_empty() { same!("folder", "last value of Folder", seen.borrow().last().cloned(), Some(es)); }
		}
		7 => {
			let f = |v: Vec<u32>, e: &El| cat(v, vec![e.0]);
			let (ds, v): (Vec<Duration>, (usize, Vec<u32>)) = in_ns("ffolder", || FFolder::new(vec![], f, |v: Vec<u32>| (v.len(), v)).compute(d, r));
			same!("ffolder", "FFolder", v, (es.len(), es.clone()));
			same!("durations", "number of durations", ds.len(), 1);
			let s = seen.clone();
			let _: Duration = in_ns("ffolder2", || FFolder::new(vec![], f, move |v: Vec<u32>| s.borrow_mut().push(v)).compute(d, r));
			same!("ffolder", "what FFolder finished with", *seen.borrow(), vec![es]);
		}
		8 => {
			let v = in_ns("fmeta", || d.comp_fold_meta(vec![], Rc::new(|mut v: Vec<It>, e: &El| { v.push(It::E(e.0)); v }), Rc::new(|mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v }), r).1);
			same!("fold_meta", "comp_fold_meta", v, items.to_vec());
		}
		9 => {
			let (f, m) = (|mut v: Vec<It>, e: &El| { v.push(It::E(e.0)); v }, |mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v });
			let (ds, v): (Vec<Duration>, (Vec<It>, usize)) = MFolder::new(nm("mf"), vec![], f, m, |v: Vec<It>| { let n = v.len(); (v, n) }).compute(d, r);
			same!("mfolder", "MFolder", v, (items.to_vec(), items.len()));
			same!("durations", "number of durations", ds.len(), 1);
			let got: Rc<RefCell<Vec<Vec<It>>>> = Rc::new(RefCell::new(vec![]));
			let s = got.clone();
			let _: Duration = MFolder::new(nm("mf2"), vec![], f, m, move |v: Vec<It>| s.borrow_mut().push(v)).compute(d, r);
			same!("mfolder", "what MFolder finished with", *got.borrow(), vec![items.to_vec()]);
		}
		10 => {
			let v = in_ns("farch", || d.comp_fold_archive(vec![], Rc::new(|mut v: Vec<A>, e: &El| { v.push(A::E(e.0)); v }), Rc::new(|mut v: Vec<A>, n: Option<Name>| { v.push(A::Fin(n)); v }), Rc::new(|mut v: Vec<A>, l: u32| { v.push(A::M(l)); v }), r).1);
			same!("fold_archive", "comp_fold_archive", v, archive_view(items));
		}
		11 => {
			let (f, n, m) = (|mut v: Vec<A>, e: &El| { v.push(A::E(e.0)); v }, |mut v: Vec<A>, n: Option<Name>| { v.push(A::Fin(n)); v }, |mut v: Vec<A>, l: u32| { v.push(A::M(l)); v });
			let (ds, v): (Vec<Duration>, (usize, Vec<A>)) = HFolder::new(nm("hf"), vec![], f, n, m, |v: Vec<A>| (v.len(), v)).compute(d, r);
			let w = archive_view(items);
			same!("hfolder", "HFolder", v, (w.len(), w.clone()));
			same!("durations", "number of durations", ds.len(), 1);
			let got: Rc<RefCell<Vec<Vec<A>>>> = Rc::new(RefCell::new(vec![]));
			let s = got.clone();
			let _: Duration = HFolder::new(nm("hf2"), vec![], f, n, m, move |v: Vec<A>| s.borrow_mut().push(v)).compute(d, r);
			same!("hfolder", "what HFolder finished with", *got.borrow(), vec![w]);
		}
		12 => {
			let mut two = Compute2::<_, _, _, EvalIRaz<u32, Coord>, _>::new(
				MFolder::new(nm("machine"), AStack::<u32, u32>::new(), |a: AStack<u32, u32>, e: &El| step(a, e.0), |a: AStack<u32, u32>, (l, n): (u32, Option<Name>)| IFaceArchive::archive(a, (l, n)),
					|a: AStack<u32, u32>| ns(nm("to_tree"), || IncrementalFrom { data: AtTail(a.clone()), datagauge: 1, namegauge: 1, coord: Coord::new() }.create(&mut rng(1)).1)),
				MFolder::new(nm("second"), vec![], |mut v: Vec<It>, e: &u32| { v.push(It::E(*e)); v }, |mut v: Vec<It>, (l, n): (u32, Option<Name>)| { v.push(It::M(l, n)); v }, |v: Vec<It>| v));
			let (ds, v): (Vec<Duration>, Vec<It>) = two.compute(d, r);
			let mut w = vec![];
			for e in &es { machine_on(&mut w, *e); }
			same!("compute2", "elements after the stack machine and the conversion", elems(&v), w);
			same!("durations", "number of durations", ds.len(), 2);
		}
		13 => {
			let mut two = Compute2::<_, _, _, (Vec<u32>, u32), _>::new(Folder::new((vec![], 0), |(v, n): (Vec<u32>, u32), e: &El| (cat(v, vec![e.0]), n + e.0)), Proj0);
			let (ds, v): (Vec<Duration>, Vec<u32>) = in_ns("proj", || two.compute(d, r));
			same!("compute2", "Folder and Proj0", v, es);
			same!("durations", "number of durations", ds.len(), 1);
		}
		16 => {
			// what finishes an action need not choose a namespace
			let mut w = vec![];
			for e in &es { machine_on(&mut w, *e); }
			let (_, t): (Vec<Duration>, IRazTree<u32>) = MFolder::new(nm("fin-m"), AStack::<u32, u32>::new(), |a: AStack<u32, u32>, e: &El| step(a, e.0), |a: AStack<u32, u32>, (l, n): (u32, Option<Name>)| IFaceArchive::archive(a, (l, n)),
				|a: AStack<u32, u32>| IRazTree::memo_from(&AtTail(a))).compute(d, r);
			same!("finish", "sequence an MFolder finishes with", elems(&content32(&t)), w);
			let (_, t): (Vec<Duration>, IRazTree<u32>) = HFolder::new(nm("fin-h"), AStack::<u32, u32>::new(), |a: AStack<u32, u32>, e: &El| step(a, e.0), |a: AStack<u32, u32>, n: Option<Name>| IFaceArchive::archive(a, (1, n)), |a: AStack<u32, u32>, _l: u32| a,
				|a: AStack<u32, u32>| IRazTree::memo_from(&AtTail(a))).compute(d, r);
			same!("finish", "sequence an HFolder finishes with", elems(&content32(&t)), w);
		}
		14 => {
			into_list!(d, r, items, List<u32>, "list");
			into_list!(d, r, items, RcList<u32>, "rclist");
			into_list!(d, r, items, VecList<u32>, "veclist");
			into_list!(d, r, items, RcVecList<u32>, "rcveclist");
			into_list!(d, r, items, AStack<u32, u32>, "astack");
			into_list!(d, r, items, AStack<u32, ()>, "astack-unit");
			into_list!(d, r, items, IRaz<u32>, "iraz");
			into_list!(d, r, items, Vec<u32>, "vec");
		}
		_ => {
			let emp = || { let mut t: Skiplist<u32, u32> = Skiplist::emp(2, name_unit()); t.archive(name_unit()); t };
			let (_, a): (Vec<Duration>, Skiplist<u32, u32>) = HFolder::new(nm("skip"), emp(), |mut a: Skiplist<u32, u32>, e: &El| { let k = e.0 % 5; let n = a.get(k).unwrap_or(0); a.put(k, n + e.0 + 1); a },
				|mut a: Skiplist<u32, u32>, n: Option<Name>| { if let Some(n) = n { a.archive(n) } a }, |a: Skiplist<u32, u32>, _l: u32| a, |a: Skiplist<u32, u32>| a).compute(d, r);
			for k in 0..6 {
				let w: Vec<u32> = es.iter().filter(|e| **e % 5 == k).map(|e| e + 1).collect();
				same!("skiplist", format!("sum at key {} of the skip list", k), a.get(k), if w.is_empty() { None } else { Some(w.iter().sum::<u32>()) });
			}
		}
	}
	Ok(())
}} }
impl Comps for NI {
	const N: usize = COMMON;
	fn name(c: usize) -> &'static str { NAMES[c] }
	fn run(&self, c: usize, items: &[It], dcg: bool, r: &mut StdRng) -> Res<()> { common_comps!(self, c, items, dcg, r, Names) }
}
impl Comps for IR {
	const N: usize = COMMON + 5;
	fn name(c: usize) -> &'static str { NAMES[c] }
	fn run(&self, c: usize, items: &[It], dcg: bool, r: &mut StdRng) -> Res<()> {
		if c < COMMON { return common_comps!(self, c, items, dcg, r, Count) }
		let some = |v: Vec<It>| if v.is_empty() { None } else { Some(v) };
		let g = |v: Vec<Vec<u32>>| if items.is_empty() { None } else { Some(v) };
		let glue = |mut a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { a.push(It::M(l, n)); a.extend(b); a };
		let icat = |mut a: Vec<It>, b: Vec<It>| { a.extend(b); a };
		let gcat = |mut a: Vec<Vec<u32>>, _l: u32, _n: Option<Name>, b: Vec<Vec<u32>>| { a.extend(b); a };
		match c - COMMON {
			0 => {
				let v = in_ns("tfoldnl", || self.comp_tfoldnl(Rc::new(|e: &El| vec![It::E(e.0)]), Rc::new(icat), Rc::new(glue), r).1);
				same!("tfoldnl", "comp_tfoldnl", v, some(items.to_vec()));
			}
			1 => {
				let seen: Rc<RefCell<Vec<Vec<It>>>> = Rc::new(RefCell::new(vec![]));
				let (s, s2) = (seen.clone(), seen.clone());
				let _: Duration = in_ns("tfnl", || TreeFoldNL::new(|e: &El| vec![It::E(e.0)], move |a: Vec<It>, b: Vec<It>| { let v = icat(a, b); s.borrow_mut().push(v.clone()); v },
					move |a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { let v = glue(a, l, n, b); s2.borrow_mut().push(v.clone()); v }).compute(self, r));
				if !dcg && items.len() > 1 { same!("treefoldnl", "last combination made by TreeFoldNL", seen.borrow().last().cloned(), Some(items.to_vec())); }
			}
			2 => {
				let v = in_ns("tfoldg", || self.comp_tfoldg(Rc::new(|v: &Vec<El>| vec![v.iter().map(|e| e.0).collect::<Vec<u32>>()]), Rc::new(gcat), r).1);
				same!("tfoldg", "comp_tfoldg", v, g(groups(items)));
				let seen: Rc<RefCell<Vec<Vec<Vec<u32>>>>> = Rc::new(RefCell::new(vec![]));
				let s = seen.clone();
				let _: Duration = in_ns("tfg", || TreeFoldG::new(|v: &Vec<El>| vec![v.iter().map(|e| e.0).collect::<Vec<u32>>()],
					move |a: Vec<Vec<u32>>, l: u32, n: Option<Name>, b: Vec<Vec<u32>>| { let v = gcat(a, l, n, b); s.borrow_mut().push(v.clone()); v }).compute(self, r));
				if !dcg && groups(items).len() > 1 { same!("treefoldg", "last combination made by TreeFoldG", seen.borrow().last().cloned(), Some(groups(items))); }
			}
			n => {
				// the reverse and filter examples: build a sequence from the subsequences
				let rev = n == 3;
				let name = nm(if rev { "reverse" } else { "filter" });
				let v: Option<IRazTree<El>> = in_ns(if rev { "joins-r" } else { "joins-f" }, || self.comp_tfoldg(
					Rc::new(move |v: &Vec<El>| {
						let w: Vec<El> = if rev { v.iter().rev().cloned().collect() } else { v.iter().filter(|e| e.0 % 3 != 1).cloned().collect() };
						match IRazTree::from_vec(w) { None => IRazTree::empty(), Some(t) => t }
					}),
					Rc::new(move |a: IRazTree<El>, l: u32, n: Option<Name>, b: IRazTree<El>| match (a.is_empty(), b.is_empty()) {
						(true, true) => IRazTree::empty(),
						(false, true) => a,
						(true, false) => b,
						_ => ns(name.clone(), || if rev { IRazTree::join(b, l, n, a).unwrap() } else { IRazTree::join(a, l, n, b).unwrap() }),
					}), r).1);
				let got = match v { None => vec![], Some(t) => {
					let c = content(&t);
					let k = elems(&c).len();
					same!("joined-count", "element count of the sequence built in a fold", t.meta().0, k);
					// it can be focused in the middle
					if k > 0 {
						let z: IRaz<El> = match t.clone().focus(k / 2) { Some(z) => z, None => return bad("joined-focus", "the sequence built in a fold cannot be focused".to_string()) };
						same!("joined-focus", "element right of the middle of the sequence built in a fold", z.peek_right().map(|e| e.0), Some(elems(&c)[k / 2]));
					}
					c
				} };
				if rev {
					let mut w = items.to_vec();
					w.reverse();
					let shape = |v: &[It]| v.iter().map(|i| match *i { It::E(e) => (0, e, false), It::M(l, ref n) => (1, l, n.is_some()) }).collect::<Vec<_>>();
					same!("reverse", "reversed sequence", shape(&got), shape(&w));
				} else {
					let w: Vec<u32> = elems(items).into_iter().filter(|e| e % 3 != 1).collect();
					same!("filter", "filtered sequence", elems(&got), w);
				}
			}
		}
		Ok(())
	}
}
impl Comps for EV {
	const N: usize = 8;
	fn name(c: usize) -> &'static str { ["FindMax", "comp_rev and Reverse", "Native", "comp_map and Mapper", "Folder", "FFolder", "MFolder", "Compute2"][c] }
	fn run(&self, c: usize, items: &[It], _dcg: bool, r: &mut StdRng) -> Res<()> {
		let d = self;
		let es = elems(items);
		let seen: Rc<RefCell<Vec<Vec<u32>>>> = Rc::new(RefCell::new(vec![]));
		let s = seen.clone();
		let f = |v: Vec<u32>, e: &El| cat(v, vec![e.0]);
		match c {
			0 => {
				let (_, m): (Duration, Option<El>) = FindMax.compute(d, r);
				same!("max", "FindMax", m, es.iter().cloned().map(El).max());
			}
			1 => {
				let w: Vec<El> = es.iter().rev().cloned().map(El).collect();
				same!("rev", "comp_rev", d.comp_rev(r).1, w);
				let _: Duration = Reverse.compute(d, r);
			}
			2 => {
				let v = d.comp_native(Rc::new(|v: &Vec<El>| v.iter().map(|e| e.0).collect::<Vec<u32>>()), r).1;
				same!("native", "comp_native", v, es);
				let _: Duration = Native::new(move |v: &Vec<El>| s.borrow_mut().push(v.iter().map(|e| e.0).collect())).compute(d, r);
				same!("native", "what Native looked at", *seen.borrow(), vec![es]);
			}
			3 => {
				let v: Vec<u32> = d.comp_map(Rc::new(|e: &El| e.0 + 1), r).1;
				same!("map", "comp_map", v, es.iter().map(|e| e + 1).collect::<Vec<_>>());
				let _: Duration = Mapper::new(nm("m"), move |e: &El| { s.borrow_mut().push(vec![e.0]); 0 }).compute(d, r);
				same!("map", "elements Mapper looked at, in any order", sorted(seen.borrow().iter().map(|v| v[0]).collect()), sorted(es));
			}
			4 => {
				let (_, v): (Duration, Vec<u32>) = Folder::new(vec![4], f).compute(d, r);
				same!("folder", "Folder", v, cat(vec![4], es.clone()));
				let (ds, v): (Vec<Duration>, Vec<u32>) = Folder::new(vec![], f).compute(d, r);
				same!("folder", "Folder with a list of durations", (ds.len(), v), (1, es.clone()));
				let _: Duration = Folder::new(vec![], move |v: Vec<u32>, e: &El| { let v = cat(v, vec![e.0]); s.borrow_mut().push(v.clone()); v }).compute(d, r);
				if !es.is_empty() { same!("folder", "last value of Folder", seen.borrow().last().cloned(), Some(es)); }
			}
			5 => {
				let (ds, v): (Vec<Duration>, usize) = FFolder::new(vec![], f, |v: Vec<u32>| v.len()).compute(d, r);
				same!("ffolder", "FFolder", (ds.len(), v), (1, es.len()));
				let _: Duration = FFolder::new(vec![], f, move |v: Vec<u32>| s.borrow_mut().push(v)).compute(d, r);
				same!("ffolder", "what FFolder finished with", *seen.borrow(), vec![es]);
			}
			6 => {
				let (ds, v): (Vec<Duration>, Vec<u32>) = MFolder::new(nm("m"), vec![], f, |v: Vec<u32>, _: ()| v, |v: Vec<u32>| v).compute(d, r);
				same!("mfolder", "MFolder", (ds.len(), v), (1, es.clone()));
				let _: Duration = MFolder::new(nm("m"), vec![], f, |v: Vec<u32>, _: ()| v, move |v: Vec<u32>| s.borrow_mut().push(v)).compute(d, r);
				same!("mfolder", "what MFolder finished with", *seen.borrow(), vec![es]);
			}
			_ => {
				let mut two = Compute2::<_, _, _, EV32, _>::new(
					FFolder::new(Vec::<u32>::new(), |mut v: Vec<u32>, e: &El| { machine_on(&mut v, e.0); v }, |v: Vec<u32>| IncrementalFrom { data: v, datagauge: 1, namegauge: 1, coord: Coord::new() }.create(&mut rng(1)).1),
					Folder::new(vec![], |v: Vec<u32>, e: &u32| cat(v, vec![*e])));
				let (ds, v): (Vec<Duration>, Vec<u32>) = two.compute(d, r);
				let mut w = vec![];
				for e in es { machine_on(&mut w, e); }
				same!("compute2", "Compute2", (ds.len(), v), (2, w));
			}
		}
		Ok(())
	}
}
type EV32 = eval::eval_vec::EvalVec<u32, Coord>;

pub struct Runs<C> {
	pub dcg: bool,
	pub sizes: Vec<usize>,
	pub gauges: Vec<(usize, usize)>,
	pub seeds: Vec<usize>,
	pub edits: usize,
	pub appends: Vec<usize>,
	pub inserts: Vec<usize>,
	/// insertion positions: all or three of them
	pub all_places: bool,
	/// run two different computations
	pub pairs: bool,
	/// every pattern of that many equal and unequal elements (0: all are different)
	pub equal: u32,
	pub kind: PhantomData<fn() -> C>,
}
impl<C: Comps> Scenario for Runs<C> {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine(self.dcg);
		let comp = ch.choose(C::N);
		let other = if self.pairs { (comp + 1 + ch.choose(C::N - 1)) % C::N } else { comp };
		let (dg, ng) = self.gauges[ch.choose(self.gauges.len())];
		let size = self.sizes[ch.choose(self.sizes.len())];
		let seed = self.seeds[if C::MARKS { ch.choose(self.seeds.len()) } else { 0 }];
		if self.equal > 0 { let p = ch.choose(1 << self.equal) as u32; set_equal(Some(p)); ch.note(|| format!("elements drawn are the bits of {:b}, lowest first", p)); }
		let mut r = rng(seed);
		let mut c = C::create(size, dg, ng, &Coord::new(), &mut r);
		let mut items = c.items(&mut r);
		ch.note(|| format!("{}: IncrementalInit of size {}, data gauge {}, name gauge {}, levels of seed {}: {}", C::NAME, size, dg, ng, seed, show(&items)));
		for e in 0..self.edits + 1 {
			if e > 0 {
				let places = C::places(&items);
				let picks: Vec<usize> = if self.all_places || places <= 3 { (0..places).collect() } else { vec![0, places / 2, places - 1] };
				let na = self.appends.len();
				let o = ch.choose(1 + na + self.inserts.len() * picks.len());
				if o == 0 { break }
				let o = o - 1;
				if o < na {
					ch.note(|| format!("append {}", self.appends[o]));
					c = c.append(self.appends[o], false, &mut r);
				} else {
					let (b, p) = (self.inserts[(o - na) / picks.len()], picks[(o - na) % picks.len()]);
					set_raw(p as u64);
					ch.note(|| format!("insert {} (draw {})", b, p));
					c = c.insert(b, &mut r);
				}
				items = c.items(&mut r);
				ch.note(|| format!("now {}", show(&items)));
			}
			// demanding the computation may be left out in between
			if self.dcg && e < self.edits && ch.choose(2) == 1 { continue }
			ch.note(|| format!("compute {}", C::name(comp)));
			c.run(comp, &items, self.dcg, &mut r)?;
			if other != comp { ch.note(|| format!("compute {}", C::name(other))); c.run(other, &items, self.dcg, &mut r)?; }
			let after = c.items(&mut r);
			ensure!("observed", after == items, "the computation {} changed the {} from {} to {}", C::name(comp), C::NAME, show(&items), show(&after));
			let mut f = Fp::new(); f.dbg(&items).dbg(&comp).dbg(&e); ch.state(f.end());
		}
		Ok(())
	}
}

pub fn c21(th: bool) -> Vec<Part> {
	let b = if th { 600 } else { 90 };
	let mut v = crate::seqs::parts(th);
	fn parts<C: Comps>(v: &mut Vec<Part>, th: bool, b: u64) {
		let q = |a: usize, b: usize| if th { b } else { a };
		let lv = seeds(3);
		let base = |dcg| Runs::<C> { dcg: dcg, sizes: vec![], gauges: vec![(1, 1), (2, 1), (1, 2), (2, 2), (3, 1)], seeds: lv.clone(), edits: 0, appends: vec![], inserts: vec![], all_places: true, pairs: false, equal: 0, kind: PhantomData };
		for &dcg in &[false, true] {
			if dcg && !C::MARKS { continue }
			let e = if dcg { "incremental" } else { "original" };
			v.push(dfs_part(&format!("one-edit/{}/{}", C::NAME, e), b, Runs { sizes: (0..q(9, 12)).collect(), edits: 1, appends: vec![1, 2, 3], inserts: vec![1, 2, 3], seeds: lv[..q(9, 27)].to_vec(), ..base(dcg) }));
			v.push(dfs_part(&format!("two-edits/{}/{}", C::NAME, e), b, Runs { sizes: q3(th, vec![1, 3, 4, 6], vec![1, 2, 3, 4, 5, 6, 7]), edits: 2, appends: vec![1, 2], inserts: vec![1, 2], seeds: lv[..q(4, 9)].to_vec(), gauges: vec![(1, 1), (2, 1), (1, 2)], ..base(dcg) }));
			v.push(dfs_part(&format!("more-edits/{}/{}", C::NAME, e), b, Runs { sizes: vec![4], edits: q(3, 4), appends: vec![2], inserts: vec![1], seeds: lv[..q(2, 4)].to_vec(), gauges: vec![(1, 1), (2, 1)], all_places: false, ..base(dcg) }));
			v.push(dfs_part(&format!("pairs/{}/{}", C::NAME, e), b, Runs { sizes: vec![3, 6], edits: q(1, 2), appends: vec![1], inserts: vec![1], seeds: lv[..q(3, 4)].to_vec(), gauges: vec![(1, 1), (2, 1)], pairs: true, ..base(dcg) }));
			v.push(dfs_part(&format!("equal/{}/{}", C::NAME, e), b, Runs { sizes: (2..q(6, 8)).collect(), edits: 1, appends: vec![1], inserts: vec![1], seeds: lv[..1].to_vec(), gauges: vec![(1, 1), (2, 1)], equal: q(5, 7) as u32, ..base(dcg) }));
			v.push(dfs_part(&format!("large/{}/{}", C::NAME, e), b, Runs { sizes: vec![150], edits: q(1, 2), appends: vec![33], inserts: vec![10], seeds: lv[..2].to_vec(), gauges: vec![(1, 1), (7, 3), (200, 1)], all_places: false, ..base(dcg) }));
		}
	}
	parts::<IR>(&mut v, th, b);
	parts::<NI>(&mut v, th, b);
	parts::<EV>(&mut v, th, b);
	v
}
fn q3<T>(th: bool, a: T, b: T) -> T { if th { b } else { a } }
