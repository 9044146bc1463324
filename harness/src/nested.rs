//! C07, C16: computations inside computations of the user's own.  A user's memoised function takes
//! a sequence (as an argument, or from a cell which is set after each edit), computes with it, edits
//! it, or both, and is demanded again after edits; the change-propagating engine decides what of it
//! runs again.
use crate::common::*;
use crate::dcg::{apply, called, calls, reusable, distinct_foci, fresh_observe, start_engine, Op};
use crate::mc::*;
use crate::raz_model::{build, legal_unfocus};
use adapton::engine::*;
use adapton::macros::ProgPt;
use iodyn::archive_stack::{AStack, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::RazTree;
use iodyn::raz_meta::Count;
use iodyn::skiplist::{FinMap, Skiplist};
use std::rc::Rc;

type Seq = RazTree<El, Count>;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val { Its(Vec<It>), Groups(Vec<Vec<u16>>, Vec<(u32, u16)>), Fins(Vec<Result<It, u16>>), Seq(Seq), Nums(Vec<Option<u16>>), Lists(Vec<Vec<u16>>) }
pub const N: usize = 16;
/// the ones that belong to C16
pub const ACCS: u32 = 1 << 8 | 1 << 9;
/// the ones whose user functions are watched: 0, 1, 3, 4, 5, 7
pub const WATCHED: u32 = 0xBB;
pub const EDITS: u32 = 1 << 10 | 1 << 11 | 1 << 12 | 1 << 13;
const NAMES: [&str; N] = ["fold_up_nl", "fold_up_gauged", "fold_lr_meta", "fold_lr_archive", "map", "map+fold_up_nl", "map+map+fold_lr_meta", "fold_up_max",
	"accumulate a skip list", "accumulate a stack, convert it and fold", "push at the left end and fold", "pop before the middle, push, and fold", "pop at the right end", "push at every third of the sequence", "peek at the ends and in the middle", "fold_up, and fold_lr if that is even"];
const MX: u16 = 100;

fn items_of(t: &Seq, n: &str) -> Vec<It> { in_ns(n, || to_items(&observe(t), MX)) }
fn fold_nl(t: Seq) -> Vec<It> {
	t.fold_up_nl(Rc::new(|e: &El| { called(e.0 % 1000); vec![It::E(e.0)] }), Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
		Rc::new(|mut a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { a.push(It::M(l, id_of_tree_name(&n, MX))); a.extend(b); a })).unwrap_or(vec![])
}
/// the computation, as a user would write it; captures nothing
fn value(c: usize, t: Seq) -> Val { in_ns(&format!("v{}", c), || value_in(c, t)) }
fn value_in(c: usize, t: Seq) -> Val {
	let len = t.clone().meta().0;
	match c {
		0 => Val::Its(in_ns("f", || fold_nl(t))),
		1 => { let g: Option<(Vec<Vec<u16>>, Vec<(u32, u16)>)> = in_ns("f", || t.fold_up_gauged(Rc::new(|v: &Vec<El>| { for e in v { called(e.0) } (vec![labels(v)], vec![]) }),
			Rc::new(|mut a: (Vec<Vec<u16>>, Vec<(u32, u16)>), l: u32, n: Option<Name>, b: (Vec<Vec<u16>>, Vec<(u32, u16)>)| { a.0.extend(b.0); a.1.push((l, id_of_tree_name(&n, MX))); a.1.extend(b.1); a })));
			let g = g.unwrap_or((vec![], vec![])); Val::Groups(g.0, g.1) }
		2 => Val::Its(items_of(&t, "f")),
		3 => Val::Fins(in_ns("f", || t.fold_lr_archive(vec![], Rc::new(|mut a: Vec<Result<It, u16>>, e: &El| { called(e.0); a.push(Ok(It::E(e.0))); a }),
			Rc::new(|mut a: Vec<Result<It, u16>>, n: Option<Name>| { a.push(Err(match n { Some(ref s) if *s == name_of_string("start".to_string()) => 9999, _ => id_of_tree_name(&n, MX) })); a }),
			Rc::new(|mut a: Vec<Result<It, u16>>, l: u32| { a.push(Ok(It::M(l, 0))); a })))),
		4 => Val::Seq(in_ns("f", || t.map(Rc::new(|e: &El| { called(e.0); El(e.0 + 1000) })))),
		5 => { let m: Seq = in_ns("m", || t.map(Rc::new(|e: &El| { called(e.0); El(e.0 + 1000) }))); Val::Its(in_ns("f", || fold_nl(m))) }
		6 => {
			let m: Seq = in_ns("m", || t.map(Rc::new(|e: &El| El(e.0 + 1000))));
			let m: Seq = in_ns("mm", || m.map(Rc::new(|e: &El| El(e.0 + 1000))));
			Val::Its(items_of(&m, "f"))
		}
		7 => Val::Nums(vec![in_ns("f", || t.fold_up(Rc::new(|e: &El| { called(e.0); e.0 % 3 }), Rc::new(|a: u16, b: u16| a.max(b))))]),
		8 => {
			type L = Skiplist<u16, Vec<u16>>;
			let a = in_ns("f", || t.fold_lr_archive(L::emp(1, name_of_string("accumulator".to_string())), Rc::new(|mut a: L, e: &El| { let mut v = a.get(e.0 % 3).unwrap_or(vec![]); v.push(e.0); a.put(e.0 % 3, v); a }),
				Rc::new(|mut a: L, n: Option<Name>| { if let Some(n) = n { a.archive(n) } a }), Rc::new(|a, _| a)));
			Val::Lists((0..3).map(|k| a.get(k).unwrap_or(vec![])).collect())
		}
		9 => {
			let a = in_ns("f", || t.fold_lr_archive(AStack::<El, u32>::new(), Rc::new(|mut a: AStack<El, u32>, e: &El| { a.push(*e); a }), Rc::new(|mut a: AStack<El, u32>, n| { a.archive(n, 1); a }), Rc::new(|a, _| a)));
			let s: Seq = in_ns("c", || RazTree::memo_from(&AtTail(a)));
			Val::Its(in_ns("g", || s.fold_up(Rc::new(|e: &El| vec![It::E(e.0)]), Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }))).unwrap_or(vec![]))
		}
		10 => {
			let s = in_ns("e", || { let mut r = t.focus_left(); r.push_left(El(500)); r.unfocus() });
			Val::Its(items_of(&s, "f"))
		}
		11 => {
			let s = in_ns("e", || { let mut r = t.focus(len / 2).unwrap(); r.pop_left(); r.push_right(El(500)); r.unfocus() });
			Val::Its(in_ns("f", || fold_nl(s)))
		}
		12 => Val::Seq(in_ns("e", || { let mut r = t.focus(usize::max_value()).unwrap(); r.pop_left(); r.unfocus() })),
		13 => {
			let mut s = t;
			for i in 0..2 { s = in_ns(["e1", "e2"][i], || { let mut r = s.focus(len * (i + 1) / 3).unwrap(); r.push_left(El(500 + i as u16)); r.unfocus() }); }
			Val::Its(items_of(&s, "f"))
		}
		14 => {
			let mut v = vec![Some(len as u16)];
			for &i in &[0, len / 2, len] { let r = t.clone().focus(i).unwrap(); v.push(r.peek_left().map(|e| e.0)); v.push(r.peek_right().map(|e| e.0)); }
			Val::Nums(v)
		}
		_ => {
			let m = in_ns("f", || t.clone().fold_up(Rc::new(|e: &El| e.0), Rc::new(|a: u16, b: u16| a.wrapping_add(b)))).unwrap_or(0);
			if m % 2 == 1 { Val::Nums(vec![Some(m)]) } else { Val::Its(items_of(&t, "g")) }
		}
	}
}
/// what of the list is to the left and right (reversed) of count position `i`
fn cut(items: &[It], i: usize) -> (Vec<It>, Vec<It>) {
	let p = if i == 0 { 0 } else { items.iter().enumerate().filter(|x| x.1.is_e()).nth(i - 1).unwrap().0 + 1 };
	(items[..p].to_vec(), items[p..].iter().rev().cloned().collect())
}
fn pop(l: &mut Vec<It>) { match l.iter().rposition(|i| i.is_e()) { Some(p) => l.truncate(p), None => {} } }
fn check(c: usize, v: Val, items: &[It]) -> Res<()> {
	let es = elems(items);
	let what = format!("{} of {:?}", NAMES[c], items);
	let plus = |k: u16| items.iter().map(|i| match *i { It::E(e) => It::E(e + k), m => m }).collect::<Vec<_>>();
	let one_of = |v: Val, legal: Vec<Vec<It>>| -> Res<()> {
		let got = match v { Val::Its(v) => v, Val::Seq(ref t) => { let i = to_items(&fresh_observe(t), MX); Count::check_meta(t.meta(), &i, &|| canonical(&i))?; i }, o => return bad("nested", format!("{}: {:?}", what, o)) };
		ensure!("nested", legal.contains(&got), "{}: got {:?}, expected {:?}", what, got, legal);
		Ok(())
	};
	let its = |v: Val, w: Vec<It>| one_of(v, vec![w]);
	match c {
		0 | 2 => its(v, items.to_vec()),
		1 => { same!("nested", what, v, if es.is_empty() { Val::Groups(vec![], vec![]) } else { Val::Groups(groups(items), marks(items)) }); Ok(()) }
		3 => {
			let mut w = vec![];
			if !items.is_empty() {
				let mut cur = 9999;
				for i in items { match *i { It::E(_) => w.push(Ok(*i)), It::M(l, n) => { w.push(Err(cur)); w.push(Ok(It::M(l, 0))); cur = n; } } }
				w.push(Err(cur));
			}
			same!("nested", what, v, Val::Fins(w));
			Ok(())
		}
		4 | 5 => its(v, plus(1000)),
		6 => its(v, plus(2000)),
		7 => { same!("nested", what, v, Val::Nums(vec![es.iter().map(|e| e % 3).max()])); Ok(()) }
		8 => { same!("nested", what, v, Val::Lists((0..3).map(|k| es.iter().filter(|e| **e % 3 == k).cloned().collect()).collect())); Ok(()) }
		9 => its(v, es.iter().map(|e| It::E(*e)).collect()),
		10 => { let (mut l, r) = cut(items, 0); l.push(It::E(500)); one_of(v, legal_unfocus(&l, &r)) }
		11 => { let (mut l, mut r) = cut(items, es.len() / 2); pop(&mut l); r.push(It::E(500)); one_of(v, legal_unfocus(&l, &r)) }
		12 => { let (mut l, r) = cut(items, es.len()); pop(&mut l); one_of(v, legal_unfocus(&l, &r)) }
		13 => {
			let mut now = vec![items.to_vec()];
			for i in 0..2 { now = now.into_iter().flat_map(|t| { let (mut l, r) = cut(&t, es.len() * (i + 1) / 3); l.push(It::E(500 + i as u16)); legal_unfocus(&l, &r) }).collect(); }
			one_of(v, now)
		}
		14 => {
			let mut w = vec![Some(es.len() as u16)];
			for &i in &[0, es.len() / 2, es.len()] { w.push(if i == 0 { None } else { Some(es[i - 1]) }); w.push(es.get(i).cloned()); }
			same!("nested", what, v, Val::Nums(w));
			Ok(())
		}
		_ => {
			let m = es.iter().fold(0u16, |a, e| a.wrapping_add(*e));
			if m % 2 == 1 { same!("nested", what, v, Val::Nums(vec![Some(m)])); Ok(()) } else { its(v, items.to_vec()) }
		}
	}
}
/// How the user's function is demanded.
const HOW: [&str; 4] = ["a memoised function of the sequence", "a memoised function of a cell holding it", "a memoised function that calls a memoised function of the cell", "one memoised function of the cell computing everything"];

fn demand(how: usize, c: usize, t: &Seq, cell: &Art<Seq>) -> Val {
	let n = |s: &str| NameChoice::Nominal(name_of_string(format!("{}{}", s, c)));
	match how {
		0 => force(&thunk(n("a"), ProgPt { symbol: "a" }, Rc::new(Box::new(|(c, t): (usize, Seq), _: ()| value(c, t))), (c, t.clone()), ())),
		1 => force(&thunk(n("b"), ProgPt { symbol: "b" }, Rc::new(Box::new(|(c, t): (usize, Art<Seq>), _: ()| value(c, force(&t)))), (c, cell.clone()), ())),
		_ => force(&thunk(n("c"), ProgPt { symbol: "c" }, Rc::new(Box::new(|(c, t): (usize, Art<Seq>), _: ()| {
			let inner = thunk(NameChoice::Nominal(name_of_string(format!("inner{}", c))), ProgPt { symbol: "i" }, Rc::new(Box::new(|(c, t): (usize, Art<Seq>), _: ()| value(c, force(&t)))), (c, t), ());
			force(&inner)
		})), (c, cell.clone()), ())),
	}
}
/// all computations of the set inside one function
fn demand_all(set: u32, cell: &Art<Seq>) -> Vec<Val> {
	force(&thunk(NameChoice::Nominal(name_of_string("all".to_string())), ProgPt { symbol: "all" }, Rc::new(Box::new(|(set, t): (u32, Art<Seq>), _: ()| {
		let t = force(&t);
		(0..N).filter(|c| set >> c & 1 == 1).map(|c| value(c, t.clone())).collect::<Vec<Val>>()
	})), (set, cell.clone()), ()))
}

pub struct Nested {
	pub seeds: Vec<Vec<It>>,
	pub ways: Vec<usize>,
	pub ops: Vec<usize>,
	pub levels: Vec<u32>,
	pub how: Vec<usize>,
	pub comps: u32,
	/// also demand nothing after a round
	pub skip: bool,
	/// push an element equal to an earlier one, too
	pub equal: bool,
	/// judge which elements were looked at again instead of the results
	pub reuse: bool,
}
impl Scenario for Nested {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let how = self.how[ch.choose(self.how.len())];
		let seed = &self.seeds[ch.choose(self.seeds.len())];
		let mut t: Seq = build::<Count>(seed, self.ways[ch.choose(self.ways.len())]);
		let mut items = seed.clone();
		ch.note(|| format!("build {:?}; demand through {}", items, HOW[how]));
		let held = cell(name_of_string("held".to_string()), t.clone());
		let mut ops = vec![Op::Push(true), Op::Push(false), Op::Pop(true), Op::Pop(false)];
		for &s in &[true, false] { for &l in &self.levels { ops.push(Op::Archive(s, l, true)) } }
		if self.equal { ops.push(Op::Again(true)); ops.push(Op::Again(false)); }
		let mut last: Vec<Option<Vec<It>>> = vec![None; N];
		for round in 0..self.ops.len() + 1 {
			if round > 0 {
				let foci = distinct_foci::<Count>(&items);
				let k = foci[ch.choose(foci.len())];
				let p = Count::expect(&items, k).unwrap();
				ch.note(|| format!("{} on {:?}", Count::describe(&items, k), items));
				let mut r = match Count::focus(t, &items, k) { Some(r) => r, None => return bad("focus-refused", "focus is refused".to_string()) };
				let (mut left, mut right) = (items[..p].to_vec(), items[p..].iter().rev().cloned().collect::<Vec<_>>());
				for _ in 0..self.ops[round - 1] {
					let c = ch.choose(ops.len() + 1);
					if c == 0 { break }
					let s = apply(ops[c - 1], &mut r, &mut left, &mut right)?;
					ch.note(|| s);
				}
				t = r.unfocus();
				items = to_items(&fresh_observe(&t), MX);
				ch.note(|| format!("unfocus: {:?}", items));
				set(&held, t.clone());
			}
			if self.skip && round < self.ops.len() && ch.choose(2) == 0 { continue }
			if how == 3 {
				ch.note(|| format!("demand everything of {:?}", items));
				let vs = demand_all(self.comps, &held);
				for (c, v) in (0..N).filter(|c| self.comps >> c & 1 == 1).zip(vs) { check(c, v, &items)?; }
			} else {
				for c in 0..N {
					if self.comps >> c & 1 == 0 { continue }
					ch.note(|| format!("demand {} of {:?}", NAMES[c], items));
					calls();
					let v = demand(how, c, &t, &held);
					let done = calls();
					if !self.reuse { check(c, v, &items)?; continue }
					if let Some(ref b) = last[c] {
						let keep = reusable(c == 3, b, &items);
						if let Some(e) = done.iter().find(|e| keep.contains(e)) {
							return bad("recomputed", format!("{} of {:?} looked at element {} again although its subsequence has not changed since the run on {:?} (elements looked at: {:?})", NAMES[c], items, e, b, done));
						}
					}
					last[c] = Some(items.clone());
				}
			}
			// nothing of this has changed the sequence
			same!("content", "the sequence after the computations", to_items(&fresh_observe(&t), MX), items.clone());
			let mut f = Fp::new(); f.dbg(&items).dbg(&how).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
