//! C01-C06, C09: the focused/unfocused sequence against a list with a cursor.
//! Breadth-first over all reachable states of the real structure (non-incremental engine).
use crate::common::*;
use crate::mc::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::{Raz, RazTree};
use std::marker::PhantomData;

/// which expectations a run checks
#[derive(Clone, Copy, Default)]
pub struct Oracle {
	pub list: bool,    // C01
	pub focus: bool,   // C02
	pub meta: bool,    // C03
	pub marks: bool,   // C04
	pub canon: bool,   // C05
	pub folds: bool,   // C06
	pub persist: bool, // C09
}

#[derive(Clone)]
pub struct RazModel<K> {
	pub oracle: Oracle,
	pub max_elems: usize,
	pub max_marks: usize,
	pub levels: Vec<u32>,
	pub names: Vec<bool>, // which of {unnamed, named} archives may use
	pub bulk: usize,      // elements per push
	pub dup: bool,        // push equal elements too
	pub pops: Vec<usize>, // extra pop operations that pop many at once
	pub dcg: bool,        // run on the change-propagating engine (unnamed markers only: those stay persistent)
	pub depth: usize,
	pub joins: Vec<Vec<It>>, // sequences to join with (on either side)
	pub good_joins: bool, // only join at levels which keep the tree canonical
	pub seeds: Vec<Vec<It>>, // extra initial sequences, built several ways
	pub ways: Vec<usize>, // how to build them
	pub kind: PhantomData<fn() -> K>,
}
#[derive(Clone, Debug)]
pub enum Imp<K: Kind> { F(Raz<El, K>), T(RazTree<El, K>) }
#[derive(Clone)]
pub struct St<K: Kind> {
	pub imp: Imp<K>,
	pub left: Vec<It>,  // focused: left of the cursor, nearest last; unfocused: everything
	pub right: Vec<It>, // focused: right of the cursor, nearest last
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Op { Push(bool, u16), Pop(bool, usize), Archive(bool, u32, bool), Unfocus, Focus(usize), Join(bool, usize, u32, bool) }

impl<K: Kind> St<K> {
	pub fn items(&self) -> Vec<It> { let mut v = self.left.clone(); v.extend(self.right.iter().rev().cloned()); v }
}
fn max_name(items: &[It]) -> u16 { marks(items).iter().map(|m| m.1).filter(|&n| n != UNKNOWN).max().unwrap_or(0).max(8) }

/// What may become of the markers when unfocusing: every legal result.
pub fn legal_unfocus(left: &[It], right_rev: &[It]) -> Vec<Vec<It>> {
	let mut all: Vec<It> = left.to_vec();
	all.extend(right_rev.iter().rev().cloned());
	// markers without data on one side disappear
	let a = match all.iter().position(|i| i.is_e()) { None => return vec![vec![]], Some(a) => a };
	let b = all.iter().rposition(|i| i.is_e()).unwrap();
	let core = &all[a..b + 1];
	// of a run of adjacent markers exactly one survives
	let mut outs: Vec<Vec<It>> = vec![vec![]];
	let mut i = 0;
	while i < core.len() {
		if core[i].is_e() { for o in outs.iter_mut() { o.push(core[i]); } i += 1; continue }
		let mut j = i;
		while !core[j].is_e() { j += 1; }
		let mut next = vec![];
		for o in &outs { for k in i..j { let mut o = o.clone(); o.push(core[k]); next.push(o); } }
		outs = next;
		i = j;
	}
	outs
}

impl<K: Kind> RazModel<K> {
	/// everything that can be seen of a value
	fn look(i: &Imp<K>) -> Res<(Vec<Obs>, Option<RawShape>, Option<(Vec<u16>, Vec<u16>)>, Option<K>)> {
		match *i {
			Imp::T(ref t) => Ok((observe(t), raw_shape(t), None, Some(t.meta().clone()))),
			Imp::F(ref r) => {
				let t = r.clone().unfocus();
				Ok((observe(&t), raw_shape(&t), Some(drain(r)?), Some(t.meta().clone())))
			}
		}
	}
	fn op(&self, s: &St<K>, i: usize) -> Op {
		let v = self.op_list(s);
		v[i]
	}
	fn op_list(&self, s: &St<K>) -> Vec<Op> {
		match s.imp {
			Imp::T(_) => {
				let n = K::n_foci(&s.left);
				// long sequences: all foci would be too many; take the ends and the boundaries
				let mut v: Vec<Op> = if n <= 64 { (0..n).map(Op::Focus).collect() }
				else { interesting_foci::<K>(&s.left).into_iter().map(Op::Focus).collect() };
				for (i, j) in self.joins.iter().enumerate() {
					if elems(&s.left).len() + elems(j).len() > self.max_elems || marks(&s.left).len() + marks(j).len() + 1 > self.max_marks { continue }
					for &side in &[true, false] { for &l in &self.levels {
						let top = |v: &[It]| marks(v).iter().map(|m| m.0).max().unwrap_or(0);
						let (lt, rt) = if side { (top(j), top(&s.left)) } else { (top(&s.left), top(j)) };
						if self.good_joins && !(lt < l && rt <= l) { continue }
						for &n in &self.names { v.push(Op::Join(side, i, l, n)); }
					} }
				}
				v
			}
			Imp::F(_) => {
				let items = s.items();
				let ne = items.iter().filter(|i| i.is_e()).count();
				let nm = items.len() - ne;
				let mut v = vec![Op::Pop(true, 1), Op::Pop(false, 1), Op::Unfocus];
				for &n in &self.pops { v.push(Op::Pop(true, n)); v.push(Op::Pop(false, n)); }
				if ne + self.bulk <= self.max_elems {
					for &side in &[true, false] {
						if self.dup { v.push(Op::Push(side, 0)); v.push(Op::Push(side, 1)); }
						else { v.push(Op::Push(side, 0)); }
					}
				}
				for &side in &[true, false] {
					// also when nothing can be archived: must then change nothing
					for &l in &self.levels { for &n in &self.names {
						if nm < self.max_marks || (l == self.levels[0] && n == self.names[0] && !can_archive(if side { &s.left } else { &s.right })) {
							v.push(Op::Archive(side, l, n));
						}
					} }
				}
				v
			}
		}
	}
	fn fresh(&self, s: &St<K>) -> u16 {
		let used = elems(&s.items());
		if used.len() > 200 { return used.iter().max().unwrap() + 1 }
		(0..).find(|i| !used.contains(i)).unwrap()
	}
	fn fresh_name(&self, s: &St<K>) -> u16 {
		let used = marks(&s.items());
		(1..).find(|i| !used.iter().any(|m| m.1 == *i)).unwrap()
	}
	/// the sequence to join with, with elements and names which are not in use
	fn relabel(&self, s: &St<K>, i: usize) -> Vec<It> {
		let (ue, um) = (elems(&s.items()), marks(&s.items()));
		let mut fe = (0..).filter(|e| !ue.contains(e));
		let mut fm = (1..).filter(|n| !um.iter().any(|m| m.1 == *n));
		self.joins[i].iter().map(|i| match *i { It::E(_) => It::E(fe.next().unwrap()), It::M(l, 0) => It::M(l, 0), It::M(l, _) => It::M(l, fm.next().unwrap()) }).collect()
	}
	/// checks on a focused state
	fn check_focused(&self, r: &Raz<El, K>, left: &[It], right: &[It]) -> Res<()> {
		let el = elems(left);
		let er = elems(right);
		same!("peek_left", "peek_left", r.peek_left().map(|e| e.0), el.last().cloned());
		same!("peek_right", "peek_right", r.peek_right().map(|e| e.0), er.last().cloned());
		let (l, rr) = drain(r)?;
		same!("drain-left", "elements left of the cursor", l, el);
		same!("drain-right", "elements right of the cursor", rr, er.iter().rev().cloned().collect::<Vec<_>>());
		Ok(())
	}
	/// checks on an unfocused state; returns the items as the tree reports them
	fn check_tree(&self, t: &RazTree<El, K>, items: &[It]) -> Res<()> {
		let mx = max_name(items);
		if self.oracle.list {
			let o = to_items(&observe(t), mx);
			same!("content", "content of the sequence", elems(&o), elems(items));
			same!("is_empty", "is_empty", t.is_empty(), items.is_empty());
		}
		if self.oracle.meta { K::check_meta(t.meta(), items, &|| raw_shape(t).map(|s| to_shape(&s, mx)))?; check_mapped_meta(t, items)?; }
		if self.oracle.canon { same!("canonical", "tree structure", raw_shape(t).map(|s| to_shape(&s, mx)), canonical(items)); }
		if self.oracle.folds { check_folds(t, items, mx)?; }
		Ok(())
	}
	/// unfocus the implementation, check, and adopt what it says about markers
	fn unfocus(&self, r: Raz<El, K>, left: &[It], right: &[It], check: bool) -> Res<(RazTree<El, K>, Vec<It>)> {
		let t = r.unfocus();
		let mut all = left.to_vec();
		all.extend(right.iter().rev().cloned());
		let mx = max_name(&all);
		let got = to_items(&observe(&t), mx);
		if check {
			if self.oracle.list { same!("unfocus-content", "elements after unfocus", elems(&got), elems(&all)); }
			if self.oracle.marks {
				let legal = legal_unfocus(left, right);
				ensure!("unfocus-markers", legal.contains(&got), "after unfocusing {:?} ^ {:?} the sequence is {:?}, legal: {:?}", left, right.iter().rev().collect::<Vec<_>>(), got, legal);
				// the other marker-aware folds must tell the same
				let g = raw_shape(&t).map(|s| to_shape(&s, mx));
				let mut flat = vec![];
				if let Some(ref s) = g { flatten(s, &mut flat); }
				same!("gauged-markers", "markers seen by the gauged fold", flat, got);
			}
			self.check_tree(&t, &got)?;
		}
		Ok((t, got))
	}
}
pub fn flatten(s: &Shape, out: &mut Vec<It>) {
	match *s {
		Shape::Leaf(ref v) => out.extend(v.iter().map(|e| It::E(*e))),
		Shape::Bin(ref l, lv, n, ref r) => { flatten(l, out); out.push(It::M(lv, n)); flatten(r, out); }
	}
}
fn can_archive(side: &[It]) -> bool { match side.last() { Some(i) => i.is_e(), None => false } }
fn since_mark(side: &[It]) -> usize { side.iter().rev().take_while(|i| i.is_e()).count() }
pub fn interesting_foci<K: Kind>(items: &[It]) -> Vec<usize> {
	let n = K::n_foci(items);
	let ne = items.iter().filter(|i| i.is_e()).count();
	let mut v = vec![0, 1, 2];
	if n > ne {
		let mut c = 0;
		for i in items { if i.is_e() { c += 1 } else { v.extend(&[c - 1, c, c + 1]); } }
		v.extend(&[ne - 1, ne, ne / 2]);
		v.extend(ne + 1..n);
	} else { v.extend(0..n); }
	v.retain(|&x| x < n);
	v.sort(); v.dedup();
	v
}

/// number of ways to bracket n joins
pub fn catalan(n: usize) -> usize { (0..n).fold(1, |c, i| c * 2 * (2 * i + 1) / (i + 2)) }
/// The ways to build a given sequence of items.
pub const WAYS: usize = 6;
pub fn build<K: Kind>(items: &[It], way: usize) -> RazTree<El, K> {
	match way {
		0 => { // from the left
			let mut r = Raz::new();
			for i in items { match *i { It::E(e) => { r.push_left(El(e)); } It::M(l, n) => r.archive_left(l, nm(n)) } }
			r.unfocus()
		}
		1 => { // from the right
			let mut r = Raz::new();
			for i in items.iter().rev() { match *i { It::E(e) => { r.push_right(El(e)); } It::M(l, n) => r.archive_right(l, nm(n)) } }
			r.unfocus()
		}
		2 => { // from a stack read at its tail
			// the stack's cells and the sequence's cells would share names
			let s = in_ns("stack", || {
				let mut s: AStack<El, u32> = AStack::new();
				for i in items { match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(tree_nm(n), l); } } }
				s
			});
			in_ns("convert", || RazTree::memo_from(&AtTail(s)))
		}
		3 => { // from a stack read at its head
			// the stack's cells and the sequence's cells would share names
			let s = in_ns("stack", || {
				let mut s: AStack<El, u32> = AStack::new();
				for i in items.iter().rev() { match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(tree_nm(n), l); } } }
				s
			});
			in_ns("convert", || RazTree::memo_from(&AtHead(s)))
		}
		4 => { // joins, in canonical order
			fn go<K: Kind>(items: &[It]) -> RazTree<El, K> {
				let mut best: Option<(usize, u32, u16)> = None;
				for (i, it) in items.iter().enumerate() { if let It::M(l, n) = *it { if best.map(|b| l > b.1).unwrap_or(true) { best = Some((i, l, n)) } } }
				match best {
					None => RazTree::from_vec(elems(items).into_iter().map(El).collect()).unwrap_or_else(RazTree::empty),
					Some((i, l, n)) => RazTree::join(go(&items[..i]), l, tree_nm(n), go(&items[i + 1..])).expect("join of non-empty sequences"),
				}
			}
			go(items)
		}
		k if k >= WAYS => { // joins, bracketed in the (k - WAYS)th way, whatever the levels
			fn go<K: Kind>(items: &[It], k: usize) -> RazTree<El, K> {
				let m: Vec<usize> = (0..items.len()).filter(|i| !items[*i].is_e()).collect();
				if m.is_empty() { return RazTree::from_vec(elems(items).into_iter().map(El).collect()).unwrap_or_else(RazTree::empty) }
				if m.len() > 15 { // too many to number: combs and a balanced one
					let i = m[match k { 0 => 0, 1 => m.len() - 1, _ => m.len() / 2 }];
					return match items[i] { It::M(l, n) => RazTree::join(go(&items[..i], k), l, tree_nm(n), go(&items[i + 1..], k)).expect("join of non-empty sequences"), _ => unreachable!() }
				}
				let mut k = k % catalan(m.len());
				for (j, &i) in m.iter().enumerate() {
					let (a, b) = (catalan(j), catalan(m.len() - 1 - j));
					if k < a * b { return match items[i] { It::M(l, n) => RazTree::join(go(&items[..i], k / b), l, tree_nm(n), go(&items[i + 1..], k % b)).expect("join of non-empty sequences"), _ => unreachable!() } }
					k -= a * b;
				}
				unreachable!()
			}
			go(items, k - WAYS)
		}
		_ => { // from the middle outwards, refocusing at the ends
			let mid = items.len() / 2;
			let mut r = Raz::new();
			for i in items[..mid].iter() { match *i { It::E(e) => { r.push_left(El(e)); } It::M(l, n) => r.archive_left(l, nm(n)) } }
			for i in items[mid..].iter().rev() { match *i { It::E(e) => { r.push_right(El(e)); } It::M(l, n) => r.archive_right(l, nm(n)) } }
			r.unfocus()
		}
	}
}

impl<K: Kind> Model for RazModel<K> {
	type S = St<K>;
	fn inits(&self) -> usize { 2 + self.seeds.len() * self.ways.len() }
	fn describe_init(&self, i: usize) -> String {
		match i { 0 => "Raz::new()".to_string(), 1 => "RazTree::empty()".to_string(), i => format!("sequence {:?} built way {}", self.seeds[(i - 2) / self.ways.len()], self.ways[(i - 2) % self.ways.len()]) }
	}
	fn init(&self, i: usize) -> Res<St<K>> {
		match i {
			0 => {
				if self.oracle.focus { ensure!("ends", K::check_ends(), "the generic first() and last() positions are not both ends"); }
				Ok(St { imp: Imp::F(Raz::new()), left: vec![], right: vec![] })
			}
			1 => {
				let t = RazTree::empty();
				if self.oracle.list { ensure!("from_vec-empty", RazTree::<El, K>::from_vec(vec![]).is_none(), "from_vec of no elements gives a sequence"); }
				self.check_tree(&t, &[])?;
				Ok(St { imp: Imp::T(t), left: vec![], right: vec![] })
			}
			i => {
				let items = &self.seeds[(i - 2) / self.ways.len()];
				let t = build::<K>(items, self.ways[(i - 2) % self.ways.len()]);
				let got = to_items(&observe(&t), max_name(items));
				if self.oracle.list { same!("build-content", "elements of the sequence", elems(&got), elems(items)); }
				if self.oracle.marks { same!("build-markers", "the sequence", got, *items); }
				self.check_tree(&t, &got)?;
				Ok(St { imp: Imp::T(t), left: got, right: vec![] })
			}
		}
	}
	fn ops(&self, s: &St<K>) -> usize { self.op_list(s).len() }
	fn max_depth(&self) -> usize { self.depth }
	fn reset(&self) { if self.dcg { adapton::engine::manage::init_dcg(); } }
	fn describe(&self, s: &St<K>, op: usize) -> String {
		let o = match self.op(s, op) {
			Op::Push(l, d) => format!("push_{}({}){}", if l { "left" } else { "right" }, if self.dup { d } else { self.fresh(s) }, if self.bulk > 1 { format!(" x{}", self.bulk) } else { "".to_string() }),
			Op::Pop(l, n) => format!("pop_{}(){}", if l { "left" } else { "right" }, if n > 1 { format!(" x{}", n) } else { "".to_string() }),
			Op::Archive(l, lv, n) => format!("archive_{}({}, {})", if l { "left" } else { "right" }, lv, if n { format!("#{}", self.fresh_name(s)) } else { "None".to_string() }),
			Op::Unfocus => "unfocus()".to_string(),
			Op::Focus(k) => K::describe(&s.left, k),
			Op::Join(l, i, lv, n) => format!("join with {:?} on the {}, level {}, {}", self.relabel(s, i), if l { "left" } else { "right" }, lv, if n { "named" } else { "unnamed" }),
		};
		let items: String = if s.left.len() + s.right.len() > 60 { format!("{} items", s.left.len() + s.right.len()) } else {
			match s.imp { Imp::T(_) => format!("{:?}", s.left), Imp::F(_) => format!("{:?} ^ {:?}", s.left, s.right.iter().rev().collect::<Vec<_>>()) }
		};
		format!("{}   [before: {}]", o, items)
	}
	fn fingerprint(&self, s: &St<K>) -> u128 {
		let mut fp = Fp::new();
		fp_dbg(&mut fp, &s.imp, K::NAME == "Names");
		let hide = |v: &[It]| v.iter().map(|i| match *i { It::E(e) => It::E(if self.dup || K::LABELS { e } else { 0 }), m => m }).collect::<Vec<_>>();
		fp.dbg(&hide(&s.left)).dbg(&hide(&s.right));
		fp.end()
	}
	fn step(&self, s: &mut St<K>, op: usize, check: bool) -> Res<()> {
		let op = self.op(s, op);
		let fresh = self.fresh(s);
		let fresh_name = self.fresh_name(s);
		// C09: keep a clone and what it looks like
		let kept = if check && self.oracle.persist { let k = s.clone(); let o = Self::look(&k.imp)?; Some((k, o)) } else { None };
		match op {
			Op::Focus(k) => {
				let t = match s.imp { Imp::T(ref t) => t.clone(), _ => unreachable!() };
				let items = s.left.clone();
				match K::expect(&items, k) {
					None => {
						if check && self.oracle.focus {
							// refused: no result, or the documented panic of a single subsequence
							if let Ok(Some(r)) = no_panic(|| K::focus(t.clone(), &items, k)) {
								let d = drain(&r)?;
								return bad("focus-not-refused", format!("{} on {:?} lands at {:?}", K::describe(&items, k), items, d));
							}
							same!("focus-refused-content", "content after a refused focus", to_items(&observe(&t), max_name(&items)), items);
						}
						return Ok(()) // state unchanged
					}
					Some(p) => {
						let r = match K::focus(t.clone(), &items, k) {
							Some(r) => r,
							None => return bad("focus-refused", format!("{} on {:?} is refused", K::describe(&items, k), items)),
						};
						let left = items[..p].to_vec();
						let mut right = items[p..].to_vec();
						right.reverse();
						if check && (self.oracle.focus || self.oracle.list) {
							self.check_focused(&r, &left, &right)?;
							if self.oracle.focus {
								same!("focus-changed-content", "the sequence after focusing", to_items(&observe(&t), max_name(&items)), items);
								// the cursor's side of a marker that lies exactly here
								let mut p = r.clone();
								p.push_left(El(7777));
								let got = to_items(&observe(&p.unfocus()), max_name(&items));
								let mut want = left.clone();
								want.push(It::E(7777));
								want.extend(right.iter().rev().cloned());
								same!("focus-position", "the sequence after inserting at the focus", got, want);
							}
						}
						s.imp = Imp::F(r);
						s.left = left;
						s.right = right;
					}
				}
			}
			Op::Join(side, i, lv, named) => {
				let t = match s.imp { Imp::T(ref t) => t.clone(), _ => unreachable!() };
				let other = self.relabel(s, i);
				let mut all = s.left.clone(); all.extend(other.iter().cloned());
				let n = if named { let used = marks(&all); (1..).find(|i| !used.iter().any(|m| m.1 == *i)).unwrap() } else { 0 };
				let o = build::<K>(&other, 4);
				let (l, r, li, ri) = if side { (o, t, other, s.left.clone()) } else { (t, o, s.left.clone(), other) };
				let j = RazTree::join(l.clone(), lv, tree_nm(n), r.clone());
				let refused = li.is_empty() || ri.is_empty();
				if check { ensure!("join-refused", j.is_none() == refused, "join of {:?} and {:?}: {}", li, ri, if refused { "must be refused" } else { "is refused" }); }
				if let Some(j) = j {
					let mut want = li.clone(); want.push(It::M(lv, n)); want.extend(ri.iter().cloned());
					let mx = max_name(&want);
					if check {
						same!("join-content", "the joined sequence", to_items(&observe(&j), mx), want);
						self.check_tree(&j, &want)?;
						if self.oracle.persist || self.oracle.list {
							same!("join-left", "the left sequence after joining", to_items(&observe(&l), mx), li);
							same!("join-right", "the right sequence after joining", to_items(&observe(&r), mx), ri);
						}
					}
					s.imp = Imp::T(j);
					s.left = want;
				}
			}
			Op::Unfocus => {
				let (l, r) = (s.left.clone(), s.right.clone());
				let raz = match s.imp { Imp::F(ref r) => r.clone(), _ => unreachable!() };
				let (t, items) = self.unfocus(raz, &l, &r, check)?;
				s.imp = Imp::T(t);
				s.left = items;
				s.right = vec![];
			}
			Op::Push(side, d) => {
				let v = if self.dup { d } else { fresh };
				let (raz, list) = match s.imp { Imp::F(ref mut r) => (r, if side { &mut s.left } else { &mut s.right }), _ => unreachable!() };
				for b in 0..self.bulk as u16 {
					let e = v + b;
					let n = if side { raz.push_left(El(e)) } else { raz.push_right(El(e)) };
					list.push(It::E(e));
					if check && self.oracle.list { same!("push-count", "number of non-archived elements reported by push", n, since_mark(list)); }
				}
			}
			Op::Pop(side, times) => {
				let (raz, list) = match s.imp { Imp::F(ref mut r) => (r, if side { &mut s.left } else { &mut s.right }), _ => unreachable!() };
				for _ in 0..times {
					let want = match list.iter().rposition(|i| i.is_e()) {
						None => None,
						Some(p) => { let e = list[p]; list.truncate(p); match e { It::E(e) => Some(e), _ => unreachable!() } }
					};
					let got = if side { raz.pop_left() } else { raz.pop_right() };
					if check && self.oracle.list { same!("pop", if side { "pop_left" } else { "pop_right" }, got.map(|e| e.0), want); }
				}
			}
			Op::Archive(side, lv, named) => {
				let n = if named { fresh_name } else { 0 };
				let (raz, list) = match s.imp { Imp::F(ref mut r) => (r, if side { &mut s.left } else { &mut s.right }), _ => unreachable!() };
				if side { raz.archive_left(lv, nm(n)) } else { raz.archive_right(lv, nm(n)) }
				if can_archive(list) { list.push(It::M(lv, n)); }
			}
		}
		if check {
			if let Imp::F(ref r) = s.imp {
				if self.oracle.list { match op { Op::Focus(_) => {}, _ => self.check_focused(r, &s.left, &s.right)? } }
			}
			if let Some((k, before)) = kept {
				// the operation ran on structures shared with `k`: nothing of `k` may have changed,
				// now or after the copy was edited further and computed with
				same!("original-changed", "the original after an operation on its clone", Self::look(&k.imp)?, before);
				let mut c = s.imp.clone();
				for _ in 0..2 {
					c = match c {
						Imp::F(mut r) => { r.push_left(El(8000)); r.archive_left(2, None); r.push_right(El(8001)); r.pop_left(); r.pop_right(); r.pop_right(); Imp::T(r.unfocus()) }
						Imp::T(t) => Imp::F(t.focus_left()),
					};
				}
				drop(c);
				same!("original-changed", "the original after editing its clone further", Self::look(&k.imp)?, before);
			}
		}
		Ok(())
	}
}

/// All item sequences: `groups` non-empty groups with sizes 1..=max_size, all level assignments,
/// names on all markers / no markers / alternating.
pub fn all_seqs(groups: std::ops::RangeInclusive<usize>, max_size: usize, levels: &[u32], naming: &[u8]) -> Vec<Vec<It>> {
	let mut out = vec![];
	for g in groups {
		let mut sizes = vec![1; g];
		loop {
			let mut lv = vec![0usize; g.max(1) - 1];
			loop {
				for &nmode in naming {
					let mut v = vec![];
					let mut e = 0;
					for i in 0..g {
						for _ in 0..sizes[i] { v.push(It::E(e)); e += 1; }
						if i + 1 < g {
							let n = match nmode { 0 => 0, 1 => i as u16 + 1, _ => if i % 2 == 0 { i as u16 + 1 } else { 0 } };
							v.push(It::M(levels[lv[i]], n));
						}
					}
					out.push(v);
				}
				if !inc(&mut lv, levels.len(), 0) { break }
			}
			if g == 0 || !inc(&mut sizes, max_size + 1, 1) { break }
		}
	}
	out.dedup();
	out
}
pub fn inc(v: &mut [usize], base: usize, lo: usize) -> bool {
	for x in v.iter_mut() {
		*x += 1;
		if *x < base { return true }
		*x = lo;
	}
	false
}
/// Deep trees: one element per group, n groups, a level function.
pub fn spine(n: usize, f: &dyn Fn(usize) -> u32, named: bool) -> Vec<It> {
	let mut v = vec![];
	for i in 0..n {
		v.push(It::E(i as u16));
		if i + 1 < n { v.push(It::M(f(i), if named { i as u16 + 1 } else { 0 })); }
	}
	v
}
