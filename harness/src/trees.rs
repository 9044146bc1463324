//! C13 tree cursor, C14 level-tree computations, C05 the level-consistency helper.
use crate::common::{id_of_name, in_ns, nm};
use crate::mc::*;
use adapton::engine::*;
use iodyn::level_tree::{good_levels, Tree};
use iodyn::tree_cursor::{Cursor, DeriveTreeUpdate, Force, TreeUpdate, UpResult};
use std::fmt;
use std::rc::Rc;
use std::sync::Arc;

/// Data of a node: who it is and the sizes of its branches, as `rebuild` must compute them.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct D { pub id: u16, pub l: u32, pub r: u32 }
impl TreeUpdate for D {
	fn rebuild(l: Option<&Self>, old: &Self, _level: u32, _name: Option<Name>, r: Option<&Self>) -> Self {
		let sz = |d: Option<&D>| d.map(|d| 1 + d.l + d.r).unwrap_or(0);
		D { id: old.id, l: sz(l), r: sz(r) }
	}
}

/// The reference: plain immutable trees.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct N { pub id: u16, pub level: u32, pub name: u16, pub l: T, pub r: T }
pub type T = Option<Arc<N>>;
impl fmt::Debug for N {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "(")?;
		if let Some(ref l) = self.l { write!(f, "{:?} ", l)?; }
		write!(f, "{}@{}{}", self.id, self.level, if self.name == 0 { "".to_string() } else { format!("#{}", self.name) })?;
		if let Some(ref r) = self.r { write!(f, " {:?}", r)?; }
		write!(f, ")")
	}
}
fn size(t: &T) -> u32 { t.as_ref().map(|n| 1 + size(&n.l) + size(&n.r)).unwrap_or(0) }
fn flat(t: &T, out: &mut Vec<Arc<N>>) { if let Some(ref n) = *t { flat(&n.l, out); out.push(n.clone()); flat(&n.r, out); } }
fn ids(t: &T) -> Vec<u16> { let mut v = vec![]; flat(t, &mut v); v.iter().map(|n| n.id).collect() }
/// The canonical tree of a list of (id, level, name): root = leftmost of the highest level.
pub fn canon(v: &[(u16, u32, u16)]) -> T {
	let mut best: Option<usize> = None;
	for i in 0..v.len() { if best.map(|b| v[i].1 > v[b].1).unwrap_or(true) { best = Some(i) } }
	best.map(|i| Arc::new(N { id: v[i].0, level: v[i].1, name: v[i].2, l: canon(&v[..i]), r: canon(&v[i + 1..]) }))
}
fn nodes(t: &T) -> Vec<(u16, u32, u16)> { let mut v = vec![]; flat(t, &mut v); v.iter().map(|n| (n.id, n.level, n.name)).collect() }
pub fn to_imp(t: &T) -> Option<Tree<D>> {
	t.as_ref().map(|n| Tree::new(n.level, nm(n.name), D { id: n.id, l: size(&n.l), r: size(&n.r) }, to_imp(&n.l), to_imp(&n.r)).unwrap())
}
fn name_id(n: &Option<Name>) -> u16 { id_of_name(n) }
/// read an implementation tree back through its public accessors; Err: inconsistent data
pub fn read(t: &Option<Tree<D>>, fuel: u32) -> Result<T, String> {
	match *t {
		None => Ok(None),
		Some(ref t) => {
			if fuel == 0 { return Err("the tree does not end".to_string()) }
			let (l, r) = (read(&t.l_tree(), fuel - 1)?, read(&t.r_tree(), fuel - 1)?);
			let d = t.peek();
			if d.l != size(&l) || d.r != size(&r) { return Err(format!("node {} stores branch sizes {},{} but its branches have {},{} nodes", d.id, d.l, d.r, size(&l), size(&r))) }
			Ok(Some(Arc::new(N { id: d.id, level: t.level(), name: name_id(&t.name()), l: l, r: r })))
		}
	}
}
fn read_(key: &str, t: &Option<Tree<D>>) -> Res<T> { match read(t, 400) { Ok(t) => Ok(t), Err(m) => bad(key, m) } }

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug)]
pub struct MCur {
	/// from the root: (are we in the right branch?, the node, may we go back by discarding?)
	path: Vec<(bool, Arc<N>, bool)>,
	cur: T,
	/// nothing was discarded, split off or joined: what the ancestors store is up to date
	clean: bool,
}
impl MCur {
	fn up(&mut self) -> Option<bool> {
		self.path.pop().map(|(right, n, _)| {
			let mut m = (*n).clone();
			if right { m.r = self.cur.take() } else { m.l = self.cur.take() }
			self.cur = Some(Arc::new(m));
			right
		})
	}
	fn full(&self) -> T { let mut c = self.clone(); while c.up().is_some() {} c.cur }
	fn right_of(&self) -> Vec<u16> { self.data_right_of().iter().map(|d| d.id).collect() }
	fn data_right_of(&self) -> Vec<D> {
		let d = |n: &N| D { id: n.id, l: size(&n.l), r: size(&n.r) };
		let of = |t: &T| { let mut v = vec![]; flat(t, &mut v); v.iter().map(|n| d(n)).collect::<Vec<_>>() };
		let mut v = match self.cur { None => vec![], Some(ref n) => of(&n.r) };
		for &(right, ref n, _) in self.path.iter().rev() { if !right { v.push(d(n)); v.extend(of(&n.r)); } }
		v
	}
}
#[derive(Clone)]
pub struct CurS { imp: Vec<Cursor<D>>, m: Vec<MCur>, mid: Option<(u16, u32, u16)> }
#[derive(Clone, Copy, PartialEq)]
enum COp { Run(usize, u8), Down(usize, bool, Force), Up(usize), UpDiscard(usize), Split, JoinMid(bool), Join(bool, u32, bool), Restart, Drop(usize) }
pub struct CursorModel { pub max_nodes: usize, pub inits: Vec<(Vec<(u16, u32, u16)>, Option<Vec<(u16, u32, u16)>>)>, pub levels: Vec<u32>, pub depth: usize, pub persist: bool, pub dcg: bool, pub named_joins: bool, /// moves of many steps, too
	pub runs: bool }
pub fn level_lists(n: usize, levels: &[u32], named: u8, base: u16) -> Vec<Vec<(u16, u32, u16)>> {
	let mut out = vec![];
	let mut ix = vec![0; n];
	loop {
		out.push((0..n).map(|i| { let id = base + i as u16; (id, levels[ix[i]], match named { 0 => 0, 1 => id + 1, _ => if i % 2 == 0 { id + 1 } else { 0 } }) }).collect());
		if !crate::raz_model::inc(&mut ix, levels.len(), 0) { break }
	}
	out
}
/// single trees up to n nodes, and pairs with up to p nodes in total
pub fn cursor_inits(n: usize, p: usize, levels: &[u32], named: u8) -> Vec<(Vec<(u16, u32, u16)>, Option<Vec<(u16, u32, u16)>>)> {
	let mut v = vec![];
	for k in 1..n + 1 { for l in level_lists(k, levels, named, 0) { v.push((l, None)); } }
	for a in 0..p + 1 { for b in 0..p + 1 - a {
		for x in level_lists(a, levels, named, 0) { for y in level_lists(b, levels, named, a as u16) { v.push((x.clone(), Some(y))); } }
	} }
	v
}
impl CursorModel {
	fn total(&self, s: &CurS) -> usize { s.m.iter().map(|m| size(&m.full()) as usize).sum::<usize>() }
	fn list(&self, s: &CurS) -> Vec<COp> {
		let mut v = vec![];
		for i in 0..s.m.len() {
			for &side in &[false, true] { for &f in if self.runs { &[Force::No, Force::Discard][..] } else { &[Force::No, Force::Yes, Force::Discard][..] } { v.push(COp::Down(i, side, f)); } }
			v.push(COp::Up(i));
			if s.m[i].path.last().map(|p| p.2).unwrap_or(true) { v.push(COp::UpDiscard(i)); }
			if self.runs { for k in 0..6 { if k < 5 || s.m[i].path.iter().all(|p| p.2) { v.push(COp::Run(i, k)); } } }
		}
		if s.m.len() == 1 { v.push(COp::Split); v.push(COp::Restart); }
		else {
			v.push(COp::Drop(0)); v.push(COp::Drop(1));
			for &o in &[false, true] {
				if s.mid.is_some() { v.push(COp::JoinMid(o)); }
				if self.total(s) < self.max_nodes { for &l in &self.levels { v.push(COp::Join(o, l, self.named_joins)); } }
			}
		}
		v
	}
	fn fresh(&self, s: &CurS) -> u16 {
		let mut used: Vec<u16> = vec![];
		for m in &s.m { used.extend(ids(&m.full())); for p in &m.path { used.extend(ids(&Some(p.1.clone()))); } }
		if let Some(m) = s.mid { used.push(m.0); }
		(0..).find(|i| !used.contains(i)).unwrap()
	}
	fn check(&self, c: &Cursor<D>, m: &MCur) -> Res<()> {
		same!("peek", "peek", c.peek().map(|d| d.id), m.cur.as_ref().map(|n| n.id));
		same!("peek_level", "peek_level", c.peek_level(), m.cur.as_ref().map(|n| n.level));
		same!("peek_name", "peek_name", name_id(&c.peek_name()), m.cur.as_ref().map(|n| n.name).unwrap_or(0));
		same!("at_tree", "at_tree", read_("at_tree", &c.at_tree())?, m.cur);
		same!("left_tree", "left_tree", read_("left_tree", &c.left_tree())?, m.cur.as_ref().and_then(|n| n.l.clone()));
		same!("right_tree", "right_tree", read_("right_tree", &c.right_tree())?, m.cur.as_ref().and_then(|n| n.r.clone()));
		// back to the root, rebuilding
		let (mut c2, mut m2) = (c.clone(), m.clone());
		for _ in 0..400 {
			let d = match c2.up() { UpResult::Fail => None, UpResult::Left => Some(true), UpResult::Right => Some(false) };
			same!("up-direction", "direction of up", d, m2.up());
			same!("up-tree", "the tree after up", read_("up-tree", &c2.at_tree())?, m2.cur);
			if d.is_none() { break }
		}
		same!("up-tree", "the whole tree", m2.path.len(), 0);
		// ... and discarding: passes the same ancestors
		let mut c3 = c.clone();
		let mut seen = vec![];
		for _ in 0..400 {
			match c3.up_discard() { UpResult::Fail => break, UpResult::Left => seen.push((true, c3.peek().map(|d| d.id))), UpResult::Right => seen.push((false, c3.peek().map(|d| d.id))) }
		}
		same!("up_discard-path", "ancestors passed by up_discard", seen, m.path.iter().rev().map(|p| (p.0, Some(p.1.id))).collect::<Vec<_>>());
		// iteration to the right
		let want = m.right_of();
		let (_, t, it) = c.clone().into_iters();
		same!("into_iters-tree", "the tree returned by into_iters", read_("into_iters-tree", &t)?, m.cur);
		let got: Vec<u16> = it.clone().take(1000).map(|d| d.id).collect();
		same!("iter", "nodes right of the cursor", got, want);
		if m.clean { same!("iter-data", "data of the nodes right of the cursor", it.clone().take(1000).collect::<Vec<D>>(), m.data_right_of()); }
		same!("fold_out", "fold over the nodes right of the cursor", it.fold_out(vec![], Rc::new(|mut v: Vec<u16>, d: D| { v.push(d.id); v })), want);
		Ok(())
	}
	/// one step of a cursor; whether it moved
	fn walk(&self, s: &mut CurS, op: COp) -> Res<bool> {
		match op {
			COp::Down(i, side, force) => {
				let m = &mut s.m[i];
				let want = match m.cur.clone() {
					None => false,
					Some(n) => {
						let b = if side { n.r.clone() } else { n.l.clone() };
						if b.is_none() && force == Force::No { false } else {
							m.cur = b;
							if force != Force::Discard { m.path.push((side, n, true)); } else { m.clean = false; }
							true
						}
					}
				};
				let c = &mut s.imp[i];
				let got = match (side, force) {
					(false, Force::No) => c.down_left(), (true, Force::No) => c.down_right(),
					(false, f) => c.down_left_force(f), (true, f) => c.down_right_force(f),
				};
				same!("down", "success of the move down", got, want);
				Ok(got)
			}
			COp::Up(i) => {
				let want = s.m[i].up();
				let got = match s.imp[i].up() { UpResult::Fail => None, UpResult::Left => Some(true), UpResult::Right => Some(false) };
				same!("up-direction", "direction of up", got, want);
				Ok(got.is_some())
			}
			COp::UpDiscard(i) => {
				let want = s.m[i].path.pop().map(|(right, n, _)| { s.m[i].cur = Some(n); right });
				let got = match s.imp[i].up_discard() { UpResult::Fail => None, UpResult::Left => Some(true), UpResult::Right => Some(false) };
				same!("up-direction", "direction of up_discard", got, want);
				Ok(got.is_some())
			}
			_ => unreachable!(),
		}
	}
	fn look(&self, c: &Cursor<D>) -> Res<(T, T, Vec<u16>)> {
		let mut c2 = c.clone();
		for _ in 0..400 { if c2.up() == UpResult::Fail { break } }
		let (_, _, it) = c.clone().into_iters();
		Ok((read_("at_tree", &c.at_tree())?, read_("at_tree", &c2.at_tree())?, it.take(1000).map(|d| d.id).collect()))
	}
}
impl Model for CursorModel {
	type S = CurS;
	fn inits(&self) -> usize { 2 + self.inits.len() }
	fn reset(&self) { if self.dcg { manage::init_dcg(); } }
	fn max_depth(&self) -> usize { self.depth }
	fn describe_init(&self, i: usize) -> String {
		if i < 2 { return ["Cursor::new()", "Cursor::with_depth(3)"][i].to_string() }
		let (ref a, ref b) = self.inits[i - 2];
		format!("cursor at the root of {:?}{}", canon(a), match *b { None => "".to_string(), Some(ref b) => format!(" and another at the root of {:?}", canon(b)) })
	}
	fn init(&self, i: usize) -> Res<CurS> {
		let mk = |v: &[(u16, u32, u16)]| {
			let t = canon(v);
			(match to_imp(&t) { None => Cursor::new(), Some(t) => Cursor::from(t) }, MCur { path: vec![], cur: t, clean: true })
		};
		let s = if i < 2 {
			CurS { imp: vec![if i == 0 { Cursor::new() } else { Cursor::with_depth(3) }], m: vec![MCur { path: vec![], cur: None, clean: true }], mid: None }
		} else {
			let (ref a, ref b) = self.inits[i - 2];
			let (c, m) = mk(a);
			let mut s = CurS { imp: vec![c], m: vec![m], mid: None };
			if let Some(ref b) = *b { let (c, m) = mk(b); s.imp.push(c); s.m.push(m); }
			s
		};
		for k in 0..s.m.len() { self.check(&s.imp[k], &s.m[k])?; }
		Ok(s)
	}
	fn ops(&self, s: &CurS) -> usize { self.list(s).len() }
	fn describe(&self, s: &CurS, op: usize) -> String {
		let f = |f: Force| match f { Force::No => "No", Force::Yes => "Yes", Force::Discard => "Discard" };
		let o = match self.list(s)[op] {
			COp::Down(i, side, fo) => format!("c{}.down_{}({})", i, if side { "right" } else { "left" }, f(fo)),
			COp::Run(i, k) => format!("c{}: {}", i, ["down_left() until refused", "down_right() until refused", "down_left(), down_right() by turns until refused", "up() until it fails", "up() to half the depth", "up_discard() until it fails"][k as usize]),
			COp::Up(i) => format!("c{}.up()", i), COp::UpDiscard(i) => format!("c{}.up_discard()", i),
			COp::Split => "split()".to_string(),
			COp::JoinMid(o) => format!("join({}, the node split out)", if o { "c1, c0" } else { "c0, c1" }),
			COp::Join(o, l, n) => format!("join({}, level {}, {} node {})", if o { "c1, c0" } else { "c0, c1" }, l, if n { "named" } else { "unnamed" }, self.fresh(s)),
			COp::Restart => "new cursor at at_tree()".to_string(),
			COp::Drop(i) => format!("drop c{}", i),
		};
		format!("{}   [before: {}]", o, s.m.iter().map(|m| format!("in {:?} at {:?}", m.full(), m.cur)).collect::<Vec<_>>().join(" and "))
	}
	fn fingerprint(&self, s: &CurS) -> u128 { let mut fp = Fp::new(); fp.dbg(&s.imp).dbg(&s.m).dbg(&s.mid); fp.end() }
	fn step(&self, s: &mut CurS, op: usize, check: bool) -> Res<()> {
		let op = self.list(s)[op];
		let kept = if check && self.persist { let mut o = vec![]; for c in &s.imp { o.push(self.look(c)?); } Some((s.imp.clone(), o)) } else { None };
		match op {
			COp::Down(..) | COp::Up(_) | COp::UpDiscard(_) => { self.walk(s, op)?; }
			COp::Run(i, k) => {
				let half = s.m[i].path.len() / 2;
				for turn in 0..1000 {
					let go = match k {
						0 => COp::Down(i, false, Force::No), 1 => COp::Down(i, true, Force::No), 2 => COp::Down(i, turn % 2 == 1, Force::No),
						4 if s.m[i].path.len() <= half => break,
						5 => COp::UpDiscard(i), _ => COp::Up(i),
					};
					if !self.walk(s, go)? { break }
				}
			}
			COp::Split => {
				let m = s.m.remove(0);
				let (l, t, r) = s.imp.remove(0).split();
				same!("split-tree", "the tree returned by split", read_("split-tree", &t)?, m.cur);
				// going back by discarding would also discard the split: not specified
				let side = |right: bool| m.path.iter().filter(|p| p.0 == right).map(|p| (p.0, p.1.clone(), false)).collect::<Vec<_>>();
				s.m = vec![
					MCur { path: side(true), cur: m.cur.as_ref().and_then(|n| n.l.clone()), clean: false },
					MCur { path: side(false), cur: m.cur.as_ref().and_then(|n| n.r.clone()), clean: false },
				];
				s.imp = vec![l, r];
				s.mid = m.cur.as_ref().map(|n| (n.id, n.level, n.name));
			}
			COp::JoinMid(_) | COp::Join(..) => {
				let (swap, (id, level, name)) = match op {
					COp::JoinMid(o) => (o, s.mid.unwrap()),
					COp::Join(o, l, n) => (o, { let f = self.fresh(s); (f, l, if n { f + 1 } else { 0 }) }),
					_ => unreachable!(),
				};
				if swap { s.m.swap(0, 1); s.imp.swap(0, 1); }
				let (r, l) = (s.imp.pop().unwrap(), s.imp.pop().unwrap());
				let mut v = nodes(&s.m[0].full());
				let at = v.len();
				v.push((id, level, name));
				v.extend(nodes(&s.m[1].full()));
				// the canonical tree, with the cursor on the new node
				let mut path = vec![];
				let mut cur = canon(&v);
				let mut lo = 0;
				loop {
					let n = cur.clone().unwrap();
					let p = lo + size(&n.l) as usize;
					if p == at { break }
					if at < p { path.push((false, n.clone(), false)); cur = n.l.clone(); }
					else { path.push((true, n.clone(), false)); cur = n.r.clone(); lo = p + 1; }
				}
				s.imp = vec![Cursor::join(l, level, nm(name), D { id: id, l: 77, r: 77 }, r)];
				s.m = vec![MCur { path: path, cur: cur, clean: false }];
				s.mid = None;
			}
			COp::Restart => {
				s.m = vec![MCur { path: vec![], cur: s.m[0].cur.clone(), clean: true }];
				s.imp = vec![match s.imp[0].at_tree() { None => Cursor::new(), Some(t) => Cursor::from(t) }];
			}
			COp::Drop(i) => { s.imp.remove(i); s.m.remove(i); s.mid = None; }
		}
		if check {
			if let Some((k, before)) = kept {
				for (c, b) in k.iter().zip(before.iter()) { same!("original-changed", "the original cursor after operations on its clone", self.look(c)?, *b); }
			} else { for i in 0..s.m.len() { self.check(&s.imp[i], &s.m[i])?; } }
		}
		Ok(())
	}
}

/// Data that does not depend on the branches, by the derived implementation of `TreeUpdate`: all
/// short walks over all small trees.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct P(pub u16);
impl DeriveTreeUpdate for P {}
pub struct Derived { pub trees: Vec<T>, pub moves: usize }
fn to_derived(t: &T) -> Option<Tree<P>> { t.as_ref().map(|n| Tree::new(n.level, nm(n.name), P(n.id), to_derived(&n.l), to_derived(&n.r)).unwrap()) }
fn read_derived(t: &Option<Tree<P>>) -> T { t.as_ref().map(|t| Arc::new(N { id: t.peek().0, level: t.level(), name: name_id(&t.name()), l: read_derived(&t.l_tree()), r: read_derived(&t.r_tree()) })) }
impl Model for Derived {
	type S = (usize, Vec<u8>);
	fn inits(&self) -> usize { self.trees.len() }
	fn max_depth(&self) -> usize { self.moves }
	fn describe_init(&self, i: usize) -> String { format!("cursor at the root of {:?}, data with derived updates", self.trees[i]) }
	fn init(&self, i: usize) -> Res<Self::S> { Ok((i, vec![])) }
	fn ops(&self, _: &Self::S) -> usize { 5 }
	fn describe(&self, _: &Self::S, op: usize) -> String { ["down_left()", "down_right()", "up()", "down_left_force(Yes)", "down_right_force(Yes)"][op].to_string() }
	fn fingerprint(&self, s: &Self::S) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
	fn step(&self, s: &mut Self::S, op: usize, check: bool) -> Res<()> {
		s.1.push(op as u8);
		if !check { return Ok(()) }
		let t = &self.trees[s.0];
		let mut c = Cursor::from(to_derived(t).unwrap());
		let mut m = MCur { path: vec![], cur: t.clone(), clean: true };
		for &o in &s.1 {
			match o {
				2 => { let want = m.up(); let got = match c.up() { UpResult::Fail => None, UpResult::Left => Some(true), UpResult::Right => Some(false) }; same!("up-direction", "direction of up", got, want); }
				_ => {
					let right = o % 3 == 1;
					let n = m.cur.clone();
					let b = n.as_ref().and_then(|n| if right { n.r.clone() } else { n.l.clone() });
					let ok = n.is_some() && (o > 2 || b.is_some());
					if ok { m.path.push((right, n.unwrap(), true)); m.cur = b; }
					let got = match (o > 2, right) { (false, false) => c.down_left(), (false, true) => c.down_right(), (true, false) => c.down_left_force(Force::Yes), (true, true) => c.down_right_force(Force::Yes) };
					same!("down", "success of the move down", got, ok);
				}
			}
			same!("at_tree", "at_tree", read_derived(&c.at_tree()), m.cur);
		}
		while m.up().is_some() {}
		for _ in 0..400 { if c.up() == UpResult::Fail { break } }
		same!("up-tree", "the whole tree", read_derived(&c.at_tree()), m.cur);
		Ok(())
	}
}

// ---------------------------------------------------------------- all shapes

/// all binary tree shapes with nodes numbered in order from `base`
pub fn shapes(n: usize, base: u16) -> Vec<T> {
	if n == 0 { return vec![None] }
	let mut out = vec![];
	for l in 0..n {
		for a in shapes(l, base) { for b in shapes(n - 1 - l, base + l as u16 + 1) {
			out.push(Some(Arc::new(N { id: base + l as u16, level: 0, name: 0, l: a.clone(), r: b })));
		} }
	}
	out
}
pub fn relabel(t: &T, f: &dyn Fn(u16) -> (u16, u32, u16)) -> T {
	t.as_ref().map(|n| { let (id, lv, nm) = f(n.id); Arc::new(N { id: id, level: lv, name: nm, l: relabel(&n.l, f), r: relabel(&n.r, f) }) })
}

/// C05: the helper accepts exactly the canonical trees.
pub struct GoodLevels { pub trees: Vec<T> }
impl Model for GoodLevels {
	type S = u32;
	fn inits(&self) -> usize { self.trees.len() }
	fn describe_init(&self, i: usize) -> String { format!("{:?}", self.trees[i]) }
	fn init(&self, i: usize) -> Res<u32> {
		let t = &self.trees[i];
		let want = canon(&nodes(t)) == *t;
		let imp = to_imp(t).unwrap();
		same!("good_levels", format!("good_levels of {:?}", t), good_levels(&imp), want);
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
pub fn leveled(max: usize, levels: &[u32]) -> Vec<T> {
	let mut out = vec![];
	for n in 1..max + 1 { for sh in shapes(n, 0) { for l in level_lists(n, levels, 0, 0) {
		out.push(relabel(&sh, &|id| (id, l[id as usize].1, 0)));
	} } }
	out
}

// ---------------------------------------------------------------- C14

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term { Node(Option<Box<Term>>, u16, u32, u16, Option<Box<Term>>) }
fn term(t: &T) -> Term { let n = t.as_ref().unwrap(); Term::Node(n.l.as_ref().map(|_| Box::new(term(&n.l))), n.id, n.level, n.name, n.r.as_ref().map(|_| Box::new(term(&n.r)))) }
fn lr(t: &T, start: u16, out: &mut Vec<(u16, u32, u16)>) {
	let n = t.as_ref().unwrap();
	if n.l.is_none() && n.r.is_none() { out.push((n.id, n.level, start)); return }
	if n.l.is_some() { lr(&n.l, start, out); }
	out.push((n.id, n.level, n.name));
	if n.r.is_some() { lr(&n.r, n.name, out); }
}
const START: u16 = 50;
/// run every computation on the tree and compare; `which` selects a subset (bits)
pub fn check_comps(t: &T, imp: &Tree<D>, which: u32) -> Res<()> {
	if which & 1 != 0 {
		let r = in_ns("fold_up_meta", || imp.clone().fold_up_meta(Rc::new(|l: Option<Term>, d: D, lv: u32, n: Option<Name>, r: Option<Term>| Term::Node(l.map(Box::new), d.id, lv, name_id(&n), r.map(Box::new)))));
		same!("fold_up_meta", "fold_up_meta", r, term(t));
	}
	if which & 2 != 0 {
		let r = in_ns("fold_up", || imp.clone().fold_up(Rc::new(|l: Option<Vec<u16>>, d: D, r: Option<Vec<u16>>| { let mut v = vec![1000]; v.extend(l.unwrap_or(vec![])); v.push(d.id); v.extend(r.unwrap_or(vec![])); v.push(1001); v })));
		fn go(t: &T) -> Vec<u16> { match *t { None => vec![], Some(ref n) => { let mut v = vec![1000]; v.extend(go(&n.l)); v.push(n.id); v.extend(go(&n.r)); v.push(1001); v } } }
		same!("fold_up", "fold_up", r, go(t));
	}
	if which & 4 != 0 {
		let r = in_ns("fold_lr", || imp.clone().fold_lr(vec![9999], Rc::new(|mut a: Vec<u16>, d: D| { a.push(d.id); a })));
		let mut w = vec![9999]; w.extend(ids(t));
		same!("fold_lr", "fold_lr", r, w);
	}
	if which & 8 != 0 {
		for &start in &[0, START] {
			let r = in_ns(if start == 0 { "fold_lr_meta" } else { "fold_lr_meta_start" }, || imp.clone().fold_lr_meta(nm(start), vec![], Rc::new(|mut a: Vec<(u16, u32, u16)>, d: D, lv: u32, n: Option<Name>| { a.push((d.id, lv, name_id(&n))); a })));
			let mut w = vec![];
			lr(t, start, &mut w);
			same!("fold_lr_meta", format!("fold_lr_meta from start name {}", start), r, w);
		}
	}
	if which & 16 != 0 {
		// the mapping sees the mapped branches
		let m = in_ns("map", || imp.clone().map(Rc::new(|d: D, lv: u32, n: Option<Name>, l: Option<&Tree<D>>, r: Option<&Tree<D>>| {
			let sz = |t: Option<&Tree<D>>| t.map(|t| { let d = t.peek(); 1 + d.l + d.r }).unwrap_or(0);
			D { id: d.id * 100 + lv as u16 * 10 + name_id(&n), l: sz(l), r: sz(r) }
		})));
		let want = { fn go(t: &T) -> T { t.as_ref().map(|n| Arc::new(N { id: n.id * 100 + n.level as u16 * 10 + n.name, level: n.level, name: n.name, l: go(&n.l), r: go(&n.r) })) } go(t) };
		same!("map", "the mapped tree", read_("map", &Some(m.clone()))?, want);
		if which & 32 != 0 {
			let r = in_ns("fold_up_mapped", || m.clone().fold_up(Rc::new(|l: Option<Vec<u16>>, d: D, r: Option<Vec<u16>>| { let mut v = l.unwrap_or(vec![]); v.push(d.id); v.extend(r.unwrap_or(vec![])); v })));
			same!("map-fold", "fold_up of the mapped tree", r, ids(&want));
		}
	}
	same!("input-changed", "the tree after the computations", read_("input-changed", &Some(imp.clone()))?, *t);
	Ok(())
}
/// non-incremental: every shape, levels, every subset of named nodes
pub struct Comps { pub trees: Vec<T>, pub dcg: bool }
impl Model for Comps {
	type S = u32;
	fn inits(&self) -> usize { self.trees.len() }
	fn describe_init(&self, i: usize) -> String { format!("{:?}", self.trees[i]) }
	fn reset(&self) { if self.dcg { manage::init_dcg(); } }
	fn init(&self, i: usize) -> Res<u32> {
		let imp = to_imp(&self.trees[i]).unwrap();
		check_comps(&self.trees[i], &imp, 63)?;
		check_comps(&self.trees[i], &imp, 63)?;
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
pub fn named_trees(max: usize, lvl: &dyn Fn(u16) -> u32) -> Vec<T> {
	let mut out = vec![];
	for n in 1..max + 1 { for sh in shapes(n, 0) { for mask in 0..1u32 << n {
		out.push(relabel(&sh, &|id| (id, lvl(id), if mask >> id & 1 == 1 { id + 1 } else { 0 })));
	} } }
	out
}
/// incremental: tree, computations, another tree over the same names, computations, ...
pub struct CompsDcg { pub trees: Vec<T>, pub rounds: usize, pub subsets: Vec<u32>, pub first: std::ops::Range<usize> }
impl Scenario for CompsDcg {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		manage::init_dcg();
		for r in 0..self.rounds {
			let t = if r == 0 { &self.trees[self.first.start + ch.choose(self.first.end - self.first.start)] } else { &self.trees[ch.choose(self.trees.len())] };
			// data may differ between the rounds in one node
			let n = size(t) as u16;
			let changed = if r == 0 { n } else { ch.choose(n as usize + 1) as u16 };
			let t = relabel(t, &|id| { let mut x = (id, 0, 0); let mut v = vec![]; flat(t, &mut v); let o = v.iter().find(|n| n.id == id).unwrap(); x.1 = o.level; x.2 = o.name; if v.iter().position(|n| n.id == id) == Some(changed as usize) { x.0 = 300 + r as u16 } x });
			let which = self.subsets[ch.choose(self.subsets.len())];
			ch.note(|| format!("build {:?}; computations {:06b}", t, which));
			let mut f = Fp::new(); f.dbg(&t).dbg(&which).dbg(&r); ch.state(f.end());
			let imp = to_imp(&t).unwrap();
			check_comps(&t, &imp, which)?;
		}
		Ok(())
	}
}

/// incremental folding over what is right of a cursor: tree, position, fold, another tree over the
/// same names, ...
pub struct IterDcg { pub trees: Vec<T>, pub rounds: usize }
pub fn some_lists(of: usize, max: usize, levels: &[u32]) -> Vec<T> {
	let mut out = vec![];
	for set in 1..1u32 << of {
		let set: Vec<u16> = (0..of as u16).filter(|i| set >> i & 1 == 1).collect();
		if set.len() > max { continue }
		for l in level_lists(set.len(), levels, 0, 0) { for mask in 0..1u32 << set.len() {
			out.push(canon(&set.iter().enumerate().map(|(i, &id)| (id, l[i].1, if mask >> i & 1 == 1 { id + 1 } else { 0 })).collect::<Vec<_>>()));
		} }
	}
	out
}
impl Scenario for IterDcg {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		manage::init_dcg();
		for r in 0..self.rounds {
			let t = &self.trees[ch.choose(self.trees.len())];
			let v = nodes(t);
			let changed = if r == 0 { v.len() } else { ch.choose(v.len() + 1) };
			let changed = v.get(changed).map(|n| n.0).unwrap_or(9999);
			let t = relabel(t, &|id| { let n = v.iter().find(|n| n.0 == id).unwrap(); (if id == changed { 40 + r as u16 } else { id }, n.1, n.2) });
			let imp = to_imp(&t).unwrap();
			let mut c = Cursor::from(imp.clone());
			let mut m = MCur { path: vec![], cur: t.clone(), clean: true };
			loop {
				let n = m.cur.clone().unwrap();
				let mut moves = vec![2];
				if n.l.is_some() { moves.push(0); }
				if n.r.is_some() { moves.push(1); }
				let mv = moves[ch.choose(moves.len())];
				if mv == 2 { break }
				let right = mv == 1;
				let b = if right { n.r.clone() } else { n.l.clone() };
				same!("down", "success of the move down", if right { c.down_right() } else { c.down_left() }, true);
				m.path.push((right, n, true));
				m.cur = b;
			}
			let want = m.right_of();
			ch.note(|| format!("tree {:?}; fold over what is right of node {:?}", t, m.cur.as_ref().map(|n| n.id)));
			let mut f = Fp::new(); f.dbg(&t).dbg(&m.cur).dbg(&r); ch.state(f.end());
			for again in 0..2 {
				let (_, _, it) = c.clone().into_iters();
				let got = in_ns("fold_out", || it.clone().fold_out(vec![], Rc::new(|mut v: Vec<u16>, d: D| { v.push(d.id); v })));
				same!("fold_out", format!("fold over the nodes right of the cursor (run {})", again), got, want);
				let got = in_ns("fold_out_lossy", || it.fold_out(0u16, Rc::new(|a: u16, d: D| (a + d.id) % 2)));
				same!("fold_out", format!("parity fold over the nodes right of the cursor (run {})", again), got, want.iter().fold(0, |a, i| (a + i) % 2));
			}
			same!("input-changed", "the tree after the folds", read_("input-changed", &Some(imp))?, t);
		}
		Ok(())
	}
}
