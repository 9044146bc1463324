//! C24: versions of named data, each edited in a namespace of its own.
//! Executions are explored statelessly, from a fresh engine each.
use crate::common::*;
use crate::dcg::*;
use crate::mc::*;
use crate::raz_model::{build, legal_unfocus};
use crate::stacks::check_as;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::MemoFrom;
use iodyn::raz::RazTree;
use iodyn::raz_meta::Count;
use iodyn::skiplist::{FinMap, Skiplist};
use iodyn::stack::Stack;
use std::collections::BTreeMap;
use std::marker::PhantomData;

/// `None`: the data as built, outside of any namespace
fn within<R, F: FnOnce() -> R>(space: &Option<String>, f: F) -> R { match *space { None => f(), Some(ref s) => in_ns(s, f) } }
/// Something with versions.
#[derive(Clone)]
struct Version<T> { it: T, space: Option<String>, /// others were made from it: they may share its cells
	shared: bool }
/// Choose what to edit and where: a new version of any earlier one in a namespace of its own, or
/// once more a version that nothing was made from, in its own namespace.
fn pick<T: Clone>(ch: &mut Chooser, vs: &mut Vec<Version<T>>, again: bool, round: usize) -> usize {
	let mut v: Vec<(usize, bool)> = (0..vs.len()).map(|i| (i, true)).collect();
	if again { v.extend((1..vs.len()).filter(|&i| !vs[i].shared).map(|i| (i, false))); }
	let (i, new) = v[ch.choose(v.len())];
	if !new { ch.note(|| format!("edit version {} again in its namespace", i)); return i }
	vs[i].shared = true;
	let it = vs[i].it.clone();
	vs.push(Version { it: it, space: Some(format!("version{}", round)), shared: false });
	let n = vs.len() - 1;
	ch.note(|| format!("version {}: a clone of version {} edited in namespace {:?}", n, i, format!("version{}", round)));
	n
}

pub struct SpacesRaz<K> {
	pub seeds: Vec<Vec<It>>,
	pub ways: Vec<usize>,
	/// per round: up to how many operations while focused
	pub ops: Vec<usize>,
	pub levels: Vec<u32>,
	pub unnamed: bool,
	/// versions may be edited again
	pub again: bool,
	/// what is demanded on every version after every round, and whether in the same namespaces for all
	pub demand: u32,
	pub same_space: bool,
	pub kind: PhantomData<fn() -> K>,
}
impl<K: Kind> SpacesRaz<K> {
	fn check_all(&self, ch: &mut Chooser, vs: &[Version<(RazTree<El, K>, Vec<It>)>], edited: usize) -> Res<()> {
		for (i, v) in vs.iter().enumerate() {
			let (ref t, ref items) = v.it;
			let key = if i == edited { "content" } else { "other-version" };
			let got = to_items(&fresh_observe(t), 2000);
			same!(key, format!("version {} after version {} was edited", i, edited), got, items.clone());
			K::check_meta(t.meta(), items, &|| canonical(items))?;
		}
		for (i, v) in vs.iter().enumerate() {
			let (ref t, ref items) = v.it;
			for c in 0..COMPS + ACCS {
				if self.demand >> c & 1 == 0 { continue }
				ch.note(|| format!("demand {} on version {}: {:?}", comp_name(c), i, items));
				if self.same_space { compute(c, t, items)?; } else { in_ns(&format!("use{}", i), || compute(c, t, items))?; }
			}
		}
		if self.demand != 0 {
			for (i, v) in vs.iter().enumerate() { same!("other-version", format!("version {} after computations", i), to_items(&fresh_observe(&v.it.0), 2000), v.it.1.clone()); }
		}
		Ok(())
	}
}
impl<K: Kind> Scenario for SpacesRaz<K> {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let seed = &self.seeds[ch.choose(self.seeds.len())];
		let way = self.ways[ch.choose(self.ways.len())];
		let t: RazTree<El, K> = build::<K>(seed, way);
		ch.note(|| format!("version 0: build {:?} (way {})", seed, way));
		let mut vs = vec![Version { it: (t, seed.clone()), space: None, shared: false }];
		let mut ops = vec![Op::Push(true), Op::Push(false), Op::Pop(true), Op::Pop(false)];
		for &s in &[true, false] { for &l in &self.levels { ops.push(Op::Archive(s, l, true)); if self.unnamed { ops.push(Op::Archive(s, l, false)); } } }
		if self.demand != 0 { self.check_all(ch, &vs, 0)?; }
		for (round, &n) in self.ops.iter().enumerate() {
			let vi = pick(ch, &mut vs, self.again, round + 1);
			let v = vs[vi].clone();
			let (t, items) = v.it;
			let foci = if items.len() > 60 { sparse_foci::<K>(&items, distinct_foci::<K>(&items)) } else { distinct_foci::<K>(&items) };
			let k = foci[ch.choose(foci.len())];
			let p = K::expect(&items, k).unwrap();
			ch.note(|| format!("{} on {:?}", K::describe(&items, k), items));
			let (mut left, mut right) = (items[..p].to_vec(), items[p..].iter().rev().cloned().collect::<Vec<_>>());
			let t = within(&v.space, || -> Res<RazTree<El, K>> {
				let mut r = match K::focus(t, &items, k) { Some(r) => r, None => return bad("focus-refused", format!("{} on {:?} is refused", K::describe(&items, k), items)) };
				for _ in 0..n {
					let c = ch.choose(ops.len() + 1);
					if c == 0 { break }
					let s = apply(ops[c - 1], &mut r, &mut left, &mut right)?;
					ch.note(|| s);
				}
				Ok(r.unfocus())
			})?;
			let got = to_items(&fresh_observe(&t), 2000);
			let legal = legal_unfocus(&left, &right);
			ensure!("content", legal.contains(&got), "after unfocusing {:?} ^ {:?} the version is {:?}", left, right.iter().rev().collect::<Vec<_>>(), got);
			ch.note(|| format!("unfocus: {:?}", got));
			vs[vi].it = (t, got);
			self.check_all(ch, &vs, vi)?;
			let mut f = Fp::new(); f.dbg(&vs.iter().map(|v| v.it.1.clone()).collect::<Vec<_>>()).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
/// Archive stacks.  Every version may use the same names.
pub struct SpacesStack { pub firsts: Vec<Vec<It>>, pub ops: Vec<usize>, pub again: bool, pub convert: bool }
impl Scenario for SpacesStack {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let first = self.firsts[ch.choose(self.firsts.len())].clone();
		let mut s: AStack<El, u32> = AStack::new();
		for i in &first { match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(nm(n), l); } } }
		ch.note(|| format!("version 0: stack {:?}", first));
		let mut vs = vec![Version { it: (s, first), space: None, shared: false }];
		for (round, &n) in self.ops.iter().enumerate() {
			let vi = pick(ch, &mut vs, self.again, round + 1);
			let v = vs[vi].clone();
			let (mut s, mut items) = v.it;
			within(&v.space, || -> Res<()> {
				for _ in 0..n {
					match ch.choose(6) {
						0 => break,
						1 => { let e = fresh_label(&items); s.push(El(e)); items.push(It::E(e)); ch.note(|| format!("push({})", e)); }
						2 => {
							ch.note(|| "pop()".to_string());
							let want = match items.iter().rposition(|i| i.is_e()) { None => None, Some(p) => { let e = items[p]; items.truncate(p); match e { It::E(e) => Some(e), _ => None } } };
							same!("content", "pop", s.pop().map(|e| e.0), want);
						}
						3 => {
							ch.note(|| "next_archive()".to_string());
							s.next_archive();
							match items.iter().rposition(|i| !i.is_e()) { None => items.clear(), Some(p) => items.truncate(p) }
						}
						c => {
							let m = if c == 4 { fresh_marker(&items) } else { 0 };
							s.archive(nm(m), 3);
							if items.last().map(|i| i.is_e()).unwrap_or(false) { items.push(It::M(3, m)); }
							ch.note(|| format!("archive(#{})", m));
						}
					}
				}
				Ok(())
			})?;
			vs[vi].it = (s, items);
			for (i, v) in vs.iter().enumerate() {
				if let Err(b) = check_as(&v.it.0, &v.it.1) { return bad(if i == vi { "content" } else { "other-version" }, format!("version {} after version {} was edited: {}", i, vi, b.msg)) }
			}
			if self.convert {
				for (i, v) in vs.iter().enumerate() {
					let mut want = v.it.1.clone();
					if let Some(&It::M(..)) = want.last() { want.pop(); }
					for head in 0..2 {
						let t: RazTree<El, Count> = in_ns(&format!("convert{}-{}", i, head), || if head == 1 { RazTree::memo_from(&AtHead(v.it.0.clone())) } else { RazTree::memo_from(&AtTail(v.it.0.clone())) });
						// names are kept as they are by conversions
						let got: Vec<It> = fresh_observe(&t).iter().map(|o| match *o { Obs::E(e) => It::E(e.0), Obs::M(l, ref n) => It::M(l, (0..70).find(|i| nm(*i) == *n).unwrap_or(UNKNOWN)) }).collect();
						same!("content", format!("version {} converted ({})", i, if head == 1 { "head" } else { "tail" }), got, want.clone());
						want.reverse();
					}
				}
			}
			let mut f = Fp::new(); f.dbg(&vs.iter().map(|v| v.it.1.clone()).collect::<Vec<_>>()).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
/// Cons stacks.  Every version names its cells by their depth.
pub struct SpacesCons { pub first: Vec<usize>, pub ops: Vec<usize>, pub again: bool }
impl Scenario for SpacesCons {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let k = self.first[ch.choose(self.first.len())];
		type L = Vec<(u16, u16)>;
		let mut label = 0;
		let mut s: Stack<El> = Stack::new();
		let mut l: L = vec![];
		for _ in 0..k { let n = l.len() as u16 + 1; s = s.push(nm(n), El(label)); l.push((n, label)); label += 1; }
		let mut vs = vec![Version { it: (s, l), space: None, shared: false }];
		ch.note(|| format!("version 0: {} elements", k));
		for (round, &n) in self.ops.iter().enumerate() {
			let vi = pick(ch, &mut vs, self.again, round + 1);
			let v = vs[vi].clone();
			let (mut s, mut l) = v.it;
			within(&v.space, || -> Res<()> {
				for _ in 0..n {
					match ch.choose(4) {
						0 => break,
						1 => { let n = l.len() as u16 + 1; s = s.push(nm(n), El(label)); l.push((n, label)); ch.note(|| format!("push({}) named #{}", label, n)); label += 1; }
						2 => { s = s.push(None, El(label)); l.push((0, label)); ch.note(|| format!("push({})", label)); label += 1; }
						_ => { ch.note(|| "pull()".to_string()); let got = s.pull(); let want = l.pop().is_some(); same!("content", "whether pull succeeds", got.is_some(), want); if let Some(r) = got { s = r } }
					}
				}
				Ok(())
			})?;
			vs[vi].it = (s, l);
			for (i, v) in vs.iter().enumerate() {
				let key = if i == vi { "content" } else { "other-version" };
				let (mut s, want) = v.it.clone();
				let got: Vec<u16> = s.clone().iter().map(|e| e.0).collect();
				same!(key, format!("version {} after version {} was edited", i, vi), got, want.iter().rev().map(|x| x.1).collect::<Vec<_>>());
				for x in want.iter().rev() {
					same!(key, format!("top of version {}", i), s.peek().map(|e| e.0), Some(x.1));
					same!(key, format!("name at the top of version {}", i), s.name(), nm(x.0));
					s = s.pull().unwrap();
				}
				same!(key, format!("emptiness of version {} after pulling everything", i), s.is_empty(), true);
			}
			let mut f = Fp::new(); f.dbg(&vs.iter().map(|v| v.it.1.clone()).collect::<Vec<_>>()).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
/// Skip lists.
pub struct SpacesSkip { pub path_len: usize, pub keys: Vec<u32>, pub first: Vec<usize>, pub ops: Vec<usize>, pub again: bool }
impl Scenario for SpacesSkip {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine();
		let k = self.first[ch.choose(self.first.len())];
		let mut s: Skiplist<u32, u16> = Skiplist::emp(self.path_len, nm(30).unwrap());
		let mut m: BTreeMap<u32, u16> = BTreeMap::new();
		let mut val = 0;
		// (the names a version was archived with)
		let mut names = 0;
		for i in 0..k { s.put(self.keys[i % self.keys.len()], val); m.insert(self.keys[i % self.keys.len()], val); val += 1; if i % 2 == 1 { names += 1; s.archive(nm(names).unwrap()); } }
		ch.note(|| format!("version 0: {:?}", m));
		let mut vs = vec![Version { it: (s, m, names), space: None, shared: false }];
		for (round, &n) in self.ops.iter().enumerate() {
			let vi = pick(ch, &mut vs, self.again, round + 1);
			let v = vs[vi].clone();
			let (mut s, mut m, mut names) = v.it;
			let nk = self.keys.len();
			within(&v.space, || -> Res<()> {
				for _ in 0..n {
					let c = ch.choose(2 + 2 * nk);
					if c == 0 { break }
					else if c == 1 { names += 1; s.archive(nm(names).unwrap()); ch.note(|| format!("archive(#{})", names)); }
					else if c < 2 + nk { let k = self.keys[c - 2]; s.put(k, val); m.insert(k, val); ch.note(|| format!("put({}, {})", k, val)); val += 1; }
					else { let k = self.keys[c - 2 - nk]; ch.note(|| format!("rem({})", k)); same!("content", format!("previous value of {} returned by rem", k), s.rem(k), m.remove(&k)); }
				}
				Ok(())
			})?;
			vs[vi].it = (s, m, names);
			for (i, v) in vs.iter().enumerate() {
				for k in self.keys.iter().chain([4_000_001u32].iter()) { same!(if i == vi { "content" } else { "other-version" }, format!("key {} in version {} after version {} was edited", k, i, vi), v.it.0.get(*k), v.it.1.get(k).cloned()); }
			}
			let mut f = Fp::new(); f.dbg(&vs.iter().map(|v| v.it.1.clone()).collect::<Vec<_>>()).dbg(&round); ch.state(f.end());
		}
		Ok(())
	}
}
