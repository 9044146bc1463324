//! C15: the skip list against a finite map.
use crate::common::nm;
use crate::mc::*;
use adapton::engine::*;
use iodyn::skiplist::{FinMap, Skiplist};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};

/// Keys which share or do not share their hash path in interesting ways.  (If the
/// implementation hashes differently, other keys collide; nothing else depends on this.)
pub fn keys(path_len: usize, classes: &[(usize, usize)]) -> Vec<u32> {
	let mask = (1usize << path_len) - 1;
	let h = |k: u32| { let mut h = DefaultHasher::new(); k.hash(&mut h); h.finish() as usize & mask };
	let mut v = vec![];
	for &(class, n) in classes { v.extend((0..4000).filter(|k| h(*k) == class & mask).take(n)); }
	v
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Put(u32, u16), Ext(u32, Option<u16>), Rem(u32), Archive, Get(u32) }
pub struct SkipModel { pub path_len: usize, pub keys: Vec<u32>, pub vals: Vec<u16>, pub depth: usize, pub wide: usize, pub persist: bool }
#[derive(Clone)]
pub struct SkipS { imp: Skiplist<u32, u16>, m: BTreeMap<u32, u16>, archives: u16, hist: Vec<u16>, wide: bool }
fn name(i: u16) -> Name { nm(i + 100).unwrap() }
fn ops(keys: &[u32], vals: &[u16]) -> Vec<Op> {
	let mut v = vec![];
	for &k in keys { for &x in vals { v.push(Op::Put(k, x)); } v.push(Op::Rem(k)); v.push(Op::Ext(k, Some(9))); }
	v.push(Op::Archive);
	v
}
fn check(s: &Skiplist<u32, u16>, m: &BTreeMap<u32, u16>, keys: &[u32]) -> Res<()> {
	for &k in keys.iter().chain([4_000_001u32, 4_000_002, 4_000_003, 4_000_004].iter()) {
		same!("get", format!("get({})", k), s.get(k), m.get(&k).cloned());
	}
	Ok(())
}
fn apply(s: &mut Skiplist<u32, u16>, m: &mut BTreeMap<u32, u16>, archives: &mut u16, op: Op) -> Res<()> {
	match op {
		Op::Put(k, v) => { s.put(k, v); m.insert(k, v); }
		Op::Ext(k, v) => { let w = m.get(&k).cloned(); match v { Some(v) => m.insert(k, v), None => m.remove(&k) }; same!("ext", format!("previous mapping of {} returned by ext", k), s.ext(k, v), w); }
		Op::Rem(k) => { let w = m.remove(&k); same!("rem", format!("previous mapping of {} returned by rem", k), s.rem(k), w); }
		Op::Archive => { *archives += 1; s.archive(name(*archives)); }
		Op::Get(k) => { same!("get", format!("get({})", k), s.get(k), m.get(&k).cloned()); }
	}
	Ok(())
}
impl Model for SkipModel {
	type S = SkipS;
	fn inits(&self) -> usize { 1 + self.wide }
	fn max_depth(&self) -> usize { self.depth }
	fn describe_init(&self, i: usize) -> String { format!("emp({}){}", self.path_len, if i == 0 { "".to_string() } else { format!(" and {} keys put in (variant {})", 40, i) }) }
	fn init(&self, i: usize) -> Res<SkipS> {
		let mut s = SkipS { imp: Skiplist::emp(self.path_len, name(0)), m: BTreeMap::new(), archives: 0, hist: vec![i as u16], wide: i > 0 };
		if i > 0 {
			// many keys, many of them sharing a path, in different orders
			for j in 0..40u32 {
				let k = match i { 1 => 1000 + j, 2 => 1039 - j, _ => 1000 + (j * 7) % 40 };
				apply(&mut s.imp, &mut s.m, &mut s.archives, Op::Put(k, j as u16))?;
				if j % 5 == 4 { apply(&mut s.imp, &mut s.m, &mut s.archives, Op::Archive)?; }
				check(&s.imp, &s.m, &self.keys)?;
			}
			let all: Vec<u32> = (1000..1040).collect();
			check(&s.imp, &s.m, &all)?;
		}
		check(&s.imp, &s.m, &self.keys)?;
		Ok(s)
	}
	fn ops(&self, _: &SkipS) -> usize { ops(&self.keys, &self.vals).len() }
	fn describe(&self, s: &SkipS, op: usize) -> String { format!("{:?}   [before: {:?}]", ops(&self.keys, &self.vals)[op], s.m) }
	fn fingerprint(&self, s: &SkipS) -> u128 {
		let mut f = Fp::new();
		// the nodes of a skip list are shared: printing a large one takes exponential time, so
		// large ones are told apart by their history (no two histories are merged)
		if s.wide { f.dbg(&s.hist); } else { f.dbg(&s.imp).dbg(&s.m); }
		f.end()
	}
	fn step(&self, s: &mut SkipS, op: usize, chk: bool) -> Res<()> {
		s.hist.push(op as u16);
		let (old, oldm) = (s.imp.clone(), s.m.clone());
		if self.persist {
			let look = |s: &Skiplist<u32, u16>| self.keys.iter().map(|k| s.get(*k)).collect::<Vec<_>>();
			let before = look(&old);
			match apply(&mut s.imp, &mut s.m, &mut s.archives, ops(&self.keys, &self.vals)[op]) { _ => {} }
			if chk { same!("original-changed", "an earlier copy of the skip list", look(&old), before); }
			return Ok(())
		}
		apply(&mut s.imp, &mut s.m, &mut s.archives, ops(&self.keys, &self.vals)[op])?;
		if chk {
			check(&s.imp, &s.m, &self.keys)?;
			match check(&old, &oldm, &self.keys) { Ok(()) => {}, Err(b) => return bad("original-changed", format!("an earlier copy changed: {}", b.msg)) }
			if !s.m.is_empty() && s.m.keys().any(|k| *k >= 1000 && *k < 1040) { let all: Vec<u32> = (1000..1040).collect(); check(&s.imp, &s.m, &all)?; }
		}
		Ok(())
	}
}
/// the same with the change-propagating engine: every history from a fresh engine
pub struct SkipDcg { pub path_len: usize, pub keys: Vec<u32>, pub vals: Vec<u16>, pub depth: usize }
impl Scenario for SkipDcg {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		manage::init_dcg();
		let mut s = Skiplist::emp(self.path_len, name(0));
		let (mut m, mut archives) = (BTreeMap::new(), 0);
		let mut all = ops(&self.keys, &self.vals);
		for &k in &self.keys { all.push(Op::Get(k)); }
		for _ in 0..self.depth {
			let op = all[ch.choose(all.len())];
			ch.note(|| format!("{:?}", op));
			apply(&mut s, &mut m, &mut archives, op)?;
			let mut f = Fp::new(); f.dbg(&m).dbg(&op); ch.state(f.end());
		}
		check(&s, &m, &self.keys)
	}
}
