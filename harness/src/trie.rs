//! C23: tries made from finite maps, combined with one another, against the maps.
use crate::mc::*;
use iodyn::trie::{HashVal, Trie};
use adapton::engine::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Lookups take a hash value that only the module itself can make; it wraps a machine word.
fn hash_val(x: usize) -> HashVal { unsafe { std::mem::transmute(x) } }
fn hash_of<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }

pub trait Key: 'static + Clone + Eq + Ord + Hash + Debug + Send + Sync { fn key(i: usize) -> Self; }
impl Key for u64 { fn key(i: usize) -> u64 { [0, 1, 2, 1 << 32, u64::max_value(), 3][i] } }
impl Key for String { fn key(i: usize) -> String { ["", "a", "b", "ab", "ba", "aa"][i].to_string() } }

pub struct TrieModel<K: Key> { pub keys: usize, pub depth: usize, pub maps: Vec<BTreeMap<K, u8>> }
impl<K: Key> TrieModel<K> {
	/// every map from the first `keys` keys to the values 0 and 1
	pub fn new(keys: usize, depth: usize) -> Self {
		let mut maps = vec![BTreeMap::new()];
		for i in 0..keys {
			let old = maps.clone();
			for v in 0..2 { for m in &old { let mut m: BTreeMap<K, u8> = m.clone(); m.insert(K::key(i), v); maps.push(m); } }
		}
		maps.sort_by_key(|m| m.len());
		TrieModel { keys: keys, depth: depth, maps: maps }
	}
	fn trie(&self, m: &BTreeMap<K, u8>, rev: bool) -> Trie<K, u8> {
		let kv: Vec<(K, u8)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
		Trie::from_hashmap(if rev { kv.into_iter().rev().collect::<HashMap<K, u8>>() } else { kv.into_iter().collect() })
	}
	fn check(&self, t: &Trie<K, u8>, want: &BTreeMap<K, u8>, leaf: bool) -> Res<()> {
		for i in 0..self.keys {
			let k = K::key(i);
			same!("find", format!("lookup of {:?}", k), Trie::find(t, hash_val(hash_of(&k) as usize), &k), want.get(&k).cloned());
		}
		let c = t.clone();
		ensure!("equality", c == *t && hash_of(&c) == hash_of(t), "a trie with {:?} is not equal to its clone", want);
		if leaf {
			for m in &self.maps {
				let o = self.trie(m, true);
				ensure!("equality", (o == *t) == (m == want), "the trie of {:?} and that of {:?} are{} equal", m, want, if m == want { " not" } else { "" });
				if m == want {
					ensure!("hash", hash_of(&o) == hash_of(t), "equal tries of {:?} have different hashes", want);
					// every hash map iterates in an order of its own
					for i in 0..20 {
						let o = self.trie(m, i % 2 == 0);
						ensure!("equality", o == *t && hash_of(&o) == hash_of(t), "two tries of {:?} are not equal", want);
					}
				}
			}
		}
		Ok(())
	}
}
#[derive(Clone)]
pub struct S<K: Key> { t: Trie<K, u8>, m: BTreeMap<K, u8>, empty: bool, d: usize }
impl<K: Key> Model for TrieModel<K> {
	type S = S<K>;
	fn inits(&self) -> usize { self.maps.len() + 1 }
	fn describe_init(&self, i: usize) -> String { if i == 0 { "Trie::empty()".into() } else { format!("Trie::from_hashmap({:?})", self.maps[i - 1]) } }
	fn init(&self, i: usize) -> Res<S<K>> {
		let s = if i == 0 { S { t: Trie::empty(), m: BTreeMap::new(), empty: true, d: 0 } }
			else { S { t: self.trie(&self.maps[i - 1], false), m: self.maps[i - 1].clone(), empty: false, d: 0 } };
		self.check(&s.t, &s.m, !s.empty)?;
		Ok(s)
	}
	fn ops(&self, s: &S<K>) -> usize { if s.d >= self.depth { 0 } else { 2 * (self.maps.len() + 1) } }
	fn describe(&self, _: &S<K>, op: usize) -> String {
		format!("union with {} on the {}", if op / 2 == 0 { "Trie::empty()".to_string() } else { format!("from_hashmap({:?})", self.maps[op / 2 - 1]) }, if op % 2 == 0 { "right" } else { "left" })
	}
	fn step(&self, s: &mut S<K>, op: usize, check: bool) -> Res<()> {
		s.d += 1;
		let n = name_of_usize(s.d);
		let (o, om) = if op / 2 == 0 { (Trie::empty(), BTreeMap::new()) } else { (self.trie(&self.maps[op / 2 - 1], false), self.maps[op / 2 - 1].clone()) };
		let both = !s.empty && op / 2 != 0;
		let t = s.t.clone();
		let r = no_panic(move || if op % 2 == 0 { Trie::union(t, o, n) } else { Trie::union(o, t, n) });
		let u = match r {
			Ok(u) => u,
			Err(e) => return bad(if both { "union-of-maps-panics" } else { "union-with-empty-panics" }, format!("the union panicked: {}", e)),
		};
		let plain = !both;
		// a key of both tries with different values may keep either value
		let mut want = s.m.clone();
		for (k, v) in om {
			let mut v = v;
			if let Some(&w) = s.m.get(&k) { if w != v {
				let got = Trie::find(&u, hash_val(hash_of(&k) as usize), &k);
				ensure!("union", got == Some(v) || got == Some(w), "the union maps {:?} to {:?}, its parts map it to {} and {}", k, got, w, v);
				v = got.unwrap();
			} }
			want.insert(k, v);
		}
		s.empty = s.empty && op / 2 == 0;
		s.m = want;
		s.t = u;
		if check {
			if plain { self.check(&s.t, &s.m, !s.empty)?; }
			else { for i in 0..self.keys { let k = K::key(i); same!("union", format!("lookup of {:?} in the union", k), Trie::find(&s.t, hash_val(hash_of(&k) as usize), &k), s.m.get(&k).cloned()); } }
		}
		Ok(())
	}
	fn fingerprint(&self, s: &S<K>) -> u128 { let mut f = Fp::new(); f.dbg(&(&s.m, s.empty, s.d)); f.end() }
}

/// Larger maps: lookups of every key and of keys that are not there, and the tries of maps
/// that differ in one entry.
pub trait Wide: 'static + Clone + Eq + Ord + Hash + Debug + Send + Sync { fn wide(i: usize) -> Self; }
impl Wide for u64 { fn wide(i: usize) -> u64 { i as u64 } }
impl Wide for (u32, u32) { fn wide(i: usize) -> (u32, u32) { ((i / 4) as u32, (i % 4) as u32) } }
impl Wide for String { fn wide(i: usize) -> String { format!("{}{}", "k".repeat(i % 5), i / 5) } }
pub struct WideMaps<K> { pub sizes: Vec<usize>, pub key: std::marker::PhantomData<fn(K)> }
#[derive(Clone)]
pub struct W<K: Wide> { t: Trie<K, u16>, m: BTreeMap<K, u16>, d: bool, init: usize, op: usize }
impl<K: Wide> WideMaps<K> {
	pub fn new(sizes: Vec<usize>) -> Self { WideMaps { sizes: sizes, key: std::marker::PhantomData } }
	/// values: all the same, all different, alternating
	fn map(n: usize, v: usize) -> BTreeMap<K, u16> { (0..n).map(|i| (K::wide(i), match v { 0 => 7, 1 => i as u16, _ => (i % 2) as u16 })).collect() }
	fn trie(m: &BTreeMap<K, u16>, rev: bool) -> Trie<K, u16> {
		if rev { Trie::from_hashmap(m.iter().rev().map(|(k, v)| (k.clone(), *v)).collect()) }
		else { let mut h = HashMap::with_capacity(4 * m.len()); for (k, v) in m { h.insert(k.clone(), *v); } Trie::from_hashmap(h) }
	}
	fn lookups(t: &Trie<K, u16>, m: &BTreeMap<K, u16>) -> Res<()> {
		for i in 0..m.len() + 3 { let k = K::wide(i); same!("find", format!("lookup of {:?} among {} entries", k, m.len()), Trie::find(t, hash_val(hash_of(&k) as usize), &k), m.get(&k).cloned()); }
		Ok(())
	}
	/// the map changed in one place (or in two that keep its keys, or its values, together)
	fn edit(m: &BTreeMap<K, u16>, op: usize) -> BTreeMap<K, u16> {
		let (what, i) = (op % 5, op / 5);
		let mut o = m.clone();
		let (k, next) = (K::wide(i), K::wide((i + 1) % m.len()));
		match what {
			0 => { *o.get_mut(&k).unwrap() += 1; }
			1 => { *o.get_mut(&k).unwrap() ^= 0x8000; }
			2 => { o.remove(&k); }
			3 => { let v = o.remove(&k).unwrap(); o.insert(K::wide(m.len()), v); }
			_ => { let (a, b) = (o[&k], o[&next]); o.insert(k, b); o.insert(next, a); }
		}
		o
	}
}
impl<K: Wide> Model for WideMaps<K> {
	type S = W<K>;
	fn inits(&self) -> usize { 3 * self.sizes.len() }
	fn describe_init(&self, i: usize) -> String { format!("Trie::from_hashmap of {} entries, {} values", self.sizes[i / 3], ["equal", "different", "alternating"][i % 3]) }
	fn init(&self, i: usize) -> Res<W<K>> {
		let m = Self::map(self.sizes[i / 3], i % 3);
		let t = Self::trie(&m, false);
		Self::lookups(&t, &m)?;
		for r in 0..4 {
			let o = Self::trie(&m, r % 2 == 0);
			ensure!("equality", o == t && hash_of(&o) == hash_of(&t), "two tries of the same {} entries are not equal", m.len());
		}
		for (n, rev) in [(1, false), (2, true)].iter() {
			let n = name_of_usize(*n);
			let u = if *rev { Trie::union(Trie::empty(), t.clone(), n) } else { Trie::union(t.clone(), Trie::empty(), n) };
			Self::lookups(&u, &m)?;
			ensure!("equality", u == t, "the union of {} entries with the empty trie is not equal to them", m.len());
		}
		Ok(W { t: t, m: m, d: false, init: i, op: 0 })
	}
	fn ops(&self, s: &W<K>) -> usize { if s.d { 0 } else { 5 * s.m.len() } }
	fn describe(&self, _: &W<K>, op: usize) -> String {
		let k = K::wide(op / 5);
		match op % 5 { 0 => format!("one more for {:?}", k), 1 => format!("flip a high bit for {:?}", k), 2 => format!("remove {:?}", k), 3 => format!("another key for the value of {:?}", k), _ => format!("exchange the values of {:?} and the next key", k) }
	}
	fn step(&self, s: &mut W<K>, op: usize, check: bool) -> Res<()> {
		let m = Self::edit(&s.m, op);
		let t = Self::trie(&m, op % 2 == 0);
		if check {
			Self::lookups(&t, &m)?;
			ensure!("equality", (t == s.t) == (m == s.m), "the tries of two maps of {} and {} entries are{} equal", s.m.len(), m.len(), if m == s.m { " not" } else { "" });
		}
		s.m = m; s.t = t; s.d = true; s.op = op + 1;
		Ok(())
	}
	fn fingerprint(&self, s: &W<K>) -> u128 { let mut f = Fp::new(); f.dbg(&(s.init, s.op)); f.end() }
}
