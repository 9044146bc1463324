//! C27: the element types which the evaluations generate.
use crate::mc::*;
use eval::types::{Elm, Gen10k, GenSetElm, GenSmall};
use rand::{Rand, Rng};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Add;

/// a source which begins with a given number (and may be asked for more)
struct From1(u64, u64);
impl Rng for From1 {
	fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
	fn next_u64(&mut self) -> u64 { let v = self.0; self.1 += 1; if self.1 > 1000 { panic!("more than 1000 random numbers for one element") } self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); v }
}
fn drawn<T: Rand>(v: u64) -> T { T::rand(&mut From1(v, 0)) }
fn hash<T: Hash>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
const CHUNK: u64 = 4096;
/// windows of random numbers: from zero, up to the greatest, around powers of two, spread evenly
fn window(i: usize, n: u64) -> Vec<u64> {
	let i = i as u64;
	if i < n { (i * CHUNK..(i + 1) * CHUNK).collect() }
	else if i < 2 * n { ((i - n) * CHUNK..(i - n + 1) * CHUNK).map(|x| !x).collect() }
	else if i < 3 * n { let step = u64::max_value() / (n * CHUNK); ((i - 2 * n) * CHUNK..(i - 2 * n + 1) * CHUNK).map(|x| x * step).collect() }
	else { (0..64u32).flat_map(|b| (0..32u64).flat_map(move |d| vec![(1u64 << b).wrapping_add(d), (1u64 << b).wrapping_sub(d)])).collect() }
}
/// a number type: all of a window's draws are below `bound`
fn ranged<T: Rand + Copy + Debug + PartialEq, F: Fn(T) -> usize>(num: &F, bound: usize, vals: &[u64], seen: &mut BTreeSet<usize>) -> Res<()> {
	for &v in vals {
		let x: T = drawn(v);
		ensure!("range", num(x) < bound, "the element {:?} drawn from a source giving {:#x} is not below {}", x, v, bound);
		ensure!("repeatable", x == drawn(v), "two elements drawn from sources giving {:#x} differ", v);
		seen.insert(num(x));
	}
	Ok(())
}
/// sums, comparisons, copies and hashes follow the numbers
fn numbers<T: Copy + Debug + Ord + Hash, M: Fn(usize) -> T, F: Fn(T) -> usize>(mk: &M, num: &F, add: Option<&dyn Fn(T, T) -> T>, vals: &[usize]) -> Res<()> {
	for &a in vals {
		let x = mk(a);
		same!("number", "number of an element made from it", num(x), a);
		for &b in vals {
			let y = mk(b);
			if let Some(add) = add { if let Some(s) = a.checked_add(b) { same!("sum", format!("{:?} + {:?}", x, y), num(add(x, y)), s); } }
			same!("order", format!("{:?} compared with {:?}", x, y), (x.cmp(&y), x.partial_cmp(&y), x == y, x != y), (a.cmp(&b), Some(a.cmp(&b)), a == b, a != b));
			ensure!("hash", a != b || hash(&x) == hash(&y), "equal elements {:?} hash differently", x);
		}
	}
	Ok(())
}
fn add<T: Add<Output = T>>(a: T, b: T) -> T { a + b }
pub struct Types { pub windows: u64, pub values: usize }
impl Model for Types {
	type S = u32;
	fn inits(&self) -> usize { 3 * self.windows as usize + 1 + 2 }
	fn describe_init(&self, i: usize) -> String {
		match i {
			0 => "sums, comparisons and hashes of elements".to_string(),
			1 => "all values are drawn".to_string(),
			i => { let w = window(i - 2, self.windows); format!("elements drawn from sources giving {:#x} to {:#x} ({})", w[0], w[w.len() - 1], w.len()) }
		}
	}
	fn init(&self, i: usize) -> Res<u32> {
		let (s, t) = (|x: GenSmall| x.0, |x: Gen10k| x.0);
		if i == 0 {
			let mut vals: Vec<usize> = (0..self.values).collect();
			for b in 0..64 { for d in 0..3 { vals.push((1usize << b).wrapping_add(d).wrapping_sub(1)); } }
			vals.extend([9_999, 10_000, 10_001, 99, 100, 101, usize::max_value()].iter());
			numbers(&GenSmall::from, &s, Some(&add), &vals)?;
			numbers(&Gen10k, &t, Some(&add), &vals)?;
			numbers(&GenSetElm::from, &|x: GenSetElm| (x.0).0, None, &vals)?;
			numbers(&Elm, &|x: Elm| x.0, None, &vals)?;
			return Ok(0)
		}
		let (mut a, mut b) = (BTreeSet::new(), BTreeSet::new());
		if i == 1 {
			for w in 0..3 * self.windows as usize + 1 { let v = window(w, self.windows); ranged(&s, 100, &v, &mut a)?; ranged(&t, 10_000, &v, &mut b)?; }
			same!("values", "number of different small elements drawn", a.len(), 100);
			same!("values", "number of different elements below 10000 drawn", b.len(), 10_000);
			return Ok(1)
		}
		let v = window(i - 2, self.windows);
		ranged(&s, 100, &v, &mut a)?;
		ranged(&t, 10_000, &v, &mut b)?;
		// elements of sets are whole random numbers: different numbers, different elements
		let v: BTreeSet<u64> = v.into_iter().collect();
		let e: HashSet<GenSetElm> = v.iter().map(|v| drawn(*v)).collect();
		same!("distinct", "number of different set elements drawn from different random numbers", e.len(), v.len());
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
pub fn c27(th: bool) -> Vec<Part> {
	vec![bfs_part("elements", 300, Types { windows: if th { 256 } else { 16 }, values: if th { 1500 } else { 300 } })]
}
