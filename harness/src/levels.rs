//! C17: the level generators over all outputs of the random source, in windows.
use crate::mc::*;
use iodyn::level_tree::gen_branch_level;
use iodyn::trees::{Level, NegBin};
use rand::{Rand, Rng};

/// A source whose draws are scripted: each draw has `w` enumerated bits, at its low or at its
/// high end, and the rest filled with a pattern.
struct Script { w: u32, high: bool, fill: u64, bits: u64, n: u32, used: u32, over: bool }
impl Script {
	fn value(&mut self, width: u32) -> u64 {
		let w = self.w.min(width);
		if self.used + w > self.n { self.over = true; self.used += w; if self.used > self.n + 4096 { panic!("MC-TAIL") } return if self.used & 1 == 1 { 0 } else { u64::max_value() } }
		let v = (self.bits >> self.used) & mask(w);
		self.used += w;
		let rest = if w >= 64 { 0 } else { self.fill << w };
		let lo = v | rest; // low end enumerated
		let x = if self.high { reverse(lo, width) } else { lo };
		x & mask(width)
	}
}
fn mask(w: u32) -> u64 { if w >= 64 { u64::max_value() } else { (1 << w) - 1 } }
fn reverse(x: u64, width: u32) -> u64 { let mut r = 0; for i in 0..width { if x >> i & 1 == 1 { r |= 1 << (width - 1 - i) } } r }
impl Rng for Script {
	fn next_u32(&mut self) -> u32 { self.value(32) as u32 }
	fn next_u64(&mut self) -> u64 { self.value(64) }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Gen { Branch, Neg }
fn level(g: Gen, s: &mut Script) -> u32 {
	match g { Gen::Branch => gen_branch_level(s), Gen::Neg => NegBin::rand(s).0 as u32 }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Conv { w: u32, high: bool, ones: bool }
/// Some conventions of turning random bits into a level: bits per draw, which end is used first,
/// and which bit value continues to the next level.
fn convs(n: u32) -> Vec<Conv> {
	let mut v = vec![];
	for &w in &[n, 8, 1] { for &high in &[false, true] { for &ones in &[false, true] { v.push(Conv { w: w, high: high, ones: ones }); } } }
	v
}
const FILLS: [u64; 8] = [0, !0, 0x5555_5555_5555_5555, 0xaaaa_aaaa_aaaa_aaaa, 1, 1 << 40, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210];
/// all 2^n values of the window; the exact histogram must be geometric
fn histogram(g: Gen, c: Conv, n: u32, fill: u64) -> Res<()> {
	let mut h = [0u64; 65];
	let mut rest = 0u64;
	for b in 0..1u64 << n {
		let mut s = Script { w: c.w, high: c.high, fill: fill, bits: b, n: n, used: 0, over: false };
		let l = level(g, &mut s);
		ensure!("range", l >= 1 && l <= 64, "{:?} gives level {} for a random source producing {:#x} (fill {:#x}, {:?})", g, l, b, fill, c);
		if s.over { rest += 1 } else { h[l as usize] += 1 }
	}
	for k in 1..n + 1 {
		ensure!("distribution", h[k as usize] == 1 << (n - k), "{:?}: level {} occurs for {} of the 2^{} equally likely inputs, must be for {} (fill {:#x}, {:?})", g, k, h[k as usize], n, 1u64 << (n - k), fill, c);
	}
	let above: u64 = h[n as usize + 1..].iter().sum::<u64>() + rest;
	same!("distribution", "inputs giving a higher level", above, 1);
	Ok(())
}
pub struct Levels { pub bits: u32 }
impl Levels {
	fn conv(&self, g: Gen) -> Option<Conv> {
		convs(16).into_iter().find(|&c| no_panic(|| FILLS[2..4].iter().all(|&f| histogram(g, c, if c.w == 1 { 16 } else { 16 }, f).is_ok())).unwrap_or(false))
	}
}
impl Model for Levels {
	type S = u32;
	// per generator: range over one-, two- and three-bit patterns; windows; deep windows
	fn inits(&self) -> usize { 2 * (2 + FILLS.len() + 64) }
	fn describe_init(&self, i: usize) -> String {
		let (g, j) = (if i % 2 == 0 { "gen_branch_level" } else { "NegBin::rand" }, i / 2);
		match j {
			0 => format!("{}: all 64-bit outputs with at most 3 bits set or at most 3 bits clear", g),
			1 => format!("{}: which end of the random bits decides", g),
			j if j < 2 + FILLS.len() => format!("{}: all 2^{} values of the deciding bits, the other bits {:#x}", g, self.bits, FILLS[j - 2]),
			j => format!("{}: all values of up to {} bits after {} bits that do not end the level", g, self.bits.min(16), j - 2 - FILLS.len()),
		}
	}
	fn init(&self, i: usize) -> Res<u32> {
		let g = if i % 2 == 0 { Gen::Branch } else { Gen::Neg };
		let j = i / 2;
		if j == 0 {
			let mut vals = vec![0u64];
			for a in 0..64 { for b in 0..64 { for c in 0..64 { vals.push(1 << a | 1 << b | 1 << c); } } }
			for v in vals { for &v in &[v, !v] {
				let mut s = Script { w: 64, high: false, fill: 0, bits: v, n: 64, used: 0, over: false };
				let l = level(g, &mut s);
				ensure!("range", l >= 1 && l <= 64, "{:?} gives level {} for the random number {:#x}", g, l, v);
			} }
			return Ok(i as u32)
		}
		let c = match self.conv(g) {
			Some(c) => c,
			None => {
				// report the histogram of the simplest convention
				for &f in &FILLS { histogram(g, convs(16)[0], 16, f)?; }
				return bad("distribution", format!("{:?}: no window of the random bits gives the distribution", g))
			}
		};
		if j == 1 { return Ok(i as u32) }
		if j < 2 + FILLS.len() {
			let n = self.bits;
			histogram(g, Conv { w: if c.w == 16 { n } else { c.w }, ..c }, if c.w == 8 { n / 8 * 8 } else { n }, FILLS[j - 2])?;
			return Ok(i as u32)
		}
		if c.w != 16 { return Ok(i as u32) }
		// single draw: levels above the window. `skip` bits that do not end the level come first.
		let skip = (j - 2 - FILLS.len()) as u32;
		let n = self.bits.min(16).min(64 - skip);
		for &f in &FILLS {
			let mut h = [0u64; 65];
			for b in 0..1u64 << n {
				let rest = if skip + n >= 64 { 0 } else { f << (skip + n) };
				let v = (if c.ones { mask(skip) } else { 0 }) | b << skip | rest;
				let mut s = Script { w: 64, high: c.high, fill: 0, bits: v, n: 64, used: 0, over: false };
				h[level(g, &mut s) as usize] += 1;
			}
			for k in 1..64u32 {
				let want = if k <= skip { 0 } else if k - skip > n { continue } else { 1u64 << (n - (k - skip)) };
				ensure!("distribution", h[k as usize] == want, "{:?}: after {} deciding bits that do not end the level, level {} occurs for {} of 2^{} equally likely inputs, must be for {}", g, skip, k, h[k as usize], n, want);
			}
			same!("distribution", "inputs giving some level", h.iter().sum::<u64>(), 1 << n);
		}
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
/// `inc_level` takes its bits from the thread's generator, which cannot be scripted: this only
/// looks for gross departures (each bound is missed with probability below 1e-100).
pub struct IncLevel;
impl Model for IncLevel {
	type S = u32;
	fn inits(&self) -> usize { 1 }
	fn describe_init(&self, _: usize) -> String { "inc_level(), 400000 calls".to_string() }
	fn init(&self, _: usize) -> Res<u32> {
		let n = 400_000u64;
		let mut h = [0u64; 65];
		for _ in 0..n {
			let l = iodyn::inc_level();
			ensure!("inc_level", l >= 1 && l <= 64, "inc_level() returned {}", l);
			h[l as usize] += 1;
		}
		for k in 1..7 {
			let want = n >> k;
			ensure!("inc_level", h[k] > want / 2 && h[k] < want * 2, "inc_level() returned {} in {} of {} calls, about {} are expected", k, h[k], n, want);
		}
		ensure!("inc_level", h[9..].iter().sum::<u64>() > 300, "inc_level() returned a level above 8 in {} of {} calls", h[9..].iter().sum::<u64>(), n);
		Ok(0)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
/// C25: the level types as scales.  A state is a level; the transitions go up and down by one.
pub struct Scale;
fn scale<L: Level + std::fmt::Debug, F: Fn(L) -> u64>(l: L, num: &F, min: u64, max: u64) -> Res<()> {
	let n = num(l);
	ensure!("scale", L::l_min() <= l && l <= L::l_max(), "{:?} is outside the least and the greatest level", l);
	same!("scale", "least and greatest level", (num(L::l_min()), num(L::l_max())), (min, max));
	if n < max {
		same!("scale", format!("one above {:?}", l), num(l.l_inc()), n + 1);
		ensure!("scale", l.l_inc() > l && l < l.l_inc() && l.l_inc() != l && l.l_inc().l_dec() == l, "going up by one from {:?} and down again", l);
	}
	if n > min {
		same!("scale", format!("one below {:?}", l), num(l.l_dec()), n - 1);
		ensure!("scale", l.l_dec() < l && l > l.l_dec() && l.l_dec() != l && l.l_dec().l_inc() == l, "going down by one from {:?} and up again", l);
	}
	Ok(())
}
impl Model for Scale {
	/// machine words?, level
	type S = (bool, u64);
	// least and greatest one-byte level; least, powers of two and greatest machine word
	fn inits(&self) -> usize { 2 + 65 }
	fn describe_init(&self, i: usize) -> String { format!("{:?}", self.at(i)) }
	fn init(&self, i: usize) -> Res<(bool, u64)> { let s = self.at(i); self.check(s)?; Ok(s) }
	fn ops(&self, _: &(bool, u64)) -> usize { 2 }
	fn step(&self, s: &mut (bool, u64), op: usize, _: bool) -> Res<()> {
		let (wide, n) = *s;
		if wide {
			let l = n as usize;
			// windows of 512 around the starting points
			let to = if op == 0 { if n == u64::max_value() { return Ok(()) } l.l_inc() } else { if n == 0 { return Ok(()) } l.l_dec() } as u64;
			let near = |n: u64| n < 512 || u64::max_value() - n < 512 || (0..64).any(|b| n >= (1u64 << b) - (1u64 << b).min(256) && n - ((1u64 << b) - (1u64 << b).min(256)) < 512);
			if near(to) { s.1 = to }
		} else {
			let l = NegBin(n as u8);
			s.1 = if op == 0 { if n == 255 { return Ok(()) } l.l_inc().0 } else { if n == 0 { return Ok(()) } l.l_dec().0 } as u64;
		}
		self.check(*s)
	}
	fn describe(&self, s: &(bool, u64), op: usize) -> String { format!("go {} from {:?}", if op == 0 { "up" } else { "down" }, s) }
	fn fingerprint(&self, s: &(bool, u64)) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
impl Scale {
	fn at(&self, i: usize) -> (bool, u64) { match i { 0 => (false, 0), 1 => (false, 255), 2 => (true, u64::max_value()), i => (true, if i == 3 { 0 } else { 1u64 << (i - 3) }) } }
	fn check(&self, s: (bool, u64)) -> Res<()> {
		let (wide, n) = s;
		if wide {
			scale(n as usize, &|l: usize| l as u64, 0, u64::max_value())?;
			for b in 0..64 { let m = (1u64 << b) as usize; same!("scale", format!("comparing {} with {}", n, m), (n as usize).cmp(&m), n.cmp(&(m as u64))); }
		} else {
			scale(NegBin(n as u8), &|l: NegBin| l.0 as u64, 0, 255)?;
			for m in 0..256u64 {
				let (a, b) = (NegBin(n as u8), NegBin(m as u8));
				same!("scale", format!("comparing {:?} with {:?}", a, b), (a.cmp(&b), a.partial_cmp(&b), a == b), (n.cmp(&m), Some(n.cmp(&m)), n == m));
			}
		}
		Ok(())
	}
}
