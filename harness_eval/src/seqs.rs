//! C21: the test drivers, run with parts that record what is done with them.
use crate::common::*;
use crate::mc::*;
use eval::actions::*;
use eval::primitives::*;
use eval::test_build::{self, BuildTest};
use eval::test_seq::{EditComputeSequence, TestMResult, TestResult};
use rand::{Rng, StdRng};
use std::cell::RefCell;
use time::Duration;

#[derive(Clone, PartialEq, Eq, Debug)]
enum Ev { Create(u32), Edit(u32, u32), Compute(u32), Build(usize, usize, usize), Insert(u32, usize) }
thread_local! { static LOG: RefCell<Vec<Ev>> = RefCell::new(vec![]); static NEXT: RefCell<u32> = RefCell::new(0); }
fn log(e: Ev) { LOG.with(|l| l.borrow_mut().push(e)) }
fn next() -> u32 { NEXT.with(|n| { let mut n = n.borrow_mut(); *n += 1; *n }) }
fn start() { LOG.with(|l| l.borrow_mut().clear()); NEXT.with(|n| *n.borrow_mut() = 0); }
fn events() -> Vec<Ev> { LOG.with(|l| l.borrow_mut().drain(..).collect()) }

/// data which cannot be copied; every version has its own number
struct Data(u32);
struct C_;
impl Creator<Duration, Data> for C_ { fn create(&mut self, _r: &mut StdRng) -> (Duration, Data) { let n = next(); log(Ev::Create(n)); (Duration::nanoseconds(n as i64), Data(n)) } }
struct E_;
impl Editor<Duration, Data> for E_ { fn edit(&mut self, d: Data, _r: &mut StdRng) -> (Duration, Data) { let n = next(); log(Ev::Edit(d.0, n)); (Duration::nanoseconds(n as i64), Data(n)) } }
struct U_(usize);
impl Computor<Duration, Data> for U_ { fn compute(&mut self, d: &Data, _r: &mut StdRng) -> Duration { let n = next(); log(Ev::Compute(d.0)); Duration::nanoseconds(n as i64) } }
impl Computor<(Vec<Duration>, String), Data> for U_ { fn compute(&mut self, d: &Data, _r: &mut StdRng) -> (Vec<Duration>, String) { let n = next(); log(Ev::Compute(d.0)); ((0..self.0).map(|i| Duration::nanoseconds(n as i64 + 1000 * i as i64)).collect(), format!("{}", n)) } }
impl<G: Rng> CreateInc<G> for Data { fn inc_init(size: usize, dg: usize, ng: usize, _c: &G, _r: &mut StdRng) -> (Duration, Self) { let n = next(); log(Ev::Build(size, dg, ng)); (Duration::nanoseconds(n as i64), Data(n)) } }
impl EditInsert for Data { fn insert(self, b: usize, _r: &mut StdRng) -> (Duration, Self) { let n = next(); log(Ev::Insert(self.0, b)); (Duration::nanoseconds(n as i64), Data(n)) } }

pub struct Sequences { pub max: usize }
impl Scenario for Sequences {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start();
		let which = ch.choose(3);
		let n = ch.choose(self.max + 1);
		let ns = |d: &Duration| d.num_nanoseconds().unwrap();
		let mut r = rng(1);
		if which < 2 {
			let k = ch.choose(3);
			let mut t = EditComputeSequence { init: C_, edit: E_, comp: U_(k), changes: n };
			// create, compute, then edit, compute for every change; version numbers grow by two
			let mut want = vec![Ev::Create(1), Ev::Compute(1)];
			for i in 0..n as u32 { want.push(Ev::Edit(2 * i + 1, 2 * i + 3)); want.push(Ev::Compute(2 * i + 3)); }
			let edits: Vec<i64> = (0..n as i64 + 1).map(|i| 2 * i + 1).collect();
			let computes: Vec<i64> = (0..n as i64 + 1).map(|i| 2 * i + 2).collect();
			if which == 0 {
				ch.note(|| format!("EditComputeSequence with {} changes", n));
				let t: TestResult<Data> = t.test(&mut r);
				same!("sequence", "what the test did", events(), want);
				same!("sequence", "edit durations", t.edits.iter().map(ns).collect::<Vec<_>>(), edits);
				same!("sequence", "computation durations", t.computes.iter().map(ns).collect::<Vec<_>>(), computes);
				same!("sequence", "numbers of full durations", (t.full_edits.len(), t.full_computes.len()), (n + 1, n + 1));
			} else {
				ch.note(|| format!("EditComputeSequence with {} changes and {} durations per computation", n, k));
				let t: TestMResult<Data, String> = t.test(&mut r);
				same!("sequence", "what the test did", events(), want);
				same!("sequence", "edit durations", t.edits.iter().map(ns).collect::<Vec<_>>(), edits);
				same!("sequence", "computation durations", t.computes.iter().map(|v| v.iter().map(ns).collect::<Vec<_>>()).collect::<Vec<_>>(),
					computes.iter().map(|c| (0..k as i64).map(|i| c + 1000 * i).collect::<Vec<_>>()).collect::<Vec<_>>());
				same!("sequence", "numbers of full durations", (t.full_edits.len(), t.full_computes.len()), (n + 1, n + 1));
			}
		} else {
			let m = [2.0f32, 3.0, 10.0, 1.0, 1.5][ch.choose(5)];
			// how powers are rounded is not specified
			if (0..n as i32).any(|i| m.powi(i) as f64 != (m as f64).powi(i)) { return Ok(()) }
			let b = ch.choose(3);
			let (dg, ng) = (1 + ch.choose(2), 1 + ch.choose(2));
			ch.note(|| format!("BuildTest with {} steps of factor {}, batches of {}", n, m, b));
			let mut t = BuildTest { init: IncrementalInit { size: 99, datagauge: dg, namegauge: ng, coord: Coord::new() }, edit: BatchInsert(b), multiplier: m, count: n };
			let t: test_build::TestResult<Data> = t.test(&mut r);
			let mut want = vec![];
			for i in 0..n { want.push(Ev::Build(m.powi(i as i32) as usize, dg, ng)); want.push(Ev::Insert(2 * i as u32 + 1, b)); }
			same!("build", "what the test did", events(), want);
			same!("build", "build durations", t.build.iter().map(ns).collect::<Vec<_>>(), (0..n as i64).map(|i| 2 * i + 1).collect::<Vec<_>>());
			same!("build", "edit durations", t.edit.iter().map(ns).collect::<Vec<_>>(), (0..n as i64).map(|i| 2 * i + 2).collect::<Vec<_>>());
			same!("build", "numbers of full durations", (t.build_full.len(), t.edit_full.len()), (n, n));
		}
		let mut f = Fp::new(); f.dbg(&which).dbg(&n); ch.state(f.end());
		Ok(())
	}
}
pub fn parts(th: bool) -> Vec<Part> { vec![dfs_part("test-sequences", 60, Sequences { max: if th { 40 } else { 12 } })] }
