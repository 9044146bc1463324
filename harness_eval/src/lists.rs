//! C19: the implementations of the push/pop/archive interface.
use crate::common::*;
use crate::mc::*;
use adapton::engine::*;
use eval::accum_lists::*;
use eval::interface::*;
use iodyn::archive_stack::AStack;
use iodyn::IRaz;
use std::fmt::Debug;
use std::marker::PhantomData;

pub trait Acc: IFaceSeq<u32> + IFaceNew + Clone + Debug + 'static {
	const NAME: &'static str;
	fn arch(self, l: u32, n: Option<Name>) -> Self;
}
macro_rules! acc { ($t:ty, $n:expr) => { impl Acc for $t { const NAME: &'static str = $n; fn arch(self, l: u32, n: Option<Name>) -> Self { IFaceArchive::archive(self, (l, n)) } } } }
acc!(List<u32>, "List");
acc!(RcList<u32>, "RcList");
acc!(VecList<u32>, "VecList");
acc!(RcVecList<u32>, "RcVecList");
acc!(AStack<u32, u32>, "AStack");
acc!(AStack<u32, ()>, "AStack without metadata");
acc!(IRaz<u32>, "IRaz");
acc!(Vec<u32>, "Vec");

fn drain<A: Acc>(a: &A) -> Res<Vec<u32>> {
	let mut a = a.clone();
	let mut v = vec![];
	loop {
		let (e, b) = a.seq_pop();
		a = b;
		match e { Some(e) => v.push(e), None => break }
		ensure!("drain", v.len() < 100_000, "seq_pop never ends");
	}
	let (e, b) = a.seq_pop();
	ensure!("drain", e.is_none(), "seq_pop gives an element after None");
	// still usable after it was emptied
	let (e, _) = b.seq_push(77).seq_pop();
	same!("drain", "pop after pushing to an emptied list", e, Some(77));
	v.reverse();
	Ok(v)
}
fn label(v: &[u32]) -> u32 { (0..).find(|i| !v.contains(i)).unwrap() }
fn describe(op: usize, bulk: usize) -> String {
	match op { 0 => "pop".to_string(), 1 if bulk > 1 => format!("push {} elements", bulk), 1 => "push".to_string(), 2 => "archive(1, None)".to_string(), 3 => "archive(1, fresh name)".to_string(), 4 => "archive(2, None)".to_string(), _ => "archive(3, fresh name)".to_string() }
}
fn apply<A: Acc>(a: A, v: &mut Vec<u32>, op: usize, next: &mut usize, bulk: usize) -> Res<A> {
	Ok(match op {
		0 => { let want = v.pop(); let (e, a) = a.seq_pop(); same!("pop", "seq_pop", e, want); a }
		1 if bulk > 1 => { let mut a = a; for i in 0..bulk as u32 { a = a.seq_push(i); v.push(i); } a }
		1 => { let e = label(v); v.push(e); a.seq_push(e) }
		2 => a.arch(1, None),
		4 => a.arch(2, None),
		n => { *next += 1; a.arch(if n == 3 { 1 } else { 3 }, Some(name_of_usize(*next))) }
	})
}

/// every reachable state (non-incremental engine), earlier copies compared after each step
pub struct ListModel<A> { pub elems: usize, pub archives: usize, pub bulk: usize, pub ops: usize, pub depth: usize, pub kind: PhantomData<fn() -> A> }
#[derive(Clone)]
pub struct LS<A> { imp: A, v: Vec<u32>, archives: usize, names: usize }
impl<A: Acc> ListModel<A> {
	fn list(&self, s: &LS<A>) -> Vec<usize> {
		let mut o = vec![0];
		if s.v.len() < self.elems { o.push(1) }
		if s.archives < self.archives { o.extend(2..self.ops); }
		o
	}
}
impl<A: Acc> Model for ListModel<A> {
	type S = LS<A>;
	fn inits(&self) -> usize { 1 }
	fn init(&self, _: usize) -> Res<LS<A>> {
		let s = LS { imp: A::new(), v: vec![], archives: 0, names: 0 };
		same!("new", "content of a new list", drain(&s.imp)?, vec![]);
		Ok(s)
	}
	fn ops(&self, s: &LS<A>) -> usize { self.list(s).len() }
	fn step(&self, s: &mut LS<A>, op: usize, check: bool) -> Res<()> {
		let op = self.list(s)[op];
		let kept = s.imp.clone();
		let before = s.v.clone();
		if op > 1 { s.archives += 1; }
		s.imp = apply(s.imp.clone(), &mut s.v, op, &mut s.names, self.bulk)?;
		if check {
			same!("content", format!("content of the {}", A::NAME), drain(&s.imp)?, s.v);
			same!("copy", format!("content of a copy of the {} made before", A::NAME), drain(&kept)?, before);
		}
		Ok(())
	}
	fn fingerprint(&self, s: &LS<A>) -> u128 { let mut f = Fp::new(); f.dbg(&s.imp).dbg(&s.v).dbg(&s.archives).dbg(&s.names); f.end() }
	fn describe_init(&self, _: usize) -> String { format!("new {}", A::NAME) }
	fn describe(&self, s: &LS<A>, op: usize) -> String { if self.bulk > 1 { format!("{} on {} elements", describe(self.list(s)[op], self.bulk), s.v.len()) } else { format!("{} on {:?}", describe(self.list(s)[op], self.bulk), s.v) } }
	fn max_depth(&self) -> usize { self.depth }
}

/// every history up to a length on the incremental engine; all intermediate versions stay valid
/// (every name is used once)
pub struct ListHistories<A> { pub depth: usize, pub ops: usize, pub kind: PhantomData<fn() -> A> }
impl<A: Acc> Scenario for ListHistories<A> {
	fn run(&self, ch: &mut Chooser) -> Res<()> {
		start_engine(true);
		let mut a = A::new();
		let mut v = vec![];
		let mut next = 0;
		let mut versions: Vec<(A, Vec<u32>)> = vec![];
		ch.note(|| format!("new {}", A::NAME));
		for _ in 0..self.depth {
			let op = ch.choose(self.ops + 1);
			if op == 0 { break }
			let op = op - 1;
			ch.note(|| format!("{} on {:?}", describe(op, 1), v));
			versions.push((a.clone(), v.clone()));
			a = apply(a, &mut v, op, &mut next, 1)?;
		}
		same!("content", format!("content of the {}", A::NAME), drain(&a)?, v);
		for (a, v) in &versions { same!("copy", format!("content of an earlier version of the {}", A::NAME), drain(a)?, *v); }
		let mut f = Fp::new(); f.dbg(&v).dbg(&next).dbg(&versions.len()); ch.state(f.end());
		Ok(())
	}
}
pub fn c19(th: bool) -> Vec<Part> {
	fn parts<A: Acc>(v: &mut Vec<Part>, th: bool) {
		let q = |a: usize, b: usize| if th { b } else { a };
		v.push(bfs_part(&format!("reach/{}", A::NAME), q(60, 300) as u64, ListModel::<A> { elems: q(5, 6), archives: q(5, 7), bulk: 1, ops: 6, depth: usize::max_value(), kind: PhantomData }));
		v.push(bfs_part(&format!("bulk/{}", A::NAME), q(60, 200) as u64, ListModel::<A> { elems: 2000, archives: 4, bulk: 300, ops: 4, depth: q(8, 11), kind: PhantomData }));
		v.push(dfs_part(&format!("histories/{}", A::NAME), q(60, 300) as u64, ListHistories::<A> { depth: q(9, 11), ops: 4, kind: PhantomData }));
	}
	let mut v = vec![];
	parts::<List<u32>>(&mut v, th);
	parts::<RcList<u32>>(&mut v, th);
	parts::<VecList<u32>>(&mut v, th);
	parts::<RcVecList<u32>>(&mut v, th);
	parts::<AStack<u32, u32>>(&mut v, th);
	parts::<AStack<u32, ()>>(&mut v, th);
	parts::<IRaz<u32>>(&mut v, th);
	parts::<Vec<u32>>(&mut v, th);
	v
}
