//! C10 conversion of stacks to sequences, C11 archive stack, C12 cons stack.
use crate::common::*;
use crate::mc::*;
use crate::raz_model::*;
use adapton::engine::*;
use iodyn::archive_stack::{AStack, AtHead, AtTail};
use iodyn::memo::{MemoFrom, MemoInto};
use iodyn::raz::RazTree;
use iodyn::raz_meta::{Count, Names};
use iodyn::stack::{Head, Stack};

// ---------------------------------------------------------------- C11

/// BFS over archive stacks.  Reference: a list of items, nearest the top last.
pub struct AStackModel { pub max_elems: usize, pub max_marks: usize, pub metas: Vec<u32>, pub names: Vec<bool>, pub dcg: bool, pub persist: bool, pub depth: usize, /// elements may be equal and names may occur twice
	pub dup: bool, /// more than 1: that many elements per push, and pops of as many
	pub bulk: usize }
#[derive(Clone)]
pub struct AS { imp: AStack<El, u32>, items: Vec<It> }
#[derive(Clone, Copy)]
enum AOp { Push(u16), Pop, PopMeta, Next, Archive(u32, u16, bool), Extend(bool, [u16; 2]), PushMany, PopMany }
impl AStackModel {
	fn list(&self, s: &AS) -> Vec<AOp> {
		let ne = elems(&s.items).len();
		let nm = s.items.len() - ne;
		let mut v = vec![AOp::Pop, AOp::PopMeta, AOp::Next];
		if self.bulk > 1 {
			v.push(AOp::PopMany);
			if ne + self.bulk <= self.max_elems { v.push(AOp::PushMany); }
		}
		let (new, new2) = if self.dup { (vec![0, 1], vec![[0, 0], [1, 0]]) } else { (vec![Self::fresh(s)], vec![Self::fresh2(s)]) };
		if ne < self.max_elems { for e in new { v.push(AOp::Push(e)) } }
		if ne + 2 <= self.max_elems { for e in new2 { v.push(AOp::Extend(false, e)); if !s.items.last().map(|i| i.is_e()).unwrap_or(false) { v.push(AOp::Extend(true, e)) } } }
		if nm < self.max_marks || !s.items.last().map(|i| i.is_e()).unwrap_or(false) {
			let names: Vec<u16> = if self.dup { vec![0, 1, 2] } else { self.names.iter().map(|&n| if n { Self::fresh_name(s) } else { 0 }).collect() };
			for &m in &self.metas { for &n in &names { v.push(AOp::Archive(m, n, false)); v.push(AOp::Archive(m, n, true)); } }
		}
		v
	}
	fn fresh(s: &AS) -> u16 { let u = elems(&s.items); (0..).find(|i| !u.contains(i)).unwrap() }
	fn fresh2(s: &AS) -> [u16; 2] { let u = elems(&s.items); let mut f = (0..).filter(|i| !u.contains(i)); [f.next().unwrap(), f.next().unwrap()] }
	fn fresh_name(s: &AS) -> u16 { let u = marks(&s.items); (1..).find(|i| !u.iter().any(|m| m.1 == *i)).unwrap() }
}
/// what is left of a stack whose active part was taken: exactly one archive is opened
fn top_mark(items: &[It]) -> Option<usize> { items.iter().rposition(|i| !i.is_e()) }
fn look_as(s: &AStack<El, u32>) -> (Vec<u16>, Vec<u16>, Vec<(Vec<u16>, Option<u32>, Option<Name>)>) {
	let all: Vec<u16> = s.clone().into_iter().take(10_000).map(|e| e.0).collect();
	let mut arcs = vec![];
	let mut c = s.clone();
	let mut n = 0;
	loop {
		let name = c.name();
		match c.next_archive() { None => break, Some((v, m)) => arcs.push((labels(&v), m, name)) }
		n += 1;
		if n > 10_000 { break }
	}
	(all, labels(s.active_data()), arcs)
}
pub fn check_as(s: &AStack<El, u32>, items: &[It]) -> Res<()> {
	let es = elems(items);
	let active = items.iter().rev().take_while(|i| i.is_e()).count();
	same!("is_empty", "is_empty", s.is_empty(), items.is_empty());
	same!("active_len", "active_len", s.active_len(), active);
	same!("active_data", "active_data", labels(s.active_data()), elems(&items[items.len() - active..]));
	same!("peek", "peek", s.peek().map(|e| e.0), es.last().cloned());
	let name = top_mark(items).and_then(|p| match items[p] { It::M(_, n) => nm(n), _ => None });
	same!("name", "name", s.name(), name);
	let (all, _, arcs) = look_as(s);
	same!("iter", "elements from the top", all, es.iter().rev().cloned().collect::<Vec<_>>());
	// archives from the top
	let mut want = vec![];
	let mut rest = items.to_vec();
	while !rest.is_empty() {
		match top_mark(&rest) {
			None => { want.push((elems(&rest), None, None)); rest.clear(); }
			Some(p) => {
				let (l, n) = match rest[p] { It::M(l, n) => (l, n), _ => unreachable!() };
				want.push((elems(&rest[p + 1..]), Some(l), nm(n)));
				rest.truncate(p);
			}
		}
	}
	same!("archives", "active parts, metadata and names from the top", arcs, want);
	Ok(())
}
impl Model for AStackModel {
	type S = AS;
	fn inits(&self) -> usize { 3 }
	fn describe_init(&self, i: usize) -> String { ["AStack::new()", "AStack::with_capacity(4)", "From<Vec>"][i].to_string() }
	fn reset(&self) { if self.dcg { manage::init_dcg(); } }
	fn init(&self, i: usize) -> Res<AS> {
		let s = AS { imp: if i == 1 { AStack::with_capacity(4) } else { AStack::new() }, items: vec![] };
		check_as(&s.imp, &s.items)?;
		if i == 2 {
			// the conversion is only offered for unit metadata: checked here, once
			for n in 0..4u16 {
				let v: Vec<El> = (0..n).map(El).collect();
				let mut a: AStack<El, ()> = AStack::from(v.clone());
				same!("from-vec", "active data of a converted vector", a.active_data().clone(), v);
				same!("from-vec", "archived part of a converted vector", a.name(), None);
				let mut back = vec![];
				while let Some(e) = a.pop() { back.insert(0, e); }
				same!("from-vec", "elements of a converted vector", labels(&back), labels(&v));
			}
		}
		Ok(s)
	}
	fn ops(&self, s: &AS) -> usize { self.list(s).len() }
	fn max_depth(&self) -> usize { self.depth }
	fn describe(&self, s: &AS, op: usize) -> String {
		format!("{}   [before: {:?}]", match self.list(s)[op] {
			AOp::Push(e) => format!("push({})", e), AOp::Pop => "pop()".to_string(), AOp::PopMeta => "pop_meta()".to_string(), AOp::Next => "next_archive()".to_string(),
			AOp::PushMany => format!("extend with {} elements", self.bulk), AOp::PopMany => format!("pop() x{}", self.bulk),
			AOp::Extend(r, e) => format!("extend{}({:?})", if r { "_rev" } else { "" }, e),
			AOp::Archive(m, n, c) => format!("archive{}({}, {})", if c { "_with_capacity" } else { "" }, if n != 0 { format!("#{}", n) } else { "None".to_string() }, m),
		}, s.items)
	}
	fn fingerprint(&self, s: &AS) -> u128 {
		let mut fp = Fp::new();
		fp.dbg(&s.imp).dbg(&s.items.iter().map(|i| match *i { It::E(_) if !self.dup => It::E(0), m => m }).collect::<Vec<_>>());
		fp.end()
	}
	fn step(&self, s: &mut AS, op: usize, check: bool) -> Res<()> {
		let op = self.list(s)[op];
		let kept = if check && self.persist { Some((s.clone(), look_as(&s.imp))) } else { None };
		match op {
			AOp::PushMany => {
				let f = Self::fresh(s).max(s.items.iter().map(|i| match *i { It::E(e) => e + 1, _ => 0 }).max().unwrap_or(0));
				let v: Vec<El> = (0..self.bulk as u16).map(|i| El(f + i)).collect();
				s.imp.extend(&v);
				for e in v { s.items.push(It::E(e.0)); }
			}
			AOp::PopMany => for _ in 0..self.bulk {
				while s.items.last().map_or(false, |i| !i.is_e()) { s.items.pop(); }
				same!("pop", "pop", s.imp.pop().map(|e| e.0), s.items.pop().map(|i| match i { It::E(e) => e, _ => unreachable!() }));
			},
			AOp::Push(e) => { s.imp.push(El(e)); s.items.push(It::E(e)); }
			AOp::Extend(rev, [a, b]) => {
				if rev { s.imp.extend_rev(&[El(b), El(a)]) } else { s.imp.extend(&[El(a), El(b)]) }
				s.items.push(It::E(a)); s.items.push(It::E(b));
			}
			AOp::Pop | AOp::PopMeta => {
				let want = match s.items.last().cloned() {
					None => None,
					Some(It::E(e)) => { s.items.pop(); Some((e, None)) }
					Some(It::M(l, _)) => {
						s.items.pop();
						match s.items.pop() { Some(It::E(e)) => Some((e, Some(l))), _ => unreachable!() }
					}
				};
				match op {
					AOp::Pop => same!("pop", "pop", s.imp.pop().map(|e| e.0), want.map(|w| w.0)),
					_ => same!("pop_meta", "pop_meta", s.imp.pop_meta().map(|(e, m)| (e.0, m)), want),
				}
			}
			AOp::Next => {
				let want = if s.items.is_empty() { None } else {
					match top_mark(&s.items) {
						None => { let v = elems(&s.items); s.items.clear(); Some((v, None)) }
						Some(p) => {
							let v = elems(&s.items[p + 1..]);
							let l = match s.items[p] { It::M(l, _) => l, _ => unreachable!() };
							s.items.truncate(p);
							Some((v, Some(l)))
						}
					}
				};
				same!("next_archive", "next_archive", s.imp.next_archive().map(|(v, m)| (labels(&v), m)), want);
			}
			AOp::Archive(m, n, cap) => {
				let did = if cap { s.imp.archive_with_capacity(nm(n), m, 7) } else { s.imp.archive(nm(n), m) };
				let can = s.items.last().map(|i| i.is_e()).unwrap_or(false);
				same!("archive", "whether anything was archived", did, can);
				if can { s.items.push(It::M(m, n)); }
			}
		}
		if check {
			if self.persist {
				let (k, before) = kept.unwrap();
				let mut c = s.imp.clone();
				c.push(El(8000)); c.archive(None, 7); c.pop(); c.pop(); c.next_archive();
				drop(c);
				same!("original-changed", "the original stack after operations on its clone", look_as(&k.imp), before);
			} else { check_as(&s.imp, &s.items)?; }
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C12

/// BFS over families of versions of a cons stack.
pub struct StackModel { pub versions: usize, pub dcg: bool, pub names: Vec<bool>, pub reuse_names: bool, pub persist: bool }
#[derive(Clone)]
pub struct SV { imp: Vec<Stack<El>>, model: Vec<Vec<(u16, u16)>>, next: u16 } // (name id, element), top first
#[derive(Clone, Copy)]
enum SOp { Push(usize, bool, bool), Pull(usize, bool) }
impl StackModel {
	fn list(&self, s: &SV) -> Vec<SOp> {
		let mut v = vec![];
		if s.imp.len() >= self.versions { return v }
		for i in 0..s.imp.len() {
			for &h in &[false, true] {
				for &n in &self.names { v.push(SOp::Push(i, n, h)); }
				v.push(SOp::Pull(i, h));
			}
		}
		v
	}
}
fn look_stack(s: &Stack<El>) -> (Vec<(u16, Option<Name>)>, Option<Name>, bool) {
	let mut it = s.iter();
	let mut v = vec![];
	for _ in 0..1000 { let n = it.name(); match it.next() { None => break, Some(e) => v.push((e.0, n)) } }
	(v, s.name(), s.is_empty())
}
fn check_stack(s: &Stack<El>, m: &[(u16, u16)], what: &str) -> Res<()> {
	same!("is_empty", format!("is_empty of {}", what), s.is_empty(), m.is_empty());
	same!("peek", format!("peek of {}", what), s.peek().map(|e| e.0), m.first().map(|x| x.1));
	same!("name", format!("name of {}", what), s.name(), m.first().and_then(|x| nm(x.0)));
	let got: Vec<u16> = s.iter().take(1000).map(|e| e.0).collect();
	same!("iter", format!("elements of {}", what), got, m.iter().map(|x| x.1).collect::<Vec<_>>());
	let mut it = s.iter();
	let mut names = vec![];
	for _ in 0..1000 { names.push(it.name()); if it.next().is_none() { break } }
	let mut want: Vec<Option<Name>> = m.iter().map(|x| nm(x.0)).collect();
	want.push(None);
	same!("iter-name", format!("names the iterator of {} reports", what), names, want);
	match s.0 {
		None => same!("head", "head of a non-empty stack", m.is_empty(), true),
		Some(ref h) => {
			ensure!("head", !m.is_empty(), "{} should be empty but has a head", what);
			same!("head-peek", format!("Head::peek of {}", what), h.peek().0, m[0].1);
			same!("head-name", format!("Head::name of {}", what), h.name(), nm(m[0].0));
			same!("head-iter", format!("Head::iter of {}", what), h.iter().take(1000).map(|e| e.0).collect::<Vec<_>>(), m.iter().map(|x| x.1).collect::<Vec<_>>());
			same!("head-pull", format!("Head::pull of {}", what), h.pull().map(|t| t.iter().take(1000).map(|e| e.0).collect::<Vec<_>>()),
				if m.len() == 1 { None } else { Some(m[1..].iter().map(|x| x.1).collect::<Vec<_>>()) });
		}
	}
	same!("pull", format!("pull of {}", what), s.pull().map(|t| t.iter().take(1000).map(|e| e.0).collect::<Vec<_>>()),
		if m.is_empty() { None } else { Some(m[1..].iter().map(|x| x.1).collect::<Vec<_>>()) });
	Ok(())
}
impl Model for StackModel {
	type S = SV;
	fn inits(&self) -> usize { 1 }
	fn describe_init(&self, _: usize) -> String { "Stack::new()".to_string() }
	fn reset(&self) { if self.dcg { manage::init_dcg(); } }
	fn init(&self, _: usize) -> Res<SV> {
		let s = SV { imp: vec![Stack::new()], model: vec![vec![]], next: 1 };
		check_stack(&s.imp[0], &[], "the new stack")?;
		Ok(s)
	}
	fn ops(&self, s: &SV) -> usize { self.list(s).len() }
	fn describe(&self, s: &SV, op: usize) -> String {
		match self.list(s)[op] {
			SOp::Push(i, n, h) => format!("v{} = {}push(v{}, {}, {})", s.imp.len(), if h { "Head::" } else { "" }, i, if n { format!("#{}", s.next) } else { "None".to_string() }, s.next),
			SOp::Pull(i, h) => format!("v{} = {}pull(v{})", s.imp.len(), if h { "Head::" } else { "" }, i),
		}
	}
	fn fingerprint(&self, s: &SV) -> u128 { let mut fp = Fp::new(); fp.dbg(&s.model).dbg(&s.imp); fp.end() }
	fn step(&self, s: &mut SV, op: usize, check: bool) -> Res<()> {
		let before: Vec<_> = if check && self.persist { s.imp.iter().map(look_stack).collect() } else { vec![] };
		match self.list(s)[op] {
			SOp::Push(i, named, head) => {
				let e = s.next;
				s.next += 1;
				let n = if named { if self.reuse_names { 1 } else { e } } else { 0 };
				let e = if self.reuse_names { 1 + e % 2 } else { e };
				let new = if head {
					Stack(Some(match s.imp[i].0 { None => Head::new(nm(n), El(e)), Some(ref h) => h.push(nm(n), El(e)) }))
				} else { s.imp[i].push(nm(n), El(e)) };
				let mut m = s.model[i].clone();
				m.insert(0, (n, e));
				s.imp.push(new);
				s.model.push(m);
			}
			SOp::Pull(i, head) => {
				let m = s.model[i].clone();
				let got = if head { s.imp[i].0.as_ref().map(|h| Stack(h.pull())) } else { s.imp[i].pull() };
				if !self.persist { same!("pull", "whether there is something to pull", got.is_some(), !m.is_empty()); }
				if let Some(g) = got { s.imp.push(g); s.model.push(m.get(1..).unwrap_or(&[]).to_vec()); }
			}
		}
		if check && self.persist {
			for (i, b) in before.iter().enumerate() { same!("original-changed", format!("version {} after an operation on some version", i), look_stack(&s.imp[i]), *b); }
		} else if check {
			for i in 0..s.imp.len() { check_stack(&s.imp[i], &s.model[i], &format!("version {}", i))?; }
			// equality follows the content for versions without names
			for i in 0..s.imp.len() { for j in 0..s.imp.len() {
				if s.model[i].iter().chain(s.model[j].iter()).all(|x| x.0 == 0) {
					same!("eq", format!("v{} == v{}", i, j), s.imp[i] == s.imp[j], s.model[i] == s.model[j]);
				}
			} }
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C10

/// All stacks (sizes, levels, names, empty or full active part) x both directions x kinds.
pub struct ConvModel { pub seqs: Vec<Vec<It>>, pub edit_depth: usize }
#[derive(Clone)]
pub struct CS { t: Option<RazTree<El, Count>>, items: Vec<It> }
/// what a stack with these items (bottom first; may end with a marker) must convert to
pub fn conv_expect(items: &[It], tail: bool) -> Vec<It> {
	let mut v = items.to_vec();
	while v.last().map(|i| !i.is_e()).unwrap_or(false) { v.pop(); }
	if !tail { v.reverse(); }
	v.into_iter().map(|i| i).collect()
}
/// a marker's name in a converted sequence is the name of the archive itself
pub fn to_items_plain(o: &[Obs]) -> Vec<It> {
	o.iter().map(|o| match *o { Obs::E(e) => It::E(e.0), Obs::M(l, ref n) => It::M(l, id_of_name(n)) }).collect()
}
pub fn mk_stack(items: &[It]) -> AStack<El, u32> {
	let mut s: AStack<El, u32> = AStack::new();
	for i in items { match *i { It::E(e) => s.push(El(e)), It::M(l, n) => { s.archive(nm(n), l); } } }
	s
}
fn convert<K: Kind>(items: &[It], tail: bool, into: bool) -> RazTree<El, K> {
	let s = mk_stack(items);
	if tail { let a = AtTail(s); if into { a.memo_into() } else { RazTree::memo_from(&a) } }
	else { let a = AtHead(s); if into { a.memo_into() } else { RazTree::memo_from(&a) } }
}
fn plain_shape(r: &RawShape) -> Shape {
	match *r {
		RawShape::Leaf(ref v) => Shape::Leaf(labels(v)),
		RawShape::Bin(ref l, lv, ref n, ref r) => Shape::Bin(Box::new(plain_shape(l)), lv, match to_items_plain(&[Obs::M(lv, n.clone())])[0] { It::M(_, i) => i, _ => unreachable!() }, Box::new(plain_shape(r))),
	}
}
impl ConvModel {
	fn check<K: Kind>(&self, t: &RazTree<El, K>, want: &[It]) -> Res<()> {
		same!("content", "the converted sequence", to_items_plain(&observe(t)), want);
		same!("is_empty", "emptiness of the converted sequence", t.is_empty(), want.is_empty());
		same!("canonical", "structure of the converted sequence", raw_shape(t).map(|s| plain_shape(&s)), canonical(want));
		let r = t.clone().fold_up(std::rc::Rc::new(|e: &El| vec![e.0]), std::rc::Rc::new(|mut a: Vec<u16>, b: Vec<u16>| { a.extend(b); a }));
		same!("fold_up", "fold over the converted sequence", r, if want.is_empty() { None } else { Some(elems(want)) });
		Ok(())
	}
}
impl Model for ConvModel {
	type S = CS;
	fn inits(&self) -> usize { self.seqs.len() * 4 }
	fn describe_init(&self, i: usize) -> String { format!("stack {:?} converted from its {}{}", self.seqs[i / 4], if i % 2 == 0 { "tail" } else { "head" }, if i % 4 > 1 { " (memo_into)" } else { "" }) }
	fn init(&self, i: usize) -> Res<CS> {
		let items = &self.seqs[i / 4];
		let (tail, into) = (i % 2 == 0, i % 4 > 1);
		let want = conv_expect(items, tail);
		let c = convert::<Count>(items, tail, into);
		self.check(&c, &want)?;
		let same: RazTree<El, Count> = c.memo_into();
		self.check(&same, &want)?;
		Count::check_meta(c.meta(), &want, &|| canonical(&want))?;
		let n = convert::<Names>(items, tail, into);
		self.check(&n, &want)?;
		let mut names: Vec<String> = n.meta().0.keys().map(|k| format!("{:?}", k)).collect();
		let mut wn: Vec<String> = marks(&want).iter().filter(|m| m.1 != 0).map(|m| format!("{:?}", nm(m.1).unwrap())).collect();
		names.sort(); wn.sort();
		same!("meta-names", "names in the metadata", names, wn);
		for m in marks(&want) { if m.1 != 0 {
			// each marker can be focused by its name
			let p = want.iter().position(|i| *i == It::M(m.0, m.1)).unwrap();
			match n.clone().focus(nm(m.1).unwrap()) {
				None => return bad("focus-name", format!("the converted sequence {:?} cannot be focused at #{}", want, m.1)),
				Some(r) => same!("focus-name", format!("elements around #{}", m.1), drain(&r)?, (elems(&want[..p]), elems(&want[p..]))),
			}
		} }
		self.check(&convert::<()>(items, tail, into), &want)?;
		// focusing anywhere finds every element on its side
		for k in 0..Count::n_foci(&want) {
			if let Some(p) = Count::expect(&want, k) {
				match Count::focus(c.clone(), &want, k) {
					None => return bad("focus", format!("{} on the converted {:?} is refused", Count::describe(&want, k), want)),
					Some(r) => same!("focus", format!("{} on the converted {:?}", Count::describe(&want, k), want), drain(&r)?, (elems(&want[..p]), elems(&want[p..]))),
				}
			}
		}
		Ok(CS { t: Some(c), items: want })
	}
	fn ops(&self, _: &CS) -> usize { 0 }
	fn step(&self, _: &mut CS, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &CS, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &CS) -> u128 { let mut fp = Fp::new(); fp.dbg(&s.t).dbg(&s.items); fp.end() }
}
/// all stacks: item lists as from `all_seqs`, with and without a final archive
pub fn all_stacks(groups: usize, size: usize, levels: &[u32], naming: &[u8]) -> Vec<Vec<It>> {
	let mut out: Vec<Vec<It>> = vec![vec![]];
	for g in 1..groups + 1 {
		for s in all_seqs(g..=g, size, levels, naming) {
			out.push(s.clone());
			let last = marks(&s).last().cloned();
			for &l in levels {
				let named = match last { None => naming[0] != 0, Some(m) => m.1 != 0 };
				let mut t = s.clone();
				t.push(It::M(l, if named { 60 } else { 0 }));
				out.push(t);
			}
		}
	}
	out
}

/// long cons stacks with patterns of names, at every pull
pub struct LongStack { pub max: usize, pub dcg: bool }
impl LongStack { fn named(&self, pattern: usize, i: usize) -> bool { match pattern { 0 => false, 1 => true, 2 => i % 2 == 0, 3 => i % 3 == 2, _ => i % 16 == 0 } } }
impl Model for LongStack {
	type S = u32;
	fn inits(&self) -> usize { 5 }
	fn reset(&self) { if self.dcg { manage::init_dcg(); } }
	fn describe_init(&self, i: usize) -> String { format!("stacks of up to {} elements, names in pattern {}{}", self.max, i, if self.dcg { ", incremental engine" } else { "" }) }
	fn init(&self, i: usize) -> Res<u32> {
		let (mut s, mut m) = (Stack::new(), vec![]);
		for k in 0..self.max {
			let n = if self.named(i, k) { k as u16 + 1 } else { 0 };
			s = s.push(nm(n), El(k as u16));
			m.insert(0, (n, k as u16));
			if k % 64 < 2 || k + 1 == self.max || self.max <= 100 { check_stack(&s, &m, &format!("the stack of {} elements", k + 1))?; }
		}
		let kept = s.clone();
		let mut t = s;
		for k in 0..self.max {
			same!("peek", "peek while pulling", (t.peek().map(|e| e.0), t.name()), (Some(m[k].1), nm(m[k].0)));
			t = match t.pull() { Some(t) => t, None => return bad("pull", format!("nothing to pull after {} of {} elements", k, self.max)) };
			if k % 64 < 2 || k + 1 == self.max || self.max <= 100 { check_stack(&t, &m[k + 1..], &format!("the stack pulled {} times", k + 1))?; }
		}
		ensure!("pull", t.is_empty() && t.pull().is_none(), "the stack of {} elements is not empty after as many pulls", self.max);
		check_stack(&kept, &m, "the stack as it was before the pulls")?;
		Ok(i as u32)
	}
	fn ops(&self, _: &u32) -> usize { 0 }
	fn step(&self, _: &mut u32, _: usize, _: bool) -> Res<()> { Ok(()) }
	fn describe(&self, _: &u32, _: usize) -> String { String::new() }
	fn fingerprint(&self, s: &u32) -> u128 { let mut f = Fp::new(); f.dbg(s); f.end() }
}
