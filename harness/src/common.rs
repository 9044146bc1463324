//! Elements, items and reference ("boring") versions of sequences shared by all models.
use adapton::engine::*;
use iodyn::raz::{Raz, RazTree};
use iodyn::raz_meta::{Count, FirstLast, Names, Navigation, Position, RazMeta};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::hash::Hash;
use std::rc::Rc;

use crate::mc::*;

/// An element.  The library is generic in its elements, so `Debug` hides the label: two states
/// which differ only in how their (distinct) elements are numbered get the same fingerprint.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct El(pub u16);
impl fmt::Debug for El {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("_") }
}
impl rand::Rand for El {
	fn rand<R: rand::Rng>(rng: &mut R) -> Self { El(rng.next_u32() as u16) }
}

/// What a sequence consists of, in order.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub enum It {
	E(u16),
	/// level, name id (0: no name)
	M(u32, u16),
}
impl fmt::Debug for It {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match *self {
			It::E(e) => write!(f, "{}", e),
			It::M(l, 0) => write!(f, "|{}", l),
			It::M(l, n) => write!(f, "|{}#{}", l, n),
		}
	}
}
impl It {
	pub fn is_e(&self) -> bool { match *self { It::E(_) => true, _ => false } }
}
pub fn elems(v: &[It]) -> Vec<u16> { v.iter().filter_map(|i| match *i { It::E(e) => Some(e), _ => None }).collect() }
pub fn marks(v: &[It]) -> Vec<(u32, u16)> { v.iter().filter_map(|i| match *i { It::M(l, n) => Some((l, n)), _ => None }).collect() }
pub fn labels(v: &[El]) -> Vec<u16> { v.iter().map(|e| e.0).collect() }

thread_local! {
	static NAMES: RefCell<Vec<(Name, Name)>> = RefCell::new(vec![]);
	static PLAIN: RefCell<HashMap<Name, u16>> = RefCell::new(HashMap::new());
	static IDS: RefCell<HashMap<Name, u16>> = RefCell::new(HashMap::new());
}
/// names of several forms, as users make them
fn name_forms(id: usize) -> Name {
	match id % 4 {
		1 => name_of_usize(id),
		2 => name_of_string(format!("n{}", id)),
		3 => name_pair(name_of_usize(id), name_of_string("x".to_string())),
		_ => name_pair(name_of_string("y".to_string()), name_pair(name_unit(), name_of_isize(-(id as isize)))),
	}
}
fn with_names<R, F: FnOnce(&(Name, Name)) -> R>(id: u16, f: F) -> R {
	NAMES.with(|n| {
		let mut n = n.borrow_mut();
		while n.len() <= id as usize { let a = name_forms(n.len()); let b = name_pair(a.clone(), name_of_string("tree".to_string())); n.push((a, b)); }
		f(&n[id as usize])
	})
}
/// the name given to an archive
pub fn nm(id: u16) -> Option<Name> { if id == 0 { None } else { Some(with_names(id, |n| n.0.clone())) } }
/// the name a marker carries in an unfocused sequence
pub fn tree_nm(id: u16) -> Option<Name> { if id == 0 { None } else { Some(with_names(id, |n| n.1.clone())) } }
/// which archive's name this is
pub fn id_of_name(n: &Option<Name>) -> u16 {
	match *n {
		None => 0,
		Some(ref n) => {
			with_names(2000, |_| ());
			PLAIN.with(|d| {
				let mut d = d.borrow_mut();
				while d.len() < 2000 { let i = d.len() as u16; let m = with_names(i, |m| m.0.clone()); d.insert(m, i); }
				d.get(n).cloned().filter(|&i| i > 0).unwrap_or(UNKNOWN)
			})
		}
	}
}
pub const UNKNOWN: u16 = 60000;
pub fn id_of_tree_name(n: &Option<Name>, max: u16) -> u16 {
	match *n {
		None => 0,
		Some(ref n) => {
			with_names(max, |_| ());
			IDS.with(|d| {
				let mut d = d.borrow_mut();
				while d.len() < max as usize + 1 { let i = d.len() as u16; let m = with_names(i, |m| m.1.clone()); d.insert(m, i); }
				d.get(n).cloned().filter(|&i| i > 0 && i <= max).unwrap_or(UNKNOWN)
			})
		}
	}
}

/// Raw observation of a sequence's content, obtained from the library's own left-to-right fold.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Obs { E(El), M(u32, Option<Name>) }
pub fn observe<M: RazMeta<El> + 'static>(t: &RazTree<El, M>) -> Vec<Obs> {
	t.clone().fold_lr_meta(vec![], Rc::new(|mut v: Vec<Obs>, e: &El| { v.push(Obs::E(*e)); v }),
		Rc::new(|mut v: Vec<Obs>, (l, n): (u32, Option<Name>)| { v.push(Obs::M(l, n)); v }))
}
pub fn to_items(o: &[Obs], max_name: u16) -> Vec<It> {
	o.iter().map(|o| match *o { Obs::E(e) => It::E(e.0), Obs::M(l, ref n) => It::M(l, id_of_tree_name(n, max_name)) }).collect()
}

/// The tree structure, as the gauged fold exposes it.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Shape { Leaf(Vec<u16>), Bin(Box<Shape>, u32, u16, Box<Shape>) }
impl fmt::Debug for Shape {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match *self {
			Shape::Leaf(ref v) => write!(f, "{:?}", v),
			Shape::Bin(ref l, lv, n, ref r) => write!(f, "({:?} {}{} {:?})", l, lv, if n == 0 { "".to_string() } else { format!("#{}", n) }, r),
		}
	}
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum RawShape { Leaf(Vec<El>), Bin(Box<RawShape>, u32, Option<Name>, Box<RawShape>) }
pub fn raw_shape<M: RazMeta<El> + 'static>(t: &RazTree<El, M>) -> Option<RawShape> {
	t.clone().fold_up_gauged(Rc::new(|v: &Vec<El>| RawShape::Leaf(v.clone())),
		Rc::new(|l: RawShape, lv: u32, n: Option<Name>, r: RawShape| RawShape::Bin(Box::new(l), lv, n, Box::new(r))))
}
pub fn to_shape(r: &RawShape, max_name: u16) -> Shape {
	match *r {
		RawShape::Leaf(ref v) => Shape::Leaf(labels(v)),
		RawShape::Bin(ref l, lv, ref n, ref r) => Shape::Bin(Box::new(to_shape(l, max_name)), lv, id_of_tree_name(n, max_name), Box::new(to_shape(r, max_name))),
	}
}
/// The canonical structure: root = leftmost marker of the highest level (the left branch is
/// strictly lower than its parent, the right branch is not higher).
pub fn canonical(items: &[It]) -> Option<Shape> {
	if items.is_empty() { return None }
	let mut best: Option<(usize, u32, u16)> = None;
	for (i, it) in items.iter().enumerate() {
		if let It::M(l, n) = *it {
			if best.map(|(_, b, _)| l > b).unwrap_or(true) { best = Some((i, l, n)); }
		}
	}
	match best {
		None => Some(Shape::Leaf(elems(items))),
		Some((i, l, n)) => match (canonical(&items[..i]), canonical(&items[i + 1..])) {
			(Some(a), Some(b)) => Some(Shape::Bin(Box::new(a), l, n, Box::new(b))),
			(a, b) => a.or(b),
		},
	}
}
/// split at markers
pub fn groups(items: &[It]) -> Vec<Vec<u16>> {
	let mut g = vec![vec![]];
	for i in items { match *i { It::E(e) => g.last_mut().unwrap().push(e), It::M(..) => g.push(vec![]) } }
	g
}

/// The metadata kinds, with all ways to focus by them.
pub trait Kind: RazMeta<El> + 'static {
	const NAME: &'static str;
	fn n_foci(items: &[It]) -> usize;
	/// `Ok(None)`: must be refused. Otherwise the number of items to the left of the cursor.
	fn expect(items: &[It], k: usize) -> Option<usize>;
	fn focus(t: RazTree<El, Self>, items: &[It], k: usize) -> Option<Raz<El, Self>>;
	fn describe(items: &[It], k: usize) -> String;
	/// `shape`: the structure of the sequence
	fn check_meta(m: &Self, items: &[It], shape: &dyn Fn() -> Option<Shape>) -> Res<()>;
	/// whether `Debug` shows the labels of elements
	const LABELS: bool = false;
	/// the generic positions of both ends are the ones used above
	fn check_ends() -> bool;
}
/// index of the item position after exactly `i` elements (before a marker that is there)
pub fn after(items: &[It], i: usize) -> usize {
	if i == 0 { return 0 }
	let mut n = 0;
	for (p, it) in items.iter().enumerate() {
		if it.is_e() { n += 1; if n == i { return p + 1 } }
	}
	items.len()
}
fn count(items: &[It]) -> usize { items.iter().filter(|i| i.is_e()).count() }
// foci of Count: 0..=len, MAX, focus_left, then out of range: len+1, len+2, MAX-1, 2^32+len
impl Kind for Count {
	const NAME: &'static str = "Count";
	fn n_foci(items: &[It]) -> usize { count(items) + 1 + 2 + if items.is_empty() { 0 } else { 4 } }
	fn expect(items: &[It], k: usize) -> Option<usize> {
		let n = count(items);
		if k <= n { Some(after(items, k)) }
		else if k == n + 1 { Some(items.len()) }
		else if k == n + 2 { Some(0) }
		else { None }
	}
	fn focus(t: RazTree<El, Self>, items: &[It], k: usize) -> Option<Raz<El, Self>> {
		let n = count(items);
		if k <= n { t.focus(k) }
		else if k == n + 1 { t.focus(usize::max_value()) }
		else if k == n + 2 { Some(t.focus_left()) }
		else if k == n + 3 { t.focus(n + 1) }
		else if k == n + 4 { t.focus(n + 2) }
		else if k == n + 5 { t.focus(usize::max_value() - 1) }
		else { t.focus((1 << 32) + n) }
	}
	fn describe(items: &[It], k: usize) -> String {
		let n = count(items);
		if k <= n { format!("focus({})", k) }
		else if k == n + 1 { "focus(MAX)".to_string() }
		else if k == n + 2 { "focus_left()".to_string() }
		else if k == n + 3 { format!("focus({}) (out of range)", n + 1) }
		else if k == n + 4 { format!("focus({}) (out of range)", n + 2) }
		else if k == n + 5 { "focus(MAX-1) (out of range)".to_string() }
		else { format!("focus(2^32 + {}) (out of range)", n) }
	}
	fn check_meta(m: &Self, items: &[It], _shape: &dyn Fn() -> Option<Shape>) -> Res<()> {
		same!("meta-count", "element count in the metadata", m.0, count(items));
		Ok(())
	}
	fn check_ends() -> bool { usize::first() == 0 && usize::last() == usize::max_value() }
}
// foci of Names: Left, Right, focus_left, each name, an unknown name
fn ids(items: &[It]) -> Vec<u16> { let mut v: Vec<u16> = marks(items).iter().map(|m| m.1).filter(|&n| n != 0).collect(); v.dedup(); v }
impl Kind for Names {
	const NAME: &'static str = "Names";
	fn n_foci(items: &[It]) -> usize { 3 + ids(items).len() + if items.is_empty() { 0 } else { 1 } }
	fn expect(items: &[It], k: usize) -> Option<usize> {
		let ids = ids(items);
		match k {
			0 | 2 => Some(0),
			1 => Some(items.len()),
			k if k - 3 < ids.len() => items.iter().position(|i| match *i { It::M(_, n) => n == ids[k - 3], _ => false }),
			_ => None,
		}
	}
	fn focus(t: RazTree<El, Self>, items: &[It], k: usize) -> Option<Raz<El, Self>> {
		let ids = ids(items);
		match k {
			0 => t.focus(Position::Left),
			1 => t.focus(Position::Right),
			2 => Some(t.focus_left()),
			k if k - 3 < ids.len() => t.focus(tree_nm(ids[k - 3]).unwrap()),
			_ => t.focus(Position::Center(name_of_string("unknown".to_string()))),
		}
	}
	fn describe(items: &[It], k: usize) -> String {
		let ids = ids(items);
		match k {
			0 => "focus(Left)".to_string(),
			1 => "focus(Right)".to_string(),
			2 => "focus_left()".to_string(),
			k if k - 3 < ids.len() => format!("focus(name #{})", ids[k - 3]),
			_ => "focus(unknown name)".to_string(),
		}
	}
	fn check_meta(m: &Self, items: &[It], _shape: &dyn Fn() -> Option<Shape>) -> Res<()> {
		let mut want: Vec<String> = ids(items).iter().map(|&i| format!("{:?}", tree_nm(i).unwrap())).collect();
		let mut got: Vec<String> = m.0.keys().map(|k| format!("{:?}", k)).collect();
		want.sort(); got.sort();
		same!("meta-names", "names in the metadata", got, want);
		Ok(())
	}
	fn check_ends() -> bool { Position::<Name>::first() == Position::Left && Position::<Name>::last() == Position::Right }
}
impl Kind for () {
	const NAME: &'static str = "unit";
	fn n_foci(_items: &[It]) -> usize { 3 }
	fn expect(items: &[It], k: usize) -> Option<usize> { Some(if k == 1 { items.len() } else { 0 }) }
	fn focus(t: RazTree<El, Self>, _items: &[It], k: usize) -> Option<Raz<El, Self>> {
		match k { 0 => t.focus(Position::Left), 1 => t.focus(Position::Right), _ => Some(t.focus_left()) }
	}
	fn describe(_items: &[It], k: usize) -> String { ["focus(Left)", "focus(Right)", "focus_left()"][k].to_string() }
	fn check_meta(_m: &Self, _items: &[It], _shape: &dyn Fn() -> Option<Shape>) -> Res<()> { Ok(()) }
	fn check_ends() -> bool { Position::<()>::first() == Position::Left && Position::<()>::last() == Position::Right }
}

/// Metadata as a user may define it: it keeps everything that it is told, in order, and finds elements.
/// (The level and name given along with the topmost branch are not looked at.)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Trace { body: String, tag: String, at: Vec<u16> }
impl Trace {
	fn full(&self) -> String { format!("{}{}", self.body, self.tag) }
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Seek { First, Last, Before(u16), FromEnd(usize) }
impl FirstLast for Seek {
	fn first() -> Self { Seek::First }
	fn last() -> Self { Seek::Last }
}
thread_local! { static META_CALLS: RefCell<Option<Vec<u16>>> = RefCell::new(None); }
/// the elements for which user-defined metadata was made meanwhile
pub fn meta_calls<R, F: FnOnce() -> R>(f: F) -> (R, Vec<u16>) {
	META_CALLS.with(|c| *c.borrow_mut() = Some(vec![]));
	let r = f();
	(r, META_CALLS.with(|c| c.borrow_mut().take()).unwrap_or(vec![]))
}
fn tag(lev: u32, n: &Option<Name>) -> String { format!("@{}{:?}", lev, n) }
impl RazMeta<El> for Trace {
	type Index = Seek;
	fn from_none(lev: u32, n: Option<Name>) -> Self { Trace { body: "-".to_string(), tag: tag(lev, &n), at: vec![] } }
	fn from_vec(vec: &Vec<El>, lev: u32, n: Option<Name>) -> Self { META_CALLS.with(|c| if let Some(ref mut c) = *c.borrow_mut() { c.extend(vec.iter().map(|e| e.0)) }); Trace { body: format!("{:?}", labels(vec)), tag: tag(lev, &n), at: labels(vec) } }
	fn from_meta(l: &Self, r: &Self, lev: u32, n: Option<Name>) -> Self {
		let mut at = l.at.clone(); at.extend(r.at.iter().cloned());
		Trace { body: format!("({} {})", l.full(), r.full()), tag: tag(lev, &n), at: at }
	}
	fn navigate(l: &Self, r: &Self, index: &Seek) -> Navigation<Seek> {
		match *index {
			Seek::First => Navigation::Left(Seek::First),
			Seek::Last => Navigation::Right(Seek::Last),
			Seek::Before(e) => if l.at.contains(&e) { Navigation::Left(Seek::Before(e)) } else if r.at.contains(&e) { Navigation::Right(Seek::Before(e)) } else { Navigation::Nowhere },
			// this many elements are to be right of the cursor
			Seek::FromEnd(k) => if k < r.at.len() { Navigation::Right(Seek::FromEnd(k)) } else if k <= l.at.len() + r.at.len() { Navigation::Left(Seek::FromEnd(k - r.at.len())) } else { Navigation::Nowhere },
		}
	}
	fn split_vec<'a>(vec: &'a Vec<El>, index: &Seek) -> (&'a [El], &'a [El]) {
		match *index {
			Seek::First => vec.split_at(0),
			Seek::Last => vec.split_at(vec.len()),
			Seek::Before(e) => vec.split_at(vec.iter().position(|x| x.0 == e).expect("no such element")),
			Seek::FromEnd(k) => vec.split_at(vec.len() - k),
		}
	}
}
/// what the functions above give for a structure
fn trace_of(s: &Shape) -> (String, Vec<u16>) {
	match *s {
		Shape::Leaf(ref v) => (format!("{:?}", v), v.clone()),
		Shape::Bin(ref l, lv, n, ref r) => {
			let ((a, mut x), (b, y)) = (trace_of(l), trace_of(r));
			let t = tag(lv, &tree_nm(n));
			x.extend(y);
			(format!("({}{} {}{})", a, t, b, t), x)
		}
	}
}
impl Kind for Trace {
	const NAME: &'static str = "Trace";
	const LABELS: bool = true;
	// before each element, both ends, focus_left, an unknown element, each distance from the end, a distance beyond the start
	fn n_foci(items: &[It]) -> usize { if items.is_empty() { 3 } else { 2 * count(items) + 6 } }
	fn expect(items: &[It], k: usize) -> Option<usize> {
		let n = count(items);
		if k > n + 3 && k <= 2 * n + 4 { Some(after(items, n - (k - n - 4))) }
		else if k < n { items.iter().enumerate().filter(|i| i.1.is_e()).map(|i| i.0).nth(k) }
		else if k == n || k == n + 2 { Some(0) }
		else if k == n + 1 { Some(items.len()) }
		else { None }
	}
	fn focus(t: RazTree<El, Self>, items: &[It], k: usize) -> Option<Raz<El, Self>> {
		let n = count(items);
		// a mapped copy has other labels
		let at = t.meta().at.clone();
		if k < n { t.focus(Seek::Before(at[k])) }
		else if k == n { t.focus(Seek::First) }
		else if k == n + 1 { t.focus(Seek::Last) }
		else if k == n + 2 { Some(t.focus_left()) }
		else if k == n + 3 { t.focus(Seek::Before(50000)) }
		else { t.focus(Seek::FromEnd(k - n - 4)) }
	}
	fn describe(items: &[It], k: usize) -> String {
		let n = count(items);
		if k < n { format!("focus(before element number {})", k) }
		else if k > n + 3 { format!("focus({} from the end)", k - n - 4) }
		else { ["focus(first)", "focus(last)", "focus_left()", "focus(before an unknown element)"][k - n].to_string() }
	}
	fn check_meta(m: &Self, _items: &[It], shape: &dyn Fn() -> Option<Shape>) -> Res<()> {
		let (body, at) = match shape() { None => ("-".to_string(), vec![]), Some(s) => trace_of(&s) };
		same!("meta-trace", "user-defined metadata (branches, levels and names as they were handed over)", m.body, body);
		same!("meta-trace", "user-defined metadata (elements)", m.at, at);
		Ok(())
	}
	fn check_ends() -> bool { Seek::first() == Seek::First && Seek::last() == Seek::Last }
}

/// Debug text with the (unordered) contents of `Names` maps removed.
pub fn fp_dbg<T: fmt::Debug>(fp: &mut Fp, t: &T, strip_names: bool) {
	if !strip_names { fp.dbg(t); return }
	let s = format!("{:?}", t);
	let mut rest: &str = &s;
	while let Some(i) = rest.find("Names({") {
		fp.bytes(rest[..i].as_bytes());
		match rest[i..].find("})") { Some(j) => rest = &rest[i + j + 2..], None => { rest = ""; } }
	}
	fp.bytes(rest.as_bytes());
}

/// Left-to-right drains of a clone: (what is left of the cursor in order, what is right of it)
pub fn drain<M: RazMeta<El> + 'static>(r: &Raz<El, M>) -> Res<(Vec<u16>, Vec<u16>)> {
	let limit = 100_000;
	let mut a = r.clone();
	let mut l = vec![];
	while let Some(e) = a.pop_left() {
		l.push(e.0);
		ensure!("drain", l.len() < limit, "pop_left never ends");
	}
	ensure!("drain", a.pop_left().is_none() && a.peek_left().is_none(), "pop_left/peek_left give an element after returning None");
	let mut b = r.clone();
	let mut v = vec![];
	while let Some(e) = b.pop_right() {
		v.push(e.0);
		ensure!("drain", v.len() < limit, "pop_right never ends");
	}
	ensure!("drain", b.pop_right().is_none() && b.peek_right().is_none(), "pop_right/peek_right give an element after returning None");
	l.reverse();
	Ok((l, v))
}

fn sorted(v: &[u16]) -> Vec<u16> { let mut v = v.to_vec(); v.sort(); v }
/// All computations over an unfocused sequence against the plain list of items.
pub fn check_folds<M: RazMeta<El> + 'static>(t: &RazTree<El, M>, items: &[It], max_name: u16) -> Res<()> {
	let es = elems(items);
	let g = groups(items);
	let ms = marks(items);
	// fold_up with concatenation: associative, not commutative; counts the user calls
	let seen = Rc::new(RefCell::new(vec![]));
	let s2 = seen.clone();
	let r = t.clone().fold_up(Rc::new(move |e: &El| { s2.borrow_mut().push(e.0); vec![e.0] }), Rc::new(|mut a: Vec<u16>, b: Vec<u16>| { a.extend(b); a }));
	same!("fold_up", "fold_up with concatenation", r, if es.is_empty() { None } else { Some(es.clone()) });
	same!("fold_up-calls", "elements fold_up called init on, in any order", sorted(&seen.borrow()), sorted(&es));
	// fold_up_nl: concatenation with markers
	let r = t.clone().fold_up_nl(Rc::new(|e: &El| vec![It::E(e.0)]), Rc::new(|mut a: Vec<It>, b: Vec<It>| { a.extend(b); a }),
		Rc::new(move |mut a: Vec<It>, l: u32, n: Option<Name>, b: Vec<It>| { a.push(It::M(l, id_of_tree_name(&n, max_name))); a.extend(b); a }));
	same!("fold_up_nl", "fold_up_nl with concatenation", r, if items.is_empty() { None } else { Some(items.to_vec()) });
	// fold_up_gauged: subsequences
	#[derive(Clone, PartialEq, Eq, Hash, Debug)]
	struct G(Vec<Vec<u16>>, Vec<(u32, u16)>);
	let r = t.clone().fold_up_gauged(Rc::new(|v: &Vec<El>| G(vec![labels(v)], vec![])),
		Rc::new(move |mut a: G, l: u32, n: Option<Name>, b: G| { a.0.extend(b.0); a.1.push((l, id_of_tree_name(&n, max_name))); a.1.extend(b.1); a }));
	same!("fold_up_gauged", "fold_up_gauged subsequences and markers", r, if items.is_empty() { None } else { Some(G(g.clone(), ms.clone())) });
	// left to right
	let r = t.clone().fold_lr(vec![9999u16], Rc::new(|mut a: Vec<u16>, e: &El| { a.push(e.0); a }));
	let mut w = vec![9999]; w.extend(es.iter().cloned());
	same!("fold_lr", "fold_lr", r, w);
	let r = t.clone().fold_lr_meta(vec![It::E(9999)], Rc::new(|mut a: Vec<It>, e: &El| { a.push(It::E(e.0)); a }),
		Rc::new(move |mut a: Vec<It>, (l, n): (u32, Option<Name>)| { a.push(It::M(l, id_of_tree_name(&n, max_name))); a }));
	let mut w = vec![It::E(9999)]; w.extend(items.iter().cloned());
	same!("fold_lr_meta", "fold_lr_meta", r, w);
	// fold_lr_archive: end of each subsequence gets the name of the marker before it
	#[derive(Clone, PartialEq, Eq, Hash, Debug)]
	enum A { E(u16), Fin(Option<Name>), M(u32) }
	let r = t.clone().fold_lr_archive(vec![], Rc::new(|mut a: Vec<A>, e: &El| { a.push(A::E(e.0)); a }),
		Rc::new(|mut a: Vec<A>, n: Option<Name>| { a.push(A::Fin(n)); a }),
		Rc::new(|mut a: Vec<A>, l: u32| { a.push(A::M(l)); a }));
	let mut w = vec![];
	if !items.is_empty() {
		let mut cur = Some(name_of_string("start".to_string()));
		for it in items {
			match *it {
				It::E(e) => w.push(A::E(e)),
				It::M(l, n) => { w.push(A::Fin(cur.clone())); w.push(A::M(l)); cur = tree_nm(n); }
			}
		}
		w.push(A::Fin(cur));
	}
	same!("fold_lr_archive", "fold_lr_archive", r, w);
	// map, to the same and to other kinds of metadata
	fn mapped<M: RazMeta<El> + 'static, N: Kind>(t: &RazTree<El, M>, items: &[It], max_name: u16) -> Res<()> {
		let want: Vec<It> = items.iter().map(|i| match *i { It::E(e) => It::E(e + 1000), m => m }).collect();
		let seen = Rc::new(RefCell::new(vec![]));
		let s2 = seen.clone();
		let mt: RazTree<El, N> = t.clone().map(Rc::new(move |e: &El| { s2.borrow_mut().push(e.0); El(e.0 + 1000) }));
		same!("map", format!("content after mapping to {}", N::NAME), to_items(&observe(&mt), max_name), want);
		same!("map-calls", "elements map called the function on, in any order", sorted(&seen.borrow()), sorted(&elems(items)));
		N::check_meta(mt.meta(), &want, &|| raw_shape(t).map(|s| add1000(to_shape(&s, max_name))))?;
		same!("map-shape", "structure after mapping", raw_shape(&mt).map(|s| to_shape(&s, max_name)), raw_shape(t).map(|s| add1000(to_shape(&s, max_name))));
		same!("map-empty", "emptiness after mapping", mt.is_empty(), items.is_empty());
		Ok(())
	}
	mapped::<M, Count>(t, items, max_name)?;
	mapped::<M, Names>(t, items, max_name)?;
	mapped::<M, ()>(t, items, max_name)?;
	if items.len() <= 200 { mapped::<M, Trace>(t, items, max_name)?; }
	Ok(())
}
fn add1000(s: Shape) -> Shape { match s { Shape::Leaf(v) => Shape::Leaf(v.into_iter().map(|e| e + 1000).collect()), Shape::Bin(l, a, b, r) => Shape::Bin(Box::new(add1000(*l)), a, b, Box::new(add1000(*r))) } }
/// Metadata (top level and inner) of a mapped copy, for every kind it can be mapped to.
pub fn check_mapped_meta<M: RazMeta<El> + 'static>(t: &RazTree<El, M>, items: &[It]) -> Res<()> {
	fn to<M: RazMeta<El> + 'static, N: Kind>(t: &RazTree<El, M>, items: &[It]) -> Res<()> {
		let mt: RazTree<El, N> = t.clone().map(Rc::new(|e: &El| El(e.0 + 1000)));
		N::check_meta(mt.meta(), &items.iter().map(|i| match *i { It::E(e) => It::E(e + 1000), m => m }).collect::<Vec<_>>(), &|| raw_shape(t).map(|s| add1000(to_shape(&s, 400))))?;
		let n = N::n_foci(items);
		if n > 64 { return Ok(()) }
		for k in 0..n {
			let p = match N::expect(items, k) { Some(p) => p, None => continue };
			let r = match N::focus(mt.clone(), items, k) { Some(r) => r, None => return bad("map-focus", format!("after mapping {:?}, {} is refused", items, N::describe(items, k))) };
			same!("map-focus", format!("after mapping {:?}, element left of {}", items, N::describe(items, k)), r.peek_left().map(|e| e.0), elems(&items[..p]).last().map(|e| e + 1000));
			same!("map-focus", format!("after mapping {:?}, element right of {}", items, N::describe(items, k)), r.peek_right().map(|e| e.0), elems(&items[p..]).first().map(|e| e + 1000));
		}
		Ok(())
	}
	to::<M, Count>(t, items)?;
	to::<M, Names>(t, items)?;
	to::<M, ()>(t, items)?;
	// (user-defined metadata finds elements by their value)
	let (es, mut ds) = (elems(items), elems(items)); ds.sort(); ds.dedup();
	if items.len() <= 200 && es.len() == ds.len() { to::<M, Trace>(t, items)?; }
	Ok(())
}
pub fn in_ns<R, F: FnOnce() -> R>(s: &str, f: F) -> R { ns(name_of_string(s.to_string()), f) }
