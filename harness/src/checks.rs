//! The registry: which explorations decide which property, and their bounds.
use crate::common::*;
use crate::dcg::*;
use crate::equality::{self, Equality};
use crate::large::*;
use crate::levels::*;
use crate::skip::*;
use crate::spaces::*;
use crate::mc::*;
use crate::nested::{self, Nested};
use crate::raz_model::*;
use crate::stacks::*;
use crate::trees::*;
use crate::trie::{TrieModel, WideMaps};
use iodyn::raz_meta::{Count, Names};
use std::marker::PhantomData;

fn raz<K: Kind>(o: Oracle, e: usize, m: usize, levels: &[u32], names: &[bool]) -> RazModel<K> {
	RazModel { oracle: o, max_elems: e, max_marks: m, levels: levels.to_vec(), names: names.to_vec(), bulk: 1, dup: false, pops: vec![], dcg: false, depth: usize::max_value(), joins: vec![], good_joins: false, seeds: vec![], ways: (0..WAYS).collect(), kind: PhantomData }
}
/// sequences of up to 40 subsequences whose markers form deep or irregular trees
fn spines() -> Vec<Vec<It>> {
	let mut v = vec![];
	for &n in &[7usize, 33, 41] {
		v.push(spine(n, &|i| i as u32 + 1, false));
		v.push(spine(n, &|i| 64 - i as u32, true));
		v.push(spine(n, &|_| 5, true));
		v.push(spine(n, &|i| [1, 64, 33][i % 3], false));
		v.push(spine(n, &|i| (i as u32 + 1).trailing_zeros() + 1, true));
		v.push(spine(n, &|i| if i < n / 2 { 64 - i as u32 } else { 64 - (n - i) as u32 }, false));
		v.push(spine(n, &|i| if i < n / 2 { i as u32 + 1 } else { (n - i) as u32 }, true));
	}
	v
}
fn raz_parts(o: Oracle, tier: &str) -> Vec<Part> {
	let th = tier == "thorough";
	let b = if th { 900 } else { 120 };
	let mut v = vec![];
	let q = |a: usize, c: usize| if th { c } else { a };
	// every reachable state with few elements and markers, ties and distinct levels
	v.push(bfs_part("reach/count", b, raz::<Count>(o, q(5, 5), q(2, 3), &[1, 2, 3], &[false, true])));
	v.push(bfs_part("reach/count-more-markers", b, raz::<Count>(o, q(5, 6), q(4, 5), &[1, 2], &[false])));
	v.push(bfs_part("reach/names", b, raz::<Names>(o, q(5, 5), q(2, 3), &[1, 2], &[false, true])));
	v.push(bfs_part("reach/user-metadata", b, raz::<Trace>(o, q(3, 4), q(2, 2), &[1, 2], &[false, true])));
	v.push(bfs_part("reach/unit", b, raz::<()>(o, q(6, 7), q(3, 4), &[1, 2], &[false])));
	v.push(bfs_part("reach/equal-elements", b, RazModel { dup: true, ..raz::<Count>(o, q(4, 5), q(2, 2), &[1, 2], &[false]) }));
	v.push(bfs_part("bulk", b, RazModel { bulk: 300, depth: q(7, 8), ..raz::<Count>(o, 1200, 2, &[1, 2], &[false]) }));
	let seeds = all_seqs(5..=q(5, 6), 1, &[1, 2, 3], &[1]);
	v.push(bfs_part("built", b, RazModel { seeds: seeds.clone(), depth: q(3, 4), ..raz::<Count>(o, 7, 6, &[2], &[true]) }));
	v.push(bfs_part("built/names", b, RazModel { seeds: seeds, depth: q(3, 4), ..raz::<Names>(o, 7, 6, &[2], &[true]) }));
	v.push(bfs_part("built/user-metadata", b, RazModel { seeds: all_seqs(4..=q(4, 5), 1, &[1, 2, 3], &[1]), depth: q(3, 4), ..raz::<Trace>(o, 6, 5, &[2], &[true]) }));
	v.push(bfs_part("deep", b, RazModel { seeds: spines(), depth: q(3, 4), pops: vec![2, 7, 19, 100], ..raz::<Count>(o, 60, 60, &[1, 34, 64], &[true]) }));
	v.push(bfs_part("deep/names", b, RazModel { seeds: spines().into_iter().filter(|s| s.len() < q(70, 200)).collect(), depth: q(3, 4), pops: vec![2, 7, 19, 100], ..raz::<Names>(o, 60, 60, &[1, 34, 64], &[true]) }));
	v.push(bfs_part("reach/high-levels", b, raz::<Count>(o, q(3, 4), q(2, 3), &[1, 64, 1 << 20, u32::max_value() - 1], &[false])));
	v.push(bfs_part("level-range", b, Large { oracle: o, layouts: level_range() }));
	v.push(bfs_part("large", b, Large { oracle: o, layouts: if th { layouts(&[255, 256, 257, 1023, 1024, 1025, 4096, 65534, 65535, 65536, 65537], &[100, 256, 300, 1000]) } else { layouts(&[255, 256, 257, 1024, 65535, 65537], &[100, 300]) } }));
	v.push(bfs_part("reach/incremental-engine", b, RazModel { dcg: true, ..raz::<Count>(o, q(4, 5), q(2, 3), &[1, 2], &[false]) }));
	v
}

pub fn check(id: &str, tier: &str) -> Option<Check> {
	let th = tier == "thorough";
	let z = Oracle::default();
	let std_assume = vec!["the adapton engine and the Rust standard library are correct"];
	let o = match id {
		"C01" => Oracle { list: true, ..z },
		"C02" => Oracle { focus: true, ..z },
		"C03" => Oracle { meta: true, ..z },
		"C04" => Oracle { marks: true, ..z },
		"C05" => Oracle { canon: true, ..z },
		"C06" => Oracle { folds: true, ..z },
		"C09" => Oracle { persist: true, ..z },
		_ => z,
	};
	match id {
		"C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C09" => {
			let mut parts = raz_parts(o, tier);
			if id == "C05" {
				parts.push(bfs_part("good_levels", 300, GoodLevels { trees: leveled(5, &[1, 2, 3]) }));
				parts.push(bfs_part("good_levels/zero", 300, GoodLevels { trees: leveled(if th { 5 } else { 4 }, &[0, 1, 2, 3]) }));
				if th { for (i, c) in leveled(6, &[1, 2, 3]).chunks(60_000).enumerate() { parts.push(bfs_part(&format!("good_levels/six-{}", i + 1), 300, GoodLevels { trees: c.to_vec() })); } }
			}
			if id == "C09" { parts.extend(c09(th)); }
			Some(Check { id: static_id(id), assumptions: std_assume, parts: parts })
		}
		"C10" => Some(Check { id: "C10", assumptions: std_assume, parts: c10(th) }),
		"C11" => Some(Check { id: "C11", assumptions: std_assume, parts: c11(th, false) }),
		"C12" => Some(Check { id: "C12", assumptions: std_assume, parts: c12(th) }),
		"C13" => Some(Check { id: "C13", assumptions: std_assume, parts: c13(th, false) }),
		"C14" => Some(Check { id: "C14", assumptions: std_assume, parts: c14(th) }),
		"C07" => Some(Check { id: "C07", assumptions: std_assume, parts: { let mut v = dcg(th, Want { results: true, ..Want::default() }); v.extend(nested(th, ((1 << nested::N) - 1) & !nested::ACCS)); v } }),
		"C08" => Some(Check { id: "C08", assumptions: std_assume, parts: { let mut v = dcg(th, Want { reuse: true, ..Want::default() }); v.extend(nested_reuse(th)); v } }),
		"C18" => Some(Check { id: "C18", assumptions: std_assume, parts: c18(th) }),
		"C16" => Some(Check { id: "C16", assumptions: std_assume, parts: c16(th) }),
		"C15" => Some(Check { id: "C15", assumptions: std_assume, parts: c15(th) }),
		"C17" => Some(Check { id: "C17", assumptions: std_assume, parts: vec![bfs_part("generators", 900, Levels { bits: if th { 28 } else { 24 } }), bfs_part("inc_level", 60, IncLevel)] }),
		"C25" => Some(Check { id: "C25", assumptions: std_assume, parts: vec![bfs_part("scale", 300, Scale)] }),
		"C26" => Some(Check { id: "C26", assumptions: std_assume, parts: c26(th) }),
		"C22" => Some(Check { id: "C22", assumptions: std_assume, parts: c22(th) }),
		"C24" => Some(Check { id: "C24", assumptions: std_assume, parts: c24(th) }),
		"C23" => Some(Check { id: "C23", assumptions: std_assume, parts: vec![
			bfs_part("maps/words", 900, TrieModel::<u64>::new(if th { 6 } else { 5 }, if th { 3 } else { 2 })),
			bfs_part("maps/strings", 900, TrieModel::<String>::new(if th { 6 } else { 5 }, 2)),
			bfs_part("maps/large words", 900, WideMaps::<u64>::new(wide(th))),
			bfs_part("maps/large pairs", 900, WideMaps::<(u32, u32)>::new(wide(th))),
			bfs_part("maps/large strings", 900, WideMaps::<String>::new(wide(th))),
		] }),
		_ => None,
	}
}
/// conversion of stacks rebuilt with changes, with enough levels for every order of three
fn conv_levels(want: Want, th: bool, demand: Vec<u32>) -> DcgConv {
	DcgConv { want: want, rounds: if th || want.content { vec![1, 1] } else { vec![1] }, first: all_seqs(3..=if th { 5 } else { 4 }, 1, &[1, 2, 3], &[1]).into_iter().chain(all_seqs(5..=if th { 6 } else { 5 }, 1, &[1, 2], &[1])).collect(), levels: vec![1, 2, 3], unnamed: false, anew: true, demand: demand }
}
/// large subsequences and many of them, on the incremental engine
fn big<K: Kind>(want: Want, th: bool, ops: &[usize], levels: &[u32], demand: &[u32]) -> DcgRaz<K> {
	let ls = if ops.len() + ops.iter().sum::<usize>() > 2 { if th { layouts(&[64, 65, 257], &[33, 65]) } else { layouts(&[65], &[33]) } }
		else if th { layouts(&[63, 64, 65, 255, 256, 257, 1000], &[33, 65, 129, 300]) } else { layouts(&[64, 65, 255, 256, 257], &[33, 65]) };
	DcgRaz { sparse: true, ways: vec![0, 1, 2], ..draz::<K>(want, named(&ls), ops, levels, demand) }
}
const ALL: u32 = (1 << COMPS) - 1;
fn draz<K: Kind>(want: Want, seeds: Vec<Vec<It>>, ops: &[usize], levels: &[u32], demand: &[u32]) -> DcgRaz<K> {
	DcgRaz { want: want, seeds: seeds, ways: vec![0], ops: ops.to_vec(), levels: levels.to_vec(), unnamed: false, other: false, demand: demand.to_vec(), observe: false, sparse: false, kind: PhantomData }
}
fn named_spines() -> Vec<Vec<It>> {
	spines().into_iter().map(|s| { let mut n = 0; s.into_iter().map(|i| match i { It::M(l, _) => { n += 1; It::M(l, n) }, e => e }).collect() }).collect()
}
fn dcg(th: bool, want: Want) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let b = 900;
	let mut v = vec![
		dfs_part("one-edit", b, draz::<Count>(want, all_seqs(0..=q(6, 7), 1, &[1, 2, 3], &[1]), &[1], &[1, 2, 3], &[ALL])),
		dfs_part("one-edit/ways", b, DcgRaz { ways: vec![1, 2, 3, 4, 5], ..draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1]), &[1], &[1, 2], &[ALL]) }),
		dfs_part("two-edits", b, draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1]), &[1, 1], &[2], &[0, ALL])),
		dfs_part("two-edits/sizes", b, draz::<Count>(want, all_seqs(1..=q(2, 3), 2, &[1, 2], &[1]), &[2, q(1, 2)], &[1, 2], &[ALL])),
		dfs_part("three-edits", b, draz::<Count>(want, all_seqs(2..=q(2, 4), 1, &[1, 2], &[1]), &[1, 1, 1], &[1, 2], &[0, ALL])),
		dfs_part("names", b, draz::<Names>(want, all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), &[1, 1], &[2], &[ALL])),
		dfs_part("user-metadata", b, draz::<Trace>(want, all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), &[1, 1], &[2], &[ALL])),
		dfs_part("deep", b, draz::<Count>(want, named_spines().into_iter().filter(|s| s.len() < q(70, 200)).collect(), &[1], &[3], &[ALL])),
		dfs_part("large", b, DcgRaz { other: true, ..big::<Count>(want, th, &[1], &[4], &[ALL]) }),
		dfs_part("large/names", b, big::<Names>(want, th, &[1], &[4], &[ALL])),
		dfs_part("large/two-operations", b, big::<Count>(want, th, &[2], &[4], &[ALL])),
		dfs_part("replace", b, DcgRaz { other: true, ..draz::<Count>(want, all_seqs(1..=q(2, 3), 2, &[1, 2], &[1]).into_iter().chain(all_seqs(3..=q(3, 4), 1, &[1, 2], &[1])).collect(), &[2, q(1, 2)], &[2], &[ALL]) }),
		dfs_part("convert/anew", b, DcgConv { want: want, rounds: vec![1, q(1, 2)], first: all_seqs(0..=3, 2, &[1, 2], &[1]).into_iter().chain(all_seqs(4..=q(4, 5), 1, &[1, 2], &[1])).collect(), levels: vec![1, 2], unnamed: false, anew: true, demand: vec![ALL] }),
		dfs_part("convert", b, DcgConv { want: want, rounds: vec![q(3, 4), q(1, 2)], first: all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), levels: vec![1, 2], unnamed: false, anew: false, demand: vec![0, ALL] }),
		dfs_part("convert/levels", b, conv_levels(want, th, vec![ALL])),
	];
	if want.results {
		v.push(dfs_part("some-unnamed", b, DcgRaz { unnamed: true, ..draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2], &[0, 1, 2]), &[1, 1], &[2], &[ALL]) }));
		v.push(dfs_part("convert/some-unnamed", b, DcgConv { want: want, rounds: vec![q(2, 3), q(1, 2)], first: all_seqs(0..=q(4, 5), 1, &[1, 2], &[0, 1, 2]), levels: vec![1, 2], unnamed: true, anew: false, demand: vec![0, ALL] }));
	}
	v
}
fn c18(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let b = if th { 600 } else { 120 };
	let o = Oracle { list: true, focus: true, meta: true, marks: true, folds: true, ..Oracle::default() };
	let e = |n| It::E(n);
	// joined with nothing, one element, a sequence with a marker of middle height
	let js = vec![vec![], vec![e(0)], vec![e(0), It::M(2, 0), e(1)]];
	let jn = vec![vec![], vec![e(0)], vec![e(0), It::M(1, 1), e(1)]];
	let jw = vec![vec![], vec![e(0)], vec![e(0), It::M(2, 1), e(1)], vec![e(0), It::M(3, 1), e(1), It::M(1, 2), e(2)]];
	let brackets: Vec<usize> = (WAYS..WAYS + catalan(q(4, 5))).collect();
	let want = Want { results: true, reuse: false, content: true };
	vec![
		bfs_part("join", b, RazModel { joins: js.clone(), ..raz::<Count>(o, q(4, 5), 3, &[1, 2, 3], &[false]) }),
		bfs_part("join/two-levels", b, RazModel { joins: js.clone(), ..raz::<Count>(o, q(4, 5), 4, &[1, 2], &[false]) }),
		bfs_part("join/names", b, RazModel { joins: jn.clone(), ..raz::<Names>(o, q(3, 4), q(2, 3), &[1, 2], &[false, true]) }),
		bfs_part("join/unit", b, RazModel { joins: js.clone(), ..raz::<()>(o, 4, 3, &[1, 2], &[false]) }),
		bfs_part("join/canonical", b, RazModel { joins: js.clone(), good_joins: true, ..raz::<Count>(Oracle { canon: true, ..o }, q(4, 5), 3, &[1, 2, 3], &[false]) }),
		bfs_part("join/incremental-engine", b, RazModel { joins: js.clone(), dcg: true, ..raz::<Count>(o, 4, 3, &[1, 2], &[false]) }),
		bfs_part("bracketings", b, RazModel { seeds: all_seqs(5..=q(5, 6), 1, &[1, 2, 3], &[1]), ways: brackets.clone(), depth: q(3, 4), ..raz::<Count>(o, 8, 8, &[2], &[true]) }),
		bfs_part("bracketings/joined", b, RazModel { seeds: all_seqs(3..=3, 1, &[1, 2, 3], &[1]), ways: vec![WAYS, WAYS + 1], joins: jw.clone(), depth: q(3, 4), ..raz::<Names>(o, 9, 9, &[1, 3], &[true]) }),
		bfs_part("deep", b, RazModel { seeds: spines(), ways: vec![WAYS, WAYS + 1, WAYS + 2], joins: vec![spine(20, &|i| (i as u32 + 1).trailing_zeros() + 1, true)], depth: q(2, 3), pops: vec![7], ..raz::<Count>(o, 80, 80, &[1, 64], &[true]) }),
		dfs_part("incremental", 900, DcgRaz { ways: brackets.clone(), ..draz::<Count>(want, all_seqs(2..=q(4, 5), 1, &[1, 2], &[1]), &[1], &[1, 2], &[ALL]) }),
		dfs_part("incremental/twice", 900, DcgRaz { ways: (WAYS..WAYS + 5).collect(), ..draz::<Count>(want, all_seqs(4..=4, 1, &[1, 2], &[1]), &[1, 1], &[2], &[0]) }),
	]
}
/// computations inside the user's own memoised functions
fn nested(th: bool, comps: u32) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let n = |seeds: Vec<Vec<It>>, ops: &[usize], levels: &[u32]| Nested { seeds: seeds, ways: vec![0], ops: ops.to_vec(), levels: levels.to_vec(), how: vec![0, 1, 2, 3], comps: comps, skip: false, equal: false, reuse: false };
	vec![
		dfs_part("inside", 900, n(all_seqs(0..=q(5, 6), 1, &[1, 2, 3], &[1]), &[1], &[1, 2])),
		dfs_part("inside/two-edits", 900, Nested { skip: true, ..n(all_seqs(0..=q(3, 4), 1, &[1, 2], &[1]), &[1, 1], &[2]) }),
		dfs_part("inside/equal-elements", 900, Nested { equal: true, ..n(all_seqs(1..=q(3, 4), 2, &[1], &[1]), &[1, 1], &[1]) }),
		dfs_part("inside/three-edits", 900, Nested { how: vec![1, 3], ..n(all_seqs(2..=q(2, 3), 1, &[1, 2], &[1]), &[1, 1, 1], &[2]) }),
	]
}
fn nested_reuse(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let n = |seeds: Vec<Vec<It>>, ops: &[usize], levels: &[u32]| Nested { seeds: seeds, ways: vec![0], ops: ops.to_vec(), levels: levels.to_vec(), how: vec![0, 1, 2], comps: nested::WATCHED, skip: false, equal: false, reuse: true };
	vec![
		dfs_part("inside", 900, n(all_seqs(0..=q(5, 6), 1, &[1, 2, 3], &[1]), &[1], &[1, 2])),
		dfs_part("inside/sizes", 900, n(all_seqs(1..=q(3, 4), 2, &[1, 2], &[1]), &[1], &[1, 2])),
		dfs_part("inside/two-edits", 900, Nested { skip: true, ..n(all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), &[1, 1], &[2]) }),
	]
}
const ACC: u32 = ((1 << ACCS) - 1) << COMPS;
fn c16(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let want = Want { results: true, ..Want::default() };
	let b = 900;
	let mut v = nested(th, nested::ACCS);
	v.extend(vec![
		dfs_part("one-edit", b, draz::<Count>(want, all_seqs(0..=q(6, 7), 1, &[1, 2, 3], &[1]), &[1], &[1, 2, 3], &[ACC])),
		dfs_part("one-edit/ways", b, DcgRaz { ways: vec![1, 2, 3, 4, 5], ..draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1]), &[1], &[1, 2], &[ACC]) }),
		dfs_part("two-edits", b, draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1]), &[1, 1], &[2], &[0, ACC])),
		dfs_part("two-edits/sizes", b, draz::<Count>(want, all_seqs(1..=q(2, 3), 2, &[1, 2], &[1]), &[2, q(1, 2)], &[1, 2], &[ACC])),
		dfs_part("three-edits", b, draz::<Names>(want, all_seqs(2..=q(2, 4), 1, &[1, 2], &[1]), &[1, 1, 1], &[1, 2], &[0, ACC])),
		dfs_part("some-unnamed", b, DcgRaz { unnamed: true, ..draz::<Count>(want, all_seqs(0..=q(4, 5), 1, &[1, 2], &[0, 1, 2]), &[1, 1], &[2], &[ACC]) }),
		dfs_part("deep", b, draz::<Count>(want, named_spines().into_iter().filter(|s| s.len() < q(70, 200)).collect(), &[1], &[3], &[ACC])),
		dfs_part("large", b, big::<Count>(want, th, &[1], &[4], &[ACC])),
		dfs_part("replace", b, DcgRaz { other: true, ..draz::<Count>(want, all_seqs(1..=q(2, 3), 2, &[1, 2], &[1]).into_iter().chain(all_seqs(3..=q(3, 4), 1, &[1, 2], &[1])).collect(), &[2, q(1, 2)], &[2], &[ACC]) }),
		dfs_part("convert/anew", b, DcgConv { want: want, rounds: vec![1, q(1, 2)], first: all_seqs(0..=3, 2, &[1, 2], &[1]).into_iter().chain(all_seqs(4..=q(4, 5), 1, &[1, 2], &[1])).collect(), levels: vec![1, 2], unnamed: false, anew: true, demand: vec![ACC] }),
		dfs_part("convert", b, DcgConv { want: want, rounds: vec![q(3, 4), q(1, 2)], first: all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), levels: vec![1, 2], unnamed: false, anew: false, demand: vec![0, ACC] }),
	]);
	v
}
fn c22(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let want = Want { results: false, reuse: false, content: true };
	let b = 900;
	let mut v = nested(th, nested::EDITS | 1 << 14);
	v.extend(vec![
		dfs_part("observe", b, DcgRaz { observe: true, ..draz::<Count>(want, all_seqs(0..=q(3, 5), 1, &[1, 2, 3], &[1, 2]), &[1], &[2], &[0, ALL]) }),
		dfs_part("observe/more", b, DcgRaz { observe: true, ..draz::<Count>(want, all_seqs(4..=q(4, 5), 1, &[1, 2, 3], &[1, 2]), &[1], &[2], &[0]) }),
		dfs_part("observe/names", b, DcgRaz { observe: true, ..draz::<Names>(want, all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1, 2]), &[1], &[2], &[0]) }),
		dfs_part("observe/user-metadata", b, DcgRaz { observe: true, ..draz::<Trace>(want, all_seqs(0..=q(4, 5), 1, &[1, 2], &[1, 2]), &[1], &[2], &[0]) }),
		dfs_part("edit", b, DcgRaz { ways: vec![0, 1, 2, 3, 4, 5], unnamed: true, ..draz::<Count>(want, all_seqs(0..=q(3, 4), 1, &[1, 2], &[1, 2]), &[3], &[1, 2], &[0]) }),
		dfs_part("edit/levels", b, draz::<Count>(want, all_seqs(0..=q(6, 7), 1, &[1, 2, 3], &[1]), &[1], &[1, 2, 3], &[0])),
		dfs_part("edit/twice", b, DcgRaz { observe: true, ..draz::<Count>(want, all_seqs(2..=q(3, 4), 1, &[1, 2], &[1]), &[1, 1], &[1], &[0]) }),
		dfs_part("edit/thrice", b, draz::<Count>(want, all_seqs(2..=q(3, 4), 1, &[1, 2], &[1]), &[1, 1, 1], &[1, 2], &[0])),
		dfs_part("edit/sizes", b, draz::<Names>(want, all_seqs(1..=3, 2, &[1, 2], &[1]), &[2, q(1, 2)], &[1, 2], &[0])),
		dfs_part("deep", b, draz::<Count>(want, named_spines().into_iter().filter(|s| s.len() < q(70, 200)).collect(), &[2], &[3], &[0])),
		dfs_part("large", b, DcgRaz { ways: vec![0, 1, 2, 3, 4, 5], ..big::<Count>(want, th, &[1], &[4], &[0]) }),
		dfs_part("large/observe", b, DcgRaz { observe: true, ..big::<Count>(want, th, &[], &[4], &[0, 1]) }),
		dfs_part("large/twice", b, big::<Names>(want, th, &[1, 1], &[4], &[0])),
		dfs_part("deep/observe", b, DcgRaz { observe: true, ..draz::<Count>(want, named_spines(), &[], &[3], &[0, 1]) }),
		dfs_part("replace", b, DcgRaz { other: true, ..draz::<Count>(want, all_seqs(1..=q(2, 3), 2, &[1, 2], &[1]).into_iter().chain(all_seqs(3..=q(3, 4), 1, &[1, 2], &[1])).collect(), &[2, q(1, 2)], &[2], &[0]) }),
		dfs_part("convert/anew", b, DcgConv { want: want, rounds: vec![1, q(1, 2)], first: all_seqs(0..=3, 2, &[1, 2], &[1]).into_iter().chain(all_seqs(4..=q(4, 5), 1, &[1, 2], &[1])).collect(), levels: vec![1, 2], unnamed: false, anew: true, demand: vec![1] }),
		dfs_part("convert/levels", b, conv_levels(want, th, vec![0, 1])),
		dfs_part("edit/built", b, DcgRaz { ways: vec![0, 1, 2, 3, 4, 5], ..draz::<Names>(want, all_seqs(3..=q(6, 7), 1, &[1, 2], &[1, 2]), &[1], &[2], &[0]) }),
		dfs_part("convert", b, DcgConv { want: want, rounds: vec![q(3, 5), q(1, 2)], first: all_seqs(0..=q(4, 5), 1, &[1, 2], &[1, 2]), levels: vec![1, 2], unnamed: true, anew: false, demand: vec![0, 1] }),
	]);
	v
}
/// versions in namespaces
fn c24(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	fn raz<K: Kind>(seeds: Vec<Vec<It>>, ops: &[usize], levels: &[u32], demand: u32) -> SpacesRaz<K> {
		SpacesRaz { seeds: seeds, ways: vec![0], ops: ops.to_vec(), levels: levels.to_vec(), unnamed: false, again: true, demand: demand, same_space: false, kind: PhantomData }
	}
	vec![
		dfs_part("sequence/one-edit", 900, SpacesRaz { ways: vec![0, 1, 2, 3, 4, 5], unnamed: true, ..raz::<Count>(all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[0, 1, 2]), &[2], &[1, 2], 0) }),
		dfs_part("sequence/two-edits", 900, raz::<Count>(all_seqs(0..=q(4, 5), 1, &[1, 2], &[1]), &[2, 1], &[2], 0)),
		dfs_part("sequence/three-edits", 900, raz::<Names>(all_seqs(2..=q(3, 4), 1, &[1, 2], &[1]), &[1, 1, 1], &[2], 0)),
		dfs_part("sequence/computations", 900, raz::<Count>(all_seqs(2..=q(4, 5), 1, &[1, 2], &[1]), &[1, 1], &[2], ALL)),
		dfs_part("sequence/computations/same-names", 900, SpacesRaz { same_space: true, ..raz::<Count>(all_seqs(2..=q(4, 5), 1, &[1, 2], &[1]), &[1, 1], &[2], ALL) }),
		dfs_part("sequence/large", 900, raz::<Count>(named(&if th { layouts(&[64, 65, 255, 256, 257], &[33, 65, 129]) } else { layouts(&[64, 65, 257], &[33, 65]) }), if th { &[1, 1] } else { &[2] }, &[4], 0)),
		dfs_part("sequence/deep", 900, raz::<Count>(named_spines().into_iter().filter(|s| s.len() < q(15, 70)).collect(), &[1, 1], &[3], 0)),
		dfs_part("sequence/deeper", 900, raz::<Count>(named_spines().into_iter().filter(|s| s.len() < q(70, 200)).collect(), &[2], &[3], 0)),
		dfs_part("astack", 900, SpacesStack { firsts: all_stacks(q(5, 6), 1, &[3], &[0, 1]), ops: vec![3, q(3, 4)], again: true, convert: false }),
		dfs_part("astack/converted", 900, SpacesStack { firsts: all_stacks(q(3, 4), 1, &[1, 2], &[1]), ops: vec![2, 2], again: true, convert: true }),
		dfs_part("stack", 900, SpacesCons { first: (0..5).collect(), ops: vec![4, 3, q(2, 3)], again: true }),
		dfs_part("skiplist/two-bits", 900, SpacesSkip { path_len: 2, keys: keys(2, &[(0, 2), (1, 1)]), first: vec![0, 1, 2, 4, 5], ops: vec![3, 2, q(1, 2)], again: true }),
		dfs_part("skiplist/three-bits", 900, SpacesSkip { path_len: 3, keys: keys(3, &[(0, 1), (1, 1), (3, 1)]), first: vec![0, 3, 6], ops: vec![3, 2, q(1, 2)], again: true }),
	]
}
fn cm(inits: Vec<(Vec<(u16, u32, u16)>, Option<Vec<(u16, u32, u16)>>)>, max_nodes: usize, depth: usize, persist: bool) -> CursorModel {
	CursorModel { max_nodes: max_nodes, inits: inits, levels: vec![1, 2, 3], depth: depth, persist: persist, dcg: false, named_joins: false, runs: false }
}
/// the other structures, for C09
fn c09(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let skip = |p: usize, k: Vec<u32>, depth: usize| SkipModel { path_len: p, keys: k, vals: vec![1], depth: depth, wide: 0, persist: true };
	let mut v = c11(false, true);
	v.push(bfs_part("stack", 900, StackModel { versions: q(5, 6), dcg: false, names: vec![false, true], reuse_names: true, persist: true }));
	v.push(bfs_part("stack/incremental-engine", 900, StackModel { versions: q(5, 6), dcg: true, names: vec![false], reuse_names: false, persist: true }));
	v.push(bfs_part("cursor/single", 900, cm(cursor_inits(q(3, 4), 0, &[1, 2], 2), 0, q(8, 10), true)));
	v.push(bfs_part("cursor/pairs", 900, cm(cursor_inits(0, q(2, 3), &[1, 2], 2), q(4, 5), q(5, 6), true)));
	v.push(bfs_part("skiplist/two-bits", 900, skip(2, keys(2, &[(0, 2), (1, 1), (3, 1)]), q(5, 6))));
	v.push(bfs_part("skiplist/one-bit", 900, skip(1, keys(1, &[(0, 3), (1, 1)]), q(5, 6))));
	v
}
fn c13(th: bool, persist: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	vec![
		bfs_part("cursor/single", 900, cm(cursor_inits(q(4, 5), 0, &[1, 2, 3], 2), 0, q(9, 12), persist)),
		bfs_part("cursor/pairs", 900, cm(cursor_inits(0, q(3, 4), &[1, 2, 3], 2), q(5, 6), q(5, 6), persist)),
		bfs_part("cursor/derived-updates", 900, Derived { trees: (1..q(4, 5)).flat_map(|n| level_lists(n, &[1, 2], 2, 0)).map(|l| canon(&l)).collect(), moves: q(7, 8) }),
		bfs_part("cursor/grown", 900, CursorModel { named_joins: true, ..cm(vec![(vec![], Some(vec![]))], q(4, 5), q(15, 17), persist) }),
		bfs_part("cursor/deep", 900, CursorModel { runs: true, levels: vec![1, 20, 60], ..cm(deep_trees(q(33, 70), true), 200, q(5, 6), persist) }),
		bfs_part("cursor/deep/incremental-engine", 900, CursorModel { runs: true, dcg: true, levels: vec![20], ..cm(deep_trees(q(17, 33), false), 200, q(4, 5), persist) }),
		dfs_part("iterator/incremental-engine", 900, IterDcg { trees: some_lists(q(4, 5), 3, &[1, 2]), rounds: 2 }),
		bfs_part("cursor/incremental-engine", 900, CursorModel { dcg: true, ..cm(cursor_inits(q(3, 4), 3, &[1, 2], 0), 4, q(5, 6), persist) }),
	]
}
/// chains, zigzags and balanced trees
fn deep_trees(n: usize, named: bool) -> Vec<(Vec<(u16, u32, u16)>, Option<Vec<(u16, u32, u16)>>)> {
	let f: Vec<Box<dyn Fn(usize) -> u32>> = vec![
		Box::new(|i| i as u32 + 1), Box::new(move |i| (n - i) as u32), Box::new(|_| 5), Box::new(|i| (i as u32 + 1).trailing_zeros() + 1),
		// descending left and right by turns
		Box::new(move |i| 2 * i.min(n - 1 - i) as u32 + if i < n / 2 { 1 } else { 2 }),
	];
	let mut v = vec![];
	for f in &f {
		let l: Vec<(u16, u32, u16)> = (0..n).map(|i| (i as u16, f(i), if i % 3 == 2 || !named { 0 } else { i as u16 + 1 })).collect();
		v.push((l.clone(), None));
		let k = n / 2;
		v.push((l[..k].to_vec(), Some(l[k..].to_vec())));
	}
	v
}
/// deep trees, and those without one of their nodes
fn without_one(n: usize) -> Vec<T> {
	let mut v = vec![];
	for (l, other) in deep_trees(n, true) {
		if other.is_some() { continue }
		for i in (0..n + 1).rev() { let mut l = l.clone(); if i < n { l.remove(i); } v.push(canon(&l)); }
	}
	v
}
fn c14(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let lv = |id: u16| 1 + (id as u32 * 3) % 4;
	let small = named_trees(3, &lv);
	let k = small.len();
	let large: &[usize] = if th { &[16, 31, 32, 33, 64, 65, 100, 120] } else { &[16, 33, 65] };
	let all_named: Vec<_> = (1..q(5, 6) as usize + 1).flat_map(|n| shapes(n, 0)).map(|s| relabel(&s, &|id| (id, lv(id), id + 1))).collect();
	let tiny: Vec<_> = named_trees(2, &lv).into_iter().chain(shapes(3, 0).into_iter().map(|s| relabel(&s, &|id| (id, lv(id), id + 1)))).collect();
	let mut v = vec![];
	for (i, c) in named_trees(q(7, 8), &lv).chunks(65_000).enumerate() {
		let n = if i == 0 { String::new() } else { format!("-{}", i + 1) };
		v.push(bfs_part(&format!("shapes{}", n), 900, Comps { trees: c.to_vec(), dcg: false }));
		v.push(bfs_part(&format!("shapes{}/incremental-engine", n), 900, Comps { trees: c.to_vec(), dcg: true }));
	}
	v.extend(vec![
		bfs_part("large", 900, Comps { trees: large.iter().flat_map(|n| deep_trees(*n, true)).map(|(l, _)| canon(&l)).collect(), dcg: false }),
		bfs_part("large/incremental-engine", 900, Comps { trees: large.iter().flat_map(|n| deep_trees(*n, true)).map(|(l, _)| canon(&l)).collect(), dcg: true }),
		dfs_part("rebuilt/large", 900, CompsDcg { trees: without_one(q(17, 33)), rounds: 2, subsets: vec![63], first: 0..without_one(q(17, 33)).len() }),
		dfs_part("rebuilt", 900, CompsDcg { trees: small.clone(), rounds: 2, subsets: vec![63, 1, 8, 16], first: 0..k }),
		dfs_part("rebuilt/larger", 900, CompsDcg { trees: all_named.clone(), rounds: 2, subsets: vec![63, 2 + 4], first: 0..all_named.len() }),
		dfs_part("rebuilt/twice", 900, CompsDcg { trees: tiny.clone(), rounds: q(3, 4), subsets: vec![63, 1 + 16 + 32], first: 0..tiny.len() }),
	]);
	v
}
fn c10(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let mut v = vec![];
	for (name, seqs) in vec![
		("stacks", all_stacks(q(7, 8), 1, &[1, 2, 3], &[0, 1, 2])),
		("stacks/sizes", all_stacks(q(5, 7), 2, &[1, 2], &[0, 1])),
		("stacks/more-levels", all_stacks(q(6, 7), 1, &[1, 2, 3, 4], &[1])),
		("stacks/large", { let mut v = named(&layouts(if th { &[63, 64, 65, 255, 256, 257, 1000, 4097] } else { &[64, 65, 255, 256, 257] }, if th { &[33, 65, 129, 300, 1000] } else { &[33, 65, 130] })); let w: Vec<_> = v.iter().map(|s| { let mut s = s.clone(); s.push(It::M(9, 1999)); s }).collect(); v.extend(w); v }),
		("stacks/level-range", named(&level_range())),
		("stacks/deep", spines().into_iter().chain(spines().into_iter().map(|mut s| { s.push(It::M(9, 63)); s })).collect()),
	] {
		for (i, c) in seqs.chunks(15_000).enumerate() {
			v.push(bfs_part(&if seqs.len() > 15_000 { format!("{}/{}", name, i + 1) } else { name.to_string() }, 900, ConvModel { seqs: c.to_vec(), edit_depth: 0 }));
		}
	}
	let want = Want { results: true, reuse: false, content: true };
	v.push(dfs_part("again/anew", 900, conv_levels(want, th, vec![1])));
	v.push(dfs_part("again", 900, DcgConv { want: want, rounds: vec![q(3, 4), q(1, 2)], first: all_seqs(0..=q(4, 5), 1, &[1, 2, 3], &[1, 2]), levels: vec![1, 2, 3], unnamed: true, anew: false, demand: vec![1] }));
	v
}
fn c11(th: bool, persist: bool) -> Vec<Part> {
	let m = AStackModel { max_elems: if th { 10 } else { 8 }, max_marks: if th { 7 } else { 6 }, metas: vec![1, 2], names: vec![false, true], dcg: false, persist: persist, depth: usize::max_value(), dup: false, bulk: 1 };
	vec![
		bfs_part("astack", 900, m),
		bfs_part("astack/incremental-engine", 900, AStackModel { max_elems: if th { 12 } else { 9 }, max_marks: if th { 8 } else { 7 }, metas: vec![1, 2], names: vec![false], dcg: true, persist: persist, depth: usize::max_value(), dup: false, bulk: 1 }),
		bfs_part("astack/equal-elements", 900, AStackModel { max_elems: if th { 7 } else { 6 }, max_marks: if th { 4 } else { 3 }, metas: vec![1, 2], names: vec![], dcg: false, persist: persist, depth: usize::max_value(), dup: true, bulk: 1 }),
		bfs_part("astack/bulk", 900, AStackModel { max_elems: 1024, max_marks: 3, metas: vec![1], names: vec![false, true], dcg: false, persist: persist, depth: if th { 10 } else { 8 }, dup: false, bulk: 255 }),
	]
}
fn c12(th: bool) -> Vec<Part> {
	let n = if th { 9 } else { 8 };
	vec![
		bfs_part("stack", 900, StackModel { versions: n, dcg: false, names: vec![false, true], reuse_names: false, persist: false }),
		bfs_part("stack/reused-names", 900, StackModel { versions: n, dcg: false, names: vec![false, true], reuse_names: true, persist: false }),
		bfs_part("stack/incremental-engine", 900, StackModel { versions: n, dcg: true, names: vec![false, true], reuse_names: false, persist: false }),
		bfs_part("stack/long", 900, LongStack { max: 40, dcg: false }),
		bfs_part("stack/long/incremental-engine", 900, LongStack { max: 40, dcg: true }),
		bfs_part("stack/longer", 900, LongStack { max: if th { 900 } else { 300 }, dcg: false }),
	]
}
fn static_id(id: &str) -> &'static str {
	["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C22", "C23", "C24", "C25", "C26"]
		.iter().find(|s| **s == id).cloned().unwrap()
}

fn c15(th: bool) -> Vec<Part> {
	let q = |a: usize, b: usize| if th { b } else { a };
	let d = |p: usize, k: Vec<u32>, vals: &[u16], depth: usize, wide: usize| SkipModel { path_len: p, keys: k, vals: vals.to_vec(), depth: depth, wide: wide, persist: false };
	let e = |p: usize, k: Vec<u32>, vals: &[u16], depth: usize| SkipDcg { path_len: p, keys: k, vals: vals.to_vec(), depth: depth };
	vec![
		bfs_part("one-bit", 900, d(1, keys(1, &[(0, 3), (1, 2)]), &[1, 2], q(5, 6), 0)),
		bfs_part("two-bits", 900, d(2, keys(2, &[(0, 2), (1, 1), (2, 1), (3, 1)]), &[1], q(6, 7), 0)),
		bfs_part("three-bits", 900, d(3, keys(3, &[(0, 1), (1, 1), (3, 1), (5, 1), (7, 1), (2, 1)]), &[1], q(5, 6), 0)),
		bfs_part("eight-bits", 900, d(8, keys(8, &[(0, 2), (128, 1), (1, 1), (129, 1), (255, 1)]), &[1], q(5, 6), 0)),
		bfs_part("sixty-four-bits", 900, d(64, keys(2, &[(0, 2), (1, 1), (2, 1)]), &[1], q(5, 6), 0)),
		bfs_part("many-keys", 900, d(3, keys(3, &[(0, 2), (3, 1), (7, 1)]), &[1], q(3, 4), 3)),
		dfs_part("one-bit/incremental-engine", 900, e(1, keys(1, &[(0, 2), (1, 1)]), &[1], q(5, 6))),
		dfs_part("two-bits/incremental-engine", 900, e(2, keys(2, &[(0, 2), (1, 1), (2, 1), (3, 1)]), &[1], q(5, 6))),
		dfs_part("three-bits/incremental-engine", 900, e(3, keys(3, &[(0, 1), (1, 1), (3, 1), (5, 1), (7, 1)]), &[1], q(5, 6))),
	]
}

/// equality
fn wide(th: bool) -> Vec<usize> { if th { (1..70).chain(vec![127, 128, 129, 255, 256, 257, 300, 1000]).collect() } else { vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 300] } }
fn c26(th: bool) -> Vec<Part> {
	fn part<S: equality::Source>(key: usize, name: &str, c: Vec<S::C>) -> Part {
		assert!(c.len() < 65_536);
		bfs_part(name, 600, Equality::<S> { key: key, contents: c })
	}
	fn seqs<K: Kind>(key: usize, name: &str, th: bool) -> Part { part::<equality::Seqs<K>>(key, name, equality::contents(1..=3, if th { 2 } else { 1 }, &[1, 2], &[0, 1, 2], false)) }
	let small = || equality::contents(1..=3, 2, &[1, 2], &[0, 1, 2], false);
	let long = || equality::long(if th { &[2, 7, 33, 65] } else { &[2, 7, 33] }, if th { &[2, 33, 257, 1025] } else { &[2, 33, 257] });
	vec![
		part::<equality::Seqs<Count>>(1, "sequence", small()),
		seqs::<Names>(2, "sequence/names", th),
		seqs::<()>(3, "sequence/unit", th),
		seqs::<Trace>(4, "sequence/user-metadata", th),
		part::<equality::Seqs<Count>>(5, "sequence/more-markers", equality::contents(4..=if th { 5 } else { 4 }, 1, &[1, 2], &[0, 1], false)),
		part::<equality::Seqs<Count>>(6, "sequence/long", long()),
		part::<equality::Seqs<Names>>(7, "sequence/long/names", long()),
		part::<equality::Focused>(8, "focused", equality::focused(equality::contents(1..=3, 1, &[1, 2], &[0, 1], false))),
		part::<equality::Focused>(9, "focused/long", equality::focused(equality::long(&[2, 7], &[2, 17]))),
		part::<equality::AStacks>(10, "astack", equality::contents(1..=3, if th { 2 } else { 1 }, &[1, 2], &[0, 1, 2], true)),
		part::<equality::AStacks>(11, "astack/sizes", equality::contents(1..=2, if th { 4 } else { 3 }, &[1, 2], &[0, 1], true)),
		part::<equality::AStacks>(12, "astack/long", long()),
		part::<equality::Lists>(13, "stack", equality::lists(if th { 6 } else { 5 }, if th { 1 } else { 2 }, &[40])),
		part::<equality::Trees>(14, "tree", equality::labelled(if th { 4 } else { 3 }, if th { 1 } else { 2 }, 1)),
		part::<equality::Cursors>(15, "cursor", equality::labelled(3, if th { 2 } else { 1 }, 1)),
		part::<equality::NameMeta>(17, "metadata/names", (0..if th { 1 << 12 } else { 1 << 10 }).collect()),
		part::<equality::CountMeta>(18, "metadata/counts", (0..1200).chain((8..64).flat_map(|b| { let p = 1usize << b; vec![p - 1, p, p + 1] })).collect::<std::collections::BTreeSet<usize>>().into_iter().collect()),
		part::<equality::Places>(19, "metadata/positions", (0..200).collect()),
		part::<equality::Maps>(16, "skiplist", equality::maps(if th { 6 } else { 5 }, if th { 2 } else { 2 })),
	]
}
