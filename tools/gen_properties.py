#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that anchors stay uniform).
import json, os
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                        "mechanism": [{"name": a, "where": b} for a, b in mech],
                        "observe_at": list(observe), "hook_needed": None}}
RAZ="src/raz.rs"; CUR="src/tree_cursor.rs"; LT="src/level_tree.rs"; AS="src/archive_stack.rs"; META="src/raz_meta.rs"
ST="src/stack.rs"; SK="src/skiplist.rs"
L=[]
L.append(P("C01","A focused sequence edits like a list with a cursor",
 "A focused sequence behaves exactly like a list with a cursor: pushes, pops and peeks on either side act on the element next to the cursor and report exactly what the list would, across subsequence boundaries and however often the sequence was unfocused and refocused in between. Unfocusing yields precisely the elements to the left of the cursor followed by those to its right; no element is lost, duplicated, invented or moved, and a push returns how many elements lie between the cursor and the nearest subsequence boundary on that side.",
 ["histories"],"every sequence of push/pop/peek/archive/unfocus/focus operations on either side, starting from the empty sequence, for every placement of boundaries and every choice of levels",
 "The five raz tests run single hand-written histories over one 12-element tree; the interplay of partially opened stacks, partially opened trees and boundaries on both sides of the cursor is only sampled at one or two points.",
 [RAZ,AS,ST,CUR],
 [("unfocus: rebuild from stacks and forests","src/raz.rs Raz::unfocus"),("pop_left/pop_right/peek_left/peek_right: open neighbour leaf","src/raz.rs"),("retrieve/next_archive","src/archive_stack.rs")],
 [("l_stack/r_stack","elements and boundaries opened next to the cursor",RAZ),("l_forest/r_forest","unopened tree on both sides",RAZ)],
 ["Raz::push_*/pop_*/peek_*","RazTree::fold_lr"]))
L.append(P("C02","Focusing lands exactly at the requested position",
 "Focusing at a count index i puts the cursor after exactly the first i elements (0 the start, the length or the reserved maximum index the end; at a subsequence boundary the end of the earlier subsequence); focusing by marker name puts it at that marker; focusing at the left or right end puts it at that end. A user-defined kind of metadata finds its positions the same way. The sequence itself is unchanged by focusing, and an index beyond the end or an unknown name is refused rather than landing anywhere (an empty sequence is focused by any index).",
 ["inputs","histories"],"every sequence reachable by editing, conversion, mapping or joining, and every index or marker name, valid or not",
 "Tests focus at four or five indices of one tree with fixed two-element subsequences; off-by-one errors at subsequence boundaries, end positions, name lookup and rejected indices are untested.",
 [RAZ,META],
 [("focus: navigate down by metadata, split the leaf","src/raz.rs RazTree::focus"),("navigate/split_vec for Count, Names, ()","src/raz_meta.rs"),("focus_left","src/raz.rs")],
 [("branch metadata","count or names of each branch","src/raz.rs TreeData::Branch")],["RazTree::focus","RazTree::focus_left"]))
L.append(P("C03","Stored metadata always describes the stored content",
 "After any construction or edit, the metadata reported for a sequence (element count, the set of marker names, or whatever a user-defined kind computes) equals what one gets by counting its elements, collecting its markers, or applying the user-defined functions to each subsequence and each branch with its level and name; and every inner branch of the sequence is consistent with it, so that navigation by that metadata finds every element and every marker.",
 ["histories"],"every sequence reachable through editing, joining, conversion from a stack, and mapping to the same or another kind of metadata",
 "Tests never read the metadata after an edit and never use the name metadata at all.",
 [RAZ,META,CUR],
 [("rebuild on cursor up/join","src/tree_cursor.rs Cursor::up/join"),("TreeUpdate::rebuild, treetop_meta, bin, map","src/raz.rs"),("from_vec/from_meta/from_none","src/raz_meta.rs")],
 [("meta","top-level metadata","src/raz.rs RazTree::meta")],["RazTree::meta","RazTree::focus at every index/name"]))
L.append(P("C04","Subsequence markers keep their place, level and name",
 "A marker placed with data on its near side stays, after unfocusing, exactly between the same two elements with the level it was given and the name derived from the one it was given, through any edits elsewhere. A marker disappears only when an element next to it is taken across it, when it ends up with no data on one side, or when edits leave it adjacent to another marker (then exactly one of the two remains); no marker is ever invented, reordered, or given another marker's level or name.",
 ["histories"],"every editing history and every assignment of levels and (optional) names to markers",
 "The tests set markers only to build one fixed tree; they never read back a name and check levels only through a debug helper.",
 [RAZ,AS,CUR],
 [("unfocus threads level/name of each archive","src/raz.rs Raz::unfocus"),("archive/next_archive metadata","src/archive_stack.rs"),("join/up keep level and name","src/tree_cursor.rs")],
 [("level,name","carried by tree branches and by stack archives","src/level_tree.rs Tree, src/archive_stack.rs")],["RazTree::fold_lr_meta","RazTree::fold_up_nl"]))
L.append(P("C05","Tree structure is canonical: independent of the order of edits",
 "The internal shape of an unfocused sequence, as seen by computations over it, depends only on its elements and markers (their order and levels) and not on the order of the operations that produced it. It is the unique tree in which each branch point has a level at least that of everything to its right and above everything to its left, and the provided level-consistency helper accepts exactly the trees of that form.",
 ["histories","inputs"],"every pair of histories (edits from any side, stack conversions) producing the same elements and markers; every assignment of levels including ties",
 "Tests compare no two construction orders; all test trees use distinct levels, so ties are never exercised.",
 [CUR,RAZ,LT],
 [("level comparisons in join/up","src/tree_cursor.rs Cursor::join, Cursor::up"),("from_stack level bounds","src/raz.rs memo_from"),("good_levels","src/level_tree.rs")],
 [("level","height of a branch point","src/level_tree.rs Tree::level")],["RazTree::fold_up_gauged (bracketing)","Cursor walk","good_levels"]))
L.append(P("C06","Whole-sequence computations equal the list computation",
 "Every computation offered over an unfocused sequence (tree folds with or without markers, folds over whole subsequences, left-to-right folds with or without markers or subsequence-end callbacks) returns what the same computation gives over the plain list of elements and markers in order, calling the user functions on every element exactly once (and in order where a left-to-right fold is asked for). Mapping yields a sequence with each element mapped in place, the same markers, and correct metadata; an empty sequence yields nothing (or the initial accumulator).",
 ["inputs","histories"],"every reachable sequence, every (associative, not necessarily commutative) combination",
 "Tests fold one tree with commutative functions (max, sum, parity), which cannot see reordering, and never test the subsequence or archive folds at all.",
 [RAZ,LT],
 [("fold_up/fold_up_nl/fold_up_gauged/fold_lr*/map","src/raz.rs"),("fold_up_meta/fold_lr_meta/map","src/level_tree.rs")],
 [],["results of the fold_*/map methods"]))
L.append(P("C07","Incremental recomputation equals computing from scratch",
 "With the change-propagating engine on, re-running any computation on a sequence after any series of edits gives exactly the result of running it afresh on the current content. This includes chained computations (mapping then folding, converting a growing stack then folding), computations and edits inside the user's own memoised functions, and any interleaving of edits with partial or repeated demands for results.",
 ["histories"],"every history of edits at any position interleaved with computation demands, over named and unnamed markers",
 "No unit test runs a sequence computation under the incremental engine, let alone twice with an edit between; stale reuse needs a specific edit after a specific demand.",
 [RAZ,LT,CUR],
 [("memoised recursive calls named by forks of the branch name","src/level_tree.rs fold_up_meta/fold_lr_meta/map"),("names attached to tree nodes on unfocus","src/raz.rs Raz::unfocus"),("memoised stack conversion","src/raz.rs memo_from")],
 [],["results of fold/map after each edit under adapton's DCG engine"]))
L.append(P("C08","Recomputation after an edit reuses the unchanged parts",
 "With the change-propagating engine on, re-running a memoised computation (tree folds, maps, left-to-right folds up to the edit) does not call the user's functions again for a subsequence whose content and bounding named markers are unchanged since the last run. Re-running with no edit at all re-executes no element of a sequence divided by named markers, and converting an unchanged stack again does not make its metadata again.",
 ["histories"],"every sequence divided by named markers and every single or repeated edit between two runs",
 "Tests only look at results, which are right even if nothing is ever reused.",
 [LT,RAZ],
 [("memo! calls in fold_up_meta/fold_lr_meta/map","src/level_tree.rs"),("distinct forked names for left and right","src/level_tree.rs"),("name of node = name given at archive","src/raz.rs Raz::unfocus")],
 [],["number and arguments of user-function calls per run"]))
L.append(P("C09","Persistent data: editing a clone never changes the original",
 "Without the incremental engine, or for data archived without names, a clone of a sequence, stack, cursor or tree is independent: no later operation on either copy changes what the other contains or computes.",
 ["histories"],"every reachable value and every series of operations on a copy of it, interleaved with observation of the original",
 "Tests clone one tree and then only read from the clones; they never re-read the original after editing a copy.",
 ["src/lib.rs",RAZ,AS,ST,CUR,LT],
 [("shared structure behind reference-counted, never mutated nodes","src/level_tree.rs, src/stack.rs"),("leaf vectors shared and copied on open","src/raz.rs focus/pop")],
 [],["full content of the original after each operation on a clone"]))
L.append(P("C10","Converting a stack to a sequence preserves everything",
 "Converting an archive stack to a sequence, reading the stack from its tail or from its head, yields exactly the stack's elements in that reading order, with every archive boundary that has data on both sides as a marker with its level and name, in the canonical structure. Converting again after the stack has grown or shrunk gives the same as converting the new stack afresh.",
 ["inputs","histories"],"every archive stack: all boundary counts, all level assignments including ties, named and unnamed boundaries, empty or non-empty active part; both reading directions; incremental re-conversion",
 "Each direction is tested on one stack with five distinct levels and never converted twice under the incremental engine.",
 [RAZ,AS,"src/memo.rs"],
 [("from_stack/from_stack_memo","src/raz.rs MemoFrom impls"),("next_archive","src/archive_stack.rs")],
 [],["RazTree::memo_from + folds, focus"]))
L.append(P("C11","The archive stack is a stack",
 "An archive stack behaves as a last-in-first-out stack regardless of where archives were made: pop, peek and iteration return the elements in order across archive boundaries, emptiness and the active length are exact, and archiving an empty active part does nothing and reports so. Taking the next archive returns the whole active part together with the metadata stored with the archive it exposes, and popping across a boundary reports that boundary's metadata exactly once.",
 ["histories"],"every sequence of push/pop/pop-with-metadata/peek/archive/next-archive/clone/iterate operations, with or without names",
 "Four tests of one short history each; combinations of empty active parts with archives are seen once.",
 [AS,ST],[("retrieve/next_archive/archive","src/archive_stack.rs")],
 [("current","active vector",AS),("archived","persistent list of archived vectors with metadata",AS)],["AStack methods"]))
L.append(P("C12","The cons stack is a persistent list",
 "A cons stack behaves as a persistent immutable list: push, peek, pull, name, emptiness and iteration agree with the list of (optional name, element) pairs pushed, and all earlier versions stay valid and unchanged. Elements can be compared and rebuilt with any names, with the same results under both engines as long as live cells have distinct names.",
 ["histories"],"every sequence of push/pull/iterate operations branching from any earlier version",
 "Two tests push at most four elements in a line and never branch.",
 [ST],[("push_onto / pull / Iter::next","src/stack.rs")],[],["Stack and Head methods"]))
L.append(P("C13","The tree cursor is a faithful zipper",
 "Moving a tree cursor never changes the tree it walks over; forced or discarding moves change exactly the documented link, and moving back up rebuilds each changed node from its new branches. Splitting at a node yields everything to the left, the node, and everything to the right in order; joining two cursors with a node yields left, node, right in order, in canonical structure when the inputs are canonical; and the iterator from a position visits exactly the nodes to its right, in order, incremental folding included. (The trees walked have consistent levels, each branch at least those to its right and above those to its left.)",
 ["histories","inputs"],"every tree up to a size, every cursor position, every series of moves, splits and joins, with tied and distinct levels",
 "Tests walk one or two hand-made trees with distinct levels along one path.",
 [CUR,LT],
 [("up/up_discard choose the nearer ancestor by level","src/tree_cursor.rs"),("down_*_force, dirty flag","src/tree_cursor.rs"),("split/join/into_iters","src/tree_cursor.rs")],
 [("dirty","whether the subtree below was changed",CUR),("l_forest/r_forest","ancestors left and right of the cursor",CUR)],["Cursor methods","IterR"]))
L.append(P("C14","Generic level-tree computations equal plain recursion",
 "On any binary tree, the bottom-up fold sees each node once with its own data, level and name and with its children's results on the correct side; the left-to-right fold visits nodes in order, handing each leaf the name of the branch point before it (the start name for the first); the map rebuilds the same shape, levels and names with mapped data. This holds with either engine, when run repeatedly and after the tree has been rebuilt with changes.",
 ["inputs","histories"],"every binary tree shape up to a size, with any levels and with names on any subset of nodes",
 "Tests use a single nine-node tree, commutative sums and only the default non-incremental engine.",
 [LT],[("fold_up_meta/fold_lr_meta/map memo names","src/level_tree.rs")],[],["Tree::fold_up*, fold_lr*, map"]))
L.append(P("C15","The skip list is a finite map",
 "A skip list behaves as a finite map: after any series of insertions, overwrites, removals and archiving, a lookup returns the last value put for that key and nothing for removed or never-inserted keys, and each update returns the previous mapping. This holds for every path length, including when many keys share one hash path, and with either engine; earlier copies are unaffected without the incremental engine.",
 ["histories","inputs"],"every sequence of put/ext/rem/get/archive operations over a small key set, for every path length that makes keys collide fully, partly or not at all",
 "One random test at path length 8 that never removes a key and never checks previous values, plus one of six inserts.",
 [SK],[("build_path_step/build_path_rec path splicing","src/skiplist.rs"),("ext/get","src/skiplist.rs")],
 [("paths","pointers to the nearest entry whose hash diverges at each bit",SK)],["FinMap methods"]))
L.append(P("C16","Maps and lists accumulated by an incremental fold stay correct",
 "A skip list or archive stack built as the accumulator of an incremental left-to-right fold over a sequence, archived with the name handed over at the end of each subsequence, has after every edit and re-run exactly the content obtained by folding the current sequence from scratch.",
 ["histories"],"every history of edits and re-runs over sequences divided by named markers",
 "This is how the evaluation programs use the library (unique elements, reverse, tree-to-list), but no test runs two rounds; name clashes between subsequences only show after an edit.",
 [RAZ,SK,AS,LT],[("fold_lr_archive hands each leaf the preceding marker's name","src/raz.rs, src/level_tree.rs"),("Skiplist::archive naming of later cells","src/skiplist.rs"),("AStack::archive","src/archive_stack.rs")],[],["content of the accumulator"]))
L.append(P("C17","Generated branch levels follow the balanced-tree distribution",
 "The level generators never return 0 or a value above 64 whatever the random source produces, and over uniformly random input the level k occurs with probability 2^-k (exactly, for every k below the cap), so that generated levels give balanced trees.",
 ["inputs"],"every output pattern of the random source",
 "No test looks at generated levels.",
 [LT,"src/lib.rs","src/trees.rs"],[("gen_branch_level","src/level_tree.rs"),("inc_level","src/lib.rs")],[],["gen_branch_level, inc_level"]))
L.append(P("C18","Joining sequences concatenates them",
 "Joining two non-empty sequences with a level and name gives a sequence whose elements and markers are those of the left, the new marker, then those of the right, with correct metadata, and joining with an empty sequence is refused. The result can be focused, edited, unfocused, folded and joined again with the same guarantees on content and markers, whatever level was given.",
 ["inputs","histories"],"every pair of reachable sequences and every level, including levels below those of the parts, and edits afterwards",
 "No test calls join at all.",
 [RAZ,CUR],[("RazTree::join/bin/from_vec/empty","src/raz.rs"),("cursor up/join on non-canonical levels","src/tree_cursor.rs")],[],["RazTree::join + folds, focus, edits"]))
L.append(P("C19","Accumulator lists of the evaluation crate are stacks",
 "Each of the four accumulator list types, the plain vector, the archive stack and the sequence behave identically through the common push/pop/archive interface: last in, first out, with archiving (named or not) never changing the content, under both engines and with earlier copies unaffected unless a live name is reused.",
 ["histories"],"every sequence of push/pop/archive operations for every implementation of the interface",
 "No test covers these types.",
 ["eval/src/accum_lists.rs","eval/src/interface.rs"],[("seq_push/seq_pop/archive","eval/src/accum_lists.rs"),("interface impls","eval/src/interface.rs")],[],["IFaceSeq/IFaceArchive methods"]))
L.append(P("C20","Evaluation collections hold exactly the generated data",
 "A collection created or edited through the evaluation harness holds exactly the elements its data source generated: creation of any size with any gauges and appends at the end in generation order, inserts as one contiguous block at one position inside the old content (nothing else moving), every position before an element (or named marker) being reachable. The subsequence sizes follow the data gauge and the named markers the name gauge, and no marker name is used twice.",
 ["inputs","configurations","histories"],"every combination of size, data gauge, name gauge, batch size and edit position up to a bound, for each collection kind",
 "The one eval example test checks timing-free plumbing on a fixed tree; creation and edits are only exercised by benchmarks with random seeds.",
 ["eval/src/eval_iraz.rs","eval/src/eval_raz_name_index.rs","eval/src/eval_vec.rs"],
 [("inc_init group sizes","eval/src/eval_iraz.rs"),("insert/append counters","eval/src/eval_iraz.rs"),("EvalVec","eval/src/eval_vec.rs")],[],["comp_fold_meta over the harness collections"]))
L.append(P("C21","Evaluation computations agree across implementations and edits",
 "For every creation and edit sequence run through the evaluation harness, each computation on the incremental collection (max, maps, tree folds, left-to-right folds with markers or subsequence-end callbacks, and the action wrappers that chain them) gives the result of the same computation on the plain list of its current elements, with the incremental engine on; a test sequence performs exactly one creation, the stated number of edits, and one computation after each.",
 ["histories","configurations"],"every sequence of creations, edits and computations up to a bound, over small gauges",
 "The eval crate compares results only inside its benchmark mains, on random data, mostly without checking.",
 ["eval/src/eval_iraz.rs","eval/src/eval_raz_name_index.rs","eval/src/eval_vec.rs","eval/src/actions.rs","eval/src/test_seq.rs","eval/src/examples.rs"],
 [("Comp* impls","eval/src/eval_*.rs"),("Folder/FFolder/MFolder/HFolder/TreeFold*/Compute2","eval/src/actions.rs"),("EditComputeSequence::test","eval/src/test_seq.rs")],[],["Target values of the computations"]))
L.append(P("C22","Editing under the incremental engine keeps the list semantics",
 "With the change-propagating engine on and each named marker's name used for one live marker, editing a sequence linearly (focus, edit, unfocus) has exactly the list semantics it has without the engine. Observations - peeks, metadata, computations - never change the sequence being observed.",
 ["histories"],"every linear editing history with named markers under the incremental engine, with observations interleaved at any point",
 "Every raz unit test runs on the non-incremental engine, where named nodes cannot be overwritten.",
 [RAZ,CUR,LT,ST],[("named cells overwritten on rebuild","src/level_tree.rs Tree::new"),("peeks walk a cloned cursor","src/raz.rs peek_left/peek_right"),("up vs up_discard","src/tree_cursor.rs")],[],["full content after each operation under the DCG engine"]))
L.append(P("C23","The trie represents a finite map",
 "A trie made from a finite map holds exactly that map's entries: a lookup returns the value of that key and nothing for other keys. Tries made from equal maps are equal and have equal hashes, tries made from different maps are not equal. The union of two tries holds the entries of both, so the union with an empty trie is the other trie, and no union loses an entry or adds one.",
 ["inputs","histories"],"every finite map over a few keys and values, in any insertion order, and every union of such tries",
 "There is no test of the trie.",
 ["src/trie.rs"],[("from_hashmap/find/union","src/trie.rs"),("hash_map: equality of leaves","src/trie.rs")],[],["Trie::find","Trie::union","PartialEq and Hash of Trie"]))
L.append(P("C24","Versions edited in their own namespace leave the others alone",
 "With the change-propagating engine on, a clone of named data (sequence, archive stack, cons stack, skip list) that is edited inside a namespace of its own has exactly the edited content, and neither the original nor any other version made from it changes, even when all of them use the same names. This holds for versions of versions, for repeated edits of one version in its namespace, and for computations on and conversions of all of them.",
 ["histories"],"every family of versions up to a size, each made from any earlier one by any short series of edits in a namespace of its own, observed after every edit",
 "The crate documentation promises it and adds that it has not been thoroughly tested; no unit test uses namespaces.",
 ["src/lib.rs",LT,CUR,RAZ,ST,AS,SK],
 [("named cells made on rebuild","src/level_tree.rs Tree::new"),("named cells of stacks","src/stack.rs push_onto"),("named cells of skip lists","src/skiplist.rs put/ext"),("engine namespaces","src/lib.rs")],
 [],["content and computations of every version after each edit"]))
L.append(P("C25","Levels are an ordered scale",
 "The level types are ordered scales of distinct steps: the declared least and greatest level bound all others, levels compare as the numbers they stand for, and going up or down by one from any level but the last in that direction gives the very next greater or lesser one, so that either undoes the other.",
 ["inputs"],"every level of the bounded type and every pair of them; for machine-word levels every value in windows around zero, each power of two and the greatest value",
 "No test uses the level traits; tree algorithms written against them rely on these laws for every level.",
 ["src/trees.rs"],[("Level for NegBin","src/trees.rs"),("Level for usize","src/trees.rs")],[],["l_min, l_max, l_inc, l_dec, comparison"]))
L.append(P("C26","Equality and hashing follow the content",
 "Outside the incremental engine's mutable cells, two sequences, archive stacks, stacks or trees compare equal exactly when they hold the same elements, markers, metadata, levels and names in the same places, however each of them was built (trees and joined sequences: with the same structure); equal ones have equal hashes, and a clone equals its original. Values of the other structures (focused sequences, tree cursors, skip lists) that are built alike compare equal, and ones that hold different content never do.",
 ["inputs"],"every pair of contents, each of them built in every way that leads to it",
 "Memoisation and change propagation decide by these comparisons whether a value has changed; the tests compare few values, and never two that differ in one place only or were built differently.",
 ["src/raz.rs","src/archive_stack.rs","src/stack.rs","src/level_tree.rs","src/tree_cursor.rs","src/skiplist.rs","src/raz_meta.rs"],[("RazTree","src/raz.rs"),("AStack","src/archive_stack.rs"),("Stack","src/stack.rs"),("Names","src/raz_meta.rs")],[],["==, !=, Hash, Clone"]))
L.append(P("C27","Generated evaluation elements are numbers of their range",
 "The element types that evaluations generate are numbers: a drawn small element is below 100 and a drawn larger one below 10000 whatever the random source produces, every value of the range is drawn, the same random numbers draw the same element, and set elements drawn from different random numbers differ. Sums, comparisons, equality and hashes of elements follow the numbers they hold.",
 ["inputs"],"every output of the random source and every pair of elements",
 "No test draws or combines these elements.",
 ["eval/src/types.rs"],[("Rand for GenSmall/Gen10k/GenSetElm","eval/src/types.rs"),("Add, Hash","eval/src/types.rs")],[],["Rand::rand, +, comparison, Hash, From"]))
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
print(len(L))
