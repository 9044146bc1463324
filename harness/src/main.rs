#![allow(deprecated)]
#[path = "../../shared/mc.rs"]
#[macro_use]
mod mc;
mod common;
mod raz_model;
mod stacks;
mod trees;
mod trie;
mod dcg;
mod nested;
mod skip;
mod spaces;
mod large;
mod levels;
mod equality;
mod checks;

fn main() {
	let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string());
	std::process::exit(mc::main("naive", &root, &|id, tier| checks::check(id, tier)));
}
