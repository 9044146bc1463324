#![allow(deprecated)]
#[path = "../../shared/mc.rs"]
#[macro_use]
mod mc;
mod common;
mod lists;
mod colls;
mod comps;
mod seqs;
mod types;
mod checks;

fn main() {
	let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string());
	std::process::exit(mc::main("eval", &root, &|id, tier| checks::check(id, tier)));
}
