use crate::mc::*;
pub fn check(id: &str, tier: &str) -> Option<Check> {
	let th = tier == "thorough";
	let a = vec!["the adapton engine and the Rust standard library are correct"];
	match id {
		"C19" => Some(Check { id: "C19", assumptions: a, parts: crate::lists::c19(th) }),
		"C20" => Some(Check { id: "C20", assumptions: a, parts: crate::colls::c20(th) }),
		"C21" => Some(Check { id: "C21", assumptions: a, parts: crate::comps::c21(th) }),
		"C27" => Some(Check { id: "C27", assumptions: a, parts: crate::types::c27(th) }),
		_ => None,
	}
}
