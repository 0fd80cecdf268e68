//! Contract overlay files.
//!
//! Directives start at column 0 with `//!! `; everything until the next directive is its text.
//!   //!! crate                   verus text at the crate root (before the items)
//!   //!! mod PATH                text at the start of a module
//!   //!! tail NAME               text at the end of the file
//!   //!! drop KEY                do not emit an item
//!   //!! data NAME               bring a struct/enum/const inside verus! (text: attributes)
//!   //!! fn KEY [: PROPS]        bring a function under contract (text: requires/ensures)
//!   //!! axiom KEY [: PROPS]     contract assumed; body not verified
//!   //!! loop KEY                next loop's invariant clauses
//!   //!! loopbegin / loopend / loopbefore / loopafter KEY   ghost text for the last loop
//!   //!! begin KEY               ghost text at function entry
//!   //!! sortby KEY              closure header and ghost key for sort_by, one per line
//!   //!! after KEY | TOKENS      ghost text after the first statement containing TOKENS
//!   //!! attr KEY                attributes for the function
//!   //!! opt KEY N...            the N-th .map/.and_then in the body is on an Option
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Default, Debug)]
pub struct LoopSpec {
	pub inv: String,
	pub begin: String,
	pub end: String,
	pub before: String,
	pub after: String,
}
#[derive(Clone, Default, Debug)]
pub struct FnSpec {
	pub props: Vec<String>,
	pub contract: String,
	pub begin: String,
	pub loops: Vec<LoopSpec>,
	pub after: Vec<(String, String)>,
	pub sortby: String,
	pub attrs: Vec<String>,
	pub axiom: bool,
	pub noloopcheck: bool,
	pub opt: BTreeSet<usize>,
}
#[derive(Default)]
pub struct Overlay {
	pub fns: BTreeMap<String, FnSpec>,
	pub data: BTreeMap<String, String>,
	pub drops: BTreeSet<String>,
	pub modtext: BTreeMap<String, String>,
	pub tail: Vec<(String, String)>,
	pub globs: bool,
}

fn key(s: &str) -> String {
	crate::norm(s.trim())
}

impl Overlay {
	pub fn is_dropped(&self, k: &str) -> bool {
		self.drops.contains(&crate::norm(k))
			|| self.drops.iter().any(|d| d.ends_with('*') && crate::norm(k).starts_with(&d[..d.len() - 1]))
	}
	pub fn load(&mut self, path: &str) {
		let src = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{}: {}", path, e));
		let mut cur: Option<(String, String)> = None;
		let mut items = vec![];
		for l in src.lines() {
			if let Some(d) = l.strip_prefix("//!! ") {
				if let Some(c) = cur.take() {
					items.push(c);
				}
				cur = Some((d.to_string(), String::new()));
			} else if let Some(c) = cur.as_mut() {
				c.1.push_str(l);
				c.1.push('\n');
			}
		}
		if let Some(c) = cur.take() {
			items.push(c);
		}
		for (d, text) in items {
			let (w, rest) = d.split_once(' ').unwrap_or((d.as_str(), ""));
			match w {
				"crate" => self.modtext.entry("crate".into()).or_default().push_str(&text),
				"mod" => self.modtext.entry(rest.trim().into()).or_default().push_str(&text),
				"tail" => self.tail.push((rest.into(), text)),
				"globs" => self.globs = true,
				"drop" => {
					self.drops.insert(key(rest));
				}
				"data" => {
					self.data.insert(rest.trim().into(), text);
				}
				"fn" | "axiom" => {
					let (k, props) = match rest.split_once(" : ") {
						Some((k, p)) => (k, p),
						None => (rest, ""),
					};
					let e = self.fns.entry(key(k)).or_default();
					e.contract.push_str(&text);
					e.props.extend(props.split_whitespace().map(|s| s.to_string()));
					if w == "axiom" {
						e.axiom = true;
					}
				}
				"noloops" => self.fns.entry(key(rest)).or_default().noloopcheck = true,
				"loop" => self.fns.entry(key(rest)).or_default().loops.push(LoopSpec { inv: text, ..Default::default() }),
				"loopbegin" => self.fns.entry(key(rest)).or_default().loops.last_mut().unwrap().begin = text,
				"loopend" => self.fns.entry(key(rest)).or_default().loops.last_mut().unwrap().end = text,
				"loopbefore" => self.fns.entry(key(rest)).or_default().loops.last_mut().unwrap().before = text,
				"loopafter" => self.fns.entry(key(rest)).or_default().loops.last_mut().unwrap().after = text,
				"begin" => self.fns.entry(key(rest)).or_default().begin.push_str(&text),
				"attr" => self.fns.entry(key(rest)).or_default().attrs.push(text.trim().to_string()),
				"sortby" => self.fns.entry(key(rest)).or_default().sortby = text,
				"after" => {
					let (k, t) = rest.split_once('|').expect("after KEY | TOKENS");
					self.fns.entry(key(k)).or_default().after.push((t.trim().to_string(), text));
				}
				"opt" => {
					let mut p: Vec<&str> = rest.split_whitespace().collect();
					let mut ns = BTreeSet::new();
					while let Some(n) = p.last().and_then(|x| x.parse::<usize>().ok()) {
						ns.insert(n);
						p.pop();
					}
					self.fns.entry(key(&p.join(" "))).or_default().opt = ns;
				}
				o => panic!("{}: unknown directive {}", path, o),
			}
		}
	}
}
