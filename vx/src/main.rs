//! vx: mechanical extractor. Reads the macro-expanded source of the crate
//! (rustc -Zunpretty=expanded), the contract overlay, and writes one Verus file.
//!
//! usage: vx EXPANDED OUT REPORT [--axiom KEY]... -- OVERLAY...
//!
//! Every function body is printed from the expanded source's own token tree. What the
//! extraction changes is listed in `rewrite.rs`; items not named by the overlay are
//! emitted outside `verus!` (so they are external to the verifier).
mod overlay;
mod rewrite;
use overlay::Overlay;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::*;
use syn::visit_mut::VisitMut;

pub struct Ctx {
	pub ov: Overlay,
	pub axioms: BTreeSet<String>,
	pub out: String,
	pub report: Vec<(String, String, usize, usize, String)>, // key, status, line0, line1, note
	pub used: BTreeSet<String>,
	pub modpath: Vec<String>,
}

pub fn norm(s: &str) -> String {
	// token string -> canonical key text: drop whitespace except between identifiers
	let mut o = String::new();
	let cs: Vec<char> = s.chars().collect();
	let mut i = 0;
	while i < cs.len() {
		let c = cs[i];
		if c.is_whitespace() {
			let p = o.chars().last();
			let n = cs[i..].iter().find(|c| !c.is_whitespace());
			let id = |c: char| c.is_alphanumeric() || c == '_';
			if let (Some(p), Some(n)) = (p, n) {
				if id(p) && id(*n) {
					o.push(' ');
				} else if p == ',' {
					// none
				}
			}
			while i < cs.len() && cs[i].is_whitespace() {
				i += 1;
			}
			continue;
		}
		o.push(c);
		i += 1;
	}
	o
}

fn strip_lt(t: &Type) -> String {
	// type text without lifetimes and leading paths
	let mut t = t.clone();
	struct S;
	impl syn::visit_mut::VisitMut for S {
		fn visit_type_mut(&mut self, t: &mut Type) {
			if let Type::Reference(r) = t {
				r.lifetime = None;
			}
			syn::visit_mut::visit_type_mut(self, t);
		}
		fn visit_path_mut(&mut self, p: &mut Path) {
			if p.segments.len() > 1 {
				let l = p.segments.last().unwrap().clone();
				p.segments = std::iter::once(l).collect();
				p.leading_colon = None;
			}
			for s in p.segments.iter_mut() {
				if let PathArguments::AngleBracketed(a) = &mut s.arguments {
					let args: Vec<GenericArgument> =
						a.args.iter().filter(|g| !matches!(g, GenericArgument::Lifetime(_))).cloned().collect();
					if args.is_empty() {
						s.arguments = PathArguments::None;
					} else {
						a.args = args.into_iter().collect();
					}
				}
			}
			syn::visit_mut::visit_path_mut(self, p);
		}
	}
	syn::visit_mut::VisitMut::visit_type_mut(&mut S, &mut t);
	norm(&t.to_token_stream().to_string())
}

fn path_key(p: &Path) -> String {
	let t = Type::Path(TypePath { qself: None, path: p.clone() });
	strip_lt(&t)
}

impl Ctx {
	fn line(&self) -> usize {
		self.out.matches('\n').count() + 1
	}
	fn modname(&self) -> String {
		self.modpath.join("::")
	}
	fn emit(&mut self, s: &str) {
		self.out.push_str(s);
		self.out.push('\n');
	}

	/// Emits one contracted function. `key` is the overlay key.
	fn emit_fn(&mut self, key: &str, attrs: &[Attribute], vis: &str, sig: &Signature, body: &Block, in_trait_impl: bool) {
		let spec = self.ov.fns.get(key).cloned().unwrap_or_default();
		self.used.insert(key.to_string());
		let mut note = String::new();
		let mut axiom = self.axioms.contains(key) || spec.axiom;
		if spec.axiom {
			note.push_str("contract assumed (listed in overlay); ");
		}
		let mut body = body.clone();
		let mut sig = sig.clone();
		rewrite::mut_self(&mut sig, &mut body);
		let sig = &sig;
		let info = rewrite::rewrite(&mut body, &spec);
		let names = rewrite::Names::new(sig, &body);
		let sub = |t: &str, ax: &mut bool, note: &mut String| -> String {
			match names.subst(t) {
				Ok(s) => s,
				Err(e) => {
					*ax = true;
					note.push_str(&format!("lost anchor: {}; ", e));
					String::new()
				}
			}
		};
		// loops must match
		let mut text = String::new();
		if info.loops != spec.loops.len() && !(axiom) && !(spec.loops.is_empty() && spec.noloopcheck) {
			axiom = true;
			note.push_str(&format!("loop count {} differs from the contract's {}; ", info.loops, spec.loops.len()));
		}
		let contract = sub(&spec.contract, &mut axiom, &mut note);
		let begin = sub(&spec.begin, &mut axiom, &mut note);
		let mut loops = vec![];
		for l in &spec.loops {
			loops.push((
				sub(&l.inv, &mut axiom, &mut note),
				sub(&l.begin, &mut axiom, &mut note),
				sub(&l.end, &mut axiom, &mut note),
				sub(&l.before, &mut axiom, &mut note),
				sub(&l.after, &mut axiom, &mut note),
			));
		}
		if !spec.attrs.is_empty() {
			for a in &spec.attrs {
				let _ = writeln!(text, "{}", a);
			}
		}
		if !spec.loops.is_empty() {
			text.push_str("#[verifier::loop_isolation(false)]\n");
		}
		let _ = attrs;
		let mut sig2 = sig.clone();
		for (i, p) in sig2.inputs.iter_mut().enumerate() {
			if let FnArg::Typed(t) = p {
				if let Pat::Wild(_) = &*t.pat {
					let id = syn::Ident::new(&format!("__w{}", i), proc_macro2::Span::call_site());
					t.pat = Box::new(parse_quote!(#id));
				}
			}
		}
		let ret = match &sig.output {
			ReturnType::Default => None,
			ReturnType::Type(_, t) => Some(t.clone()),
		};
		sig2.output = ReturnType::Default;
		let whr = sig2.generics.where_clause.take();
		let st = sig2.to_token_stream().to_string();
		let start = {
			if axiom {
				text.push_str("#[verifier::external_body]\n");
			}
			let _ = write!(text, "{} {}", vis, st);
			if let Some(r) = ret {
				let rt = r.to_token_stream().to_string();
				if in_trait_impl && contract.trim().is_empty() {
					let _ = write!(text, " -> {}", rt);
				} else {
					let _ = write!(text, " -> (__r: {})", rt);
				}
			}
			if let Some(w) = whr {
				let _ = write!(text, " {}", w.to_token_stream());
			}
			let _ = writeln!(text);
			if !contract.trim().is_empty() {
				let _ = writeln!(text, "{}", contract.trim_end());
			}
			self.line()
		};
		if axiom {
			// the body is not looked at
			text.push_str("{ unimplemented!() }\n");
		} else {
			let mut b = rewrite::pretty(&body.to_token_stream().to_string());
			if !begin.trim().is_empty() {
				b = b.replacen('{', &format!("{{\n{}\n", begin), 1);
			}
			for n in 0..info.loops {
				b = b.replace(&format!("__vit_{} !", n), &format!("__it{} :", n));
			}
			for (n, (inv, lb, le, before, after)) in loops.iter().enumerate() {
				let mark = |b: &str, w: &str| -> Option<(usize, usize)> {
					let m = format!("{}_{} ", w, n);
					let p = b.find(&m)?;
					let e = b[p..].find(';')? + p + 1;
					Some((p, e))
				};
				if let Some((p, e)) = mark(&b, "__vloop") {
					let open = b[..p].rfind('{').unwrap();
					let mut s = String::new();
					s.push_str(&b[..open]);
					s.push_str(&format!("\n{}\n{{\n{}\n", inv, lb));
					s.push_str(&b[e..]);
					b = s;
				}
				if let Some((p, e)) = mark(&b, "__vloopend") {
					b.replace_range(p..e, le);
				}
				if let Some((p, e)) = mark(&b, "__vloopbefore") {
					b.replace_range(p..e, before);
				}
				if let Some((p, e)) = mark(&b, "__vloopafter") {
					b.replace_range(p..e, after);
				}
			}
			let mut sb = spec.sortby.lines();
			b = b.replace("__vsortby +", sb.next().unwrap_or("|__a, __b|")).replace("__vsortkey", sb.next().unwrap_or("Ghost(arbitrary())"));
			for (k, t) in &spec.after {
				match rewrite::find_stmt(&b, k) {
					Some(p) => {
						let t2 = sub(t, &mut axiom, &mut note);
						b.insert_str(p, &format!("\n{}\n", t2));
					}
					None => note.push_str(&format!("lost hint anchor: {}; ", k)),
				}
			}
			text.push_str(&b);
			text.push('\n');
		}
		self.emit(&text);
		let end = self.line();
		let status = if axiom { "axiom" } else { "verify" };
		self.report.push((key.to_string(), status.to_string(), start, end, note));
	}

	fn item(&mut self, it: &Item) {
		match it {
			Item::Fn(f) => {
				let short = self.modpath.last().cloned().unwrap_or_default();
				let key = format!("{}::{}", short, f.sig.ident);
				if self.ov.fns.contains_key(&key) {
					self.emit("::vstd::prelude::verus! {");
					self.emit_fn(&key, &f.attrs, "pub", &f.sig, &f.block, false);
					self.emit("}");
				} else if !self.ov.is_dropped(&key) {
					self.raw(it);
				}
			}
			Item::Impl(im) => self.item_impl(im),
			Item::Mod(m) => {
				let name = m.ident.to_string();
				self.modpath.push(name.clone());
				let key = self.modname();
				if !self.ov.is_dropped(&format!("mod {}", key)) {
					if let Some((_, items)) = &m.content {
						self.emit(&format!("pub mod {} {{", name));
						self.emit("#[allow(unused_imports)] use ::vstd::prelude::*;");
						if self.ov.globs {
							self.emit("#[allow(unused_imports)] use crate::{__vx::*, __vxmode::*, __vxt::*, __vxprims::*, __vxcont::*, __vxopt::*, __vxidx::*, __vxwalk::*, __vxmap::*};");
							if self.ov.tail.iter().any(|(k, _)| k == "derived") {
								self.emit("#[allow(unused_imports)] use crate::__vxdt::*;");
							}
						}
						if let Some(t) = self.ov.modtext.get(&key).cloned() {
							self.emit(&t);
						}
						for i in items {
							self.item(i);
						}
						self.emit("}");
					}
				}
				self.modpath.pop();
			}
			Item::Struct(s) => self.data(&s.ident.to_string(), it),
			Item::Enum(s) => self.data(&s.ident.to_string(), it),
			Item::Const(c) => self.data(&c.ident.to_string(), it),
			Item::Type(c) => self.data(&c.ident.to_string(), it),
			Item::Trait(t) => {
				let key = format!("trait {}", t.ident);
				if self.ov.is_dropped(&key) {
					return;
				}
				self.raw(it)
			}
			Item::Macro(_) | Item::ExternCrate(_) => {}
			Item::Use(u) => {
				let s = norm(&u.to_token_stream().to_string());
				if s.contains("prelude_import") || s.contains("::prelude::rust_20") || s.contains("revision_derive") {
					return;
				}
				if self.ov.is_dropped(&s) {
					return;
				}
				let mut u = u.clone();
				u.attrs.clear();
				let s = u.to_token_stream().to_string();
				self.emit("#[allow(unused_imports)]");
				self.emit(&s);
			}
			_ => self.raw(it),
		}
	}

	fn data(&mut self, name: &str, it: &Item) {
		let key = format!("data {}", name);
		if self.ov.is_dropped(&key) {
			return;
		}
		let mut it = it.clone();
		let private = self.ov.data.get(name).map_or(false, |t| t.contains("// private"));
		let strip = |a: &mut Vec<Attribute>| a.retain(|x| x.path().is_ident("derive") && false);
		match &mut it {
			Item::Struct(s) => {
				strip(&mut s.attrs);
				s.vis = parse_quote!(pub);
				for f in s.fields.iter_mut() {
					f.attrs.clear();
					rewrite::unfn(&mut f.ty);
					if !private {
						f.vis = parse_quote!(pub);
					}
				}
			}
			Item::Enum(s) => {
				strip(&mut s.attrs);
				s.vis = parse_quote!(pub);
				for v in s.variants.iter_mut() {
					v.attrs.clear();
					for f in v.fields.iter_mut() {
						f.attrs.clear();
					}
				}
			}
			Item::Const(c) => {
				c.attrs.clear();
				c.vis = parse_quote!(pub);
			}
			Item::Type(c) => {
				c.attrs.clear();
				c.vis = parse_quote!(pub);
			}
			_ => {}
		}
		if let Some(a) = self.ov.data.get(name).cloned() {
			self.used.insert(key);
			self.emit("::vstd::prelude::verus! {");
			self.emit(&a);
			let s = rewrite::pretty(&it.to_token_stream().to_string());
			self.emit(&s);
			self.emit("}");
		} else {
			let s = rewrite::pretty(&it.to_token_stream().to_string());
			self.emit(&s);
		}
	}

	fn raw(&mut self, it: &Item) {
		let mut it = it.clone();
		match &mut it {
			Item::Fn(f) => f.attrs.clear(),
			Item::Impl(f) => f.attrs.clear(),
			Item::Trait(f) => f.attrs.clear(),
			_ => {}
		}
		struct S;
		impl syn::visit_mut::VisitMut for S {
			fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
				a.clear();
			}
			fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
				f.attrs.clear();
				if !f.sig.output.to_token_stream().to_string().contains("impl ") {
					f.block = parse_quote!({ unimplemented!() });
				}
			}
			fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
				f.attrs.clear();
				f.block = parse_quote!({ unimplemented!() });
			}
			fn visit_trait_item_fn_mut(&mut self, f: &mut TraitItemFn) {
				f.attrs.clear();
				if f.default.is_some() {
					f.default = Some(parse_quote!({ unimplemented!() }));
				}
			}
			fn visit_visibility_mut(&mut self, v: &mut Visibility) {
				let _ = v;
			}
			fn visit_expr_mut(&mut self, e: &mut Expr) {
				rewrite::fix_format(e);
				syn::visit_mut::visit_expr_mut(self, e);
			}
		}
		syn::visit_mut::VisitMut::visit_item_mut(&mut S, &mut it);
		let s = rewrite::pretty(&it.to_token_stream().to_string());
		self.emit(&s);
	}

	fn item_impl(&mut self, im: &ItemImpl) {
		let auto = im.attrs.iter().any(|a| a.path().is_ident("automatically_derived"));
		let ty = strip_lt(&im.self_ty);
		let (pre, tr) = match &im.trait_ {
			Some((_, p, _)) => (norm(&format!("{} for {}", path_key(p), ty)), true),
			None => (ty.clone(), false),
		};
		if self.ov.is_dropped(&format!("impl {}", pre)) {
			return;
		}
		let mut kept = vec![];
		let mut rest = vec![];
		for i in &im.items {
			if let ImplItem::Fn(f) = i {
				let key = format!("{}::{}", pre, f.sig.ident);
				if self.ov.fns.contains_key(&key) {
					kept.push((key, f.clone()));
					continue;
				} else if self.ov.is_dropped(&key) {
					continue;
				}
			}
			rest.push(i.clone());
		}
		if kept.is_empty() {
			if auto {
				// builtin derives: re-emitted as the same derive where possible
				let t = match &im.trait_ {
					Some((_, p, _)) => p.segments.last().unwrap().ident.to_string(),
					None => return,
				};
				if ["StructuralPartialEq", "TrivialClone"].contains(&t.as_str()) {
					return;
				}
			}
			let mut im = im.clone();
			if auto && pre.starts_with("Eq for") {
				im.items.clear();
			}
			self.raw(&Item::Impl(im));
			return;
		}
		let mut head = im.clone();
		head.attrs.clear();
		head.items.clear();
		let whole = tr;
		let unsafety = if im.unsafety.is_some() { "unsafe " } else { "" };
		let (ig, _tg, wc) = im.generics.split_for_impl();
		let trait_part = match &im.trait_ {
			Some((_, p, _)) => format!("{} for ", p.to_token_stream()),
			None => String::new(),
		};
		let hd = format!(
			"{}impl {} {}{} {}",
			unsafety,
			ig.to_token_stream(),
			trait_part,
			im.self_ty.to_token_stream(),
			wc.to_token_stream()
		);
		self.emit("::vstd::prelude::verus! {");
		self.emit(&format!("{} {{", hd));
		for (key, f) in kept {
			let vis = if tr { "" } else { "pub" };
			self.emit_fn(&key, &f.attrs, vis, &f.sig, &f.block, tr);
		}
		if whole {
			for i in &rest {
				match i {
					ImplItem::Fn(f) => {
						let mut f = f.clone();
						f.attrs.clear();
						self.emit("#[verifier::external_body]");
						let sig = f.sig.to_token_stream().to_string();
						self.emit(&format!("{} {{ unimplemented!() }}", sig));
						let key = format!("{}::{}", pre, f.sig.ident);
						let l = self.line();
						self.report.push((key, "axiom".into(), l, l, "not under contract; body not verified".into()));
					}
					o => {
						let s = o.to_token_stream().to_string();
						self.emit(&s);
					}
				}
			}
		}
		self.emit("}");
		self.emit("}");
		if !whole && !rest.is_empty() {
			let mut r = im.clone();
			r.items = rest;
			self.raw(&Item::Impl(r));
		}
	}
}

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let src = std::fs::read_to_string(&args[0]).expect("expanded");
	let mut axioms = BTreeSet::new();
	let mut ovs = vec![];
	let mut i = 3;
	while i < args.len() {
		if args[i] == "--axiom" {
			axioms.insert(args[i + 1].clone());
			i += 2;
		} else if args[i] == "--" {
			ovs = args[i + 1..].to_vec();
			break;
		} else {
			i += 1;
		}
	}
	let mut file = parse_file(&src).unwrap_or_else(|e| {
		eprintln!("vx: cannot parse the expanded source: {}", e);
		std::process::exit(3)
	});
	rewrite::LocalPaths.visit_file_mut(&mut file);
	let mut ov = Overlay::default();
	for o in &ovs {
		ov.load(o);
	}
	let mut cx = Ctx {
		ov,
		axioms,
		out: String::new(),
		report: vec![],
		used: BTreeSet::new(),
		modpath: vec![],
	};
	cx.emit("#![feature(allocator_api, sized_hierarchy)]\n#![allow(warnings)]");
	cx.emit("extern crate alloc;");
	cx.emit("#[allow(unused_imports)] use ::vstd::prelude::*;");
	let head = cx.ov.modtext.get("crate").cloned().unwrap_or_default();
	cx.emit(&head);
	for it in &file.items {
		cx.item(it);
	}
	for (k, t) in cx.ov.tail.clone() {
		cx.emit(&format!("// ---- overlay {}", k));
		cx.emit(&t);
	}
	cx.emit("fn main() {}");
	std::fs::write(&args[1], &cx.out).unwrap();
	let mut rep = String::from("{\"fns\":[\n");
	let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
	let n = cx.report.len();
	for (i, (k, s, a, b, note)) in cx.report.iter().enumerate() {
		let f = cx.ov.fns.get(k);
		let props = f.map(|f| f.props.clone()).unwrap_or_default();
		let _ = writeln!(
			rep,
			"{{\"key\":\"{}\",\"status\":\"{}\",\"l0\":{},\"l1\":{},\"note\":\"{}\",\"props\":\"{}\",\"intended_axiom\":{}}}{}",
			esc(k), s, a, b, esc(note), props.join(" "), f.map(|f| f.axiom).unwrap_or(true),
			if i + 1 < n { "," } else { "" }
		);
	}
	rep.push_str("],\n\"missing\":[");
	let missing: Vec<String> = cx
		.ov
		.fns
		.keys()
		.filter(|k| !cx.used.contains(*k))
		.map(|k| format!("{{\"key\":\"{}\",\"props\":\"{}\"}}", esc(k), cx.ov.fns[k].props.join(" ")))
		.collect();
	rep.push_str(&missing.join(","));
	rep.push_str("]}\n");
	std::fs::write(&args[2], rep).unwrap();
	let _ = (quote!(), TokenStream::new(), BTreeMap::<u8, u8>::new());
}
