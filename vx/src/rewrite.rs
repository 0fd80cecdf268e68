//! The complete list of what extraction changes inside a kept function body:
//!  R1  attributes (#[inline], ...) are dropped.
//!  R2  `x.m(Path)` with a constructor or function as value, for m in map/map_err/and_then/
//!      ok_or_else/..., becomes `x.m(|__e| Path(__e))`.
//!  R3  Result::map / Result::and_then / Option::map with a closure free of return/?/await is
//!      replaced by its definition, a `match` (map_err keeps its closure; the error value is
//!      not tracked).
//!  R4  `format!(..)` (its expansion) becomes a call returning an unconstrained String.
//!  R5  closure parameter patterns that are not variables get a name.
//!  R6  `io::Error::new(..)` becomes a call returning an unconstrained io::Error.
//!  R8  x.to_le_bytes() / T::from_le_bytes(b) are renamed to vx_to_le_bytes / vx_from_le_bytes, trait
//!      methods with an assumed contract that call the std functions.
//!  R7  loop bodies get a marker that is replaced by the contract's invariants; `for p in e`
//!      becomes Verus's `for p in __itN: e` (names the ghost iterator).
//!  R10 calls of the panic runtime (the expansion of panic!, assert!, debug_assert!, unreachable!)
//!      become a call whose contract is `requires false`: reaching one is a failed obligation.
//!  R11 let chains `if a && let P = e && b {A} else {B}` become nested ifs (B repeated).
//!  R12 a marker field `PhantomData<fn() -> X>` is declared `PhantomData<X>`.
//!  R13 derive expansions: paths `::revision::x` are spelled `crate::x` (the declarations are expanded inside
//!      the crate itself); `static X: T = e;` inside a body becomes `let X: T = e;`; a
//!      `let f: fn(..) -> .. = path;` that is never used again (a type ascription) is dropped.
//!  R14 `v[a..b].copy_from_slice(s)` becomes `__vx::vx_put(&mut v, a, b, s)`, whose body is that statement and
//!      whose contract is proved.
//!  R15 `fn f(mut self, ..) { .. }` becomes `fn f(self, ..) { let mut __self = self; .. }` with self renamed.
//!  R16 `x.sort()` / `x.sort_unstable()` become `__vx::vx_sort(&mut x)`, which calls it under an assumed contract;
//!      `x.sort_by(|a, b| e)` becomes `__vx::vx_sort_by(&mut x, |a, b| -> (o: Ordering) ensures .. { e }, ghost key)`, where
//!      the closure's postcondition (proved) and the key come from the contract.
//!      `x.into_iter().unzip()` becomes `__vx::vx_unzip(x)`, which calls it under an assumed contract.
//!  R9  `unsafe { assert_unchecked(c) };` is dropped; c is not checked (listed as an assumption).
use crate::overlay::FnSpec;
use proc_macro2::Span;
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Info {
	pub loops: usize,
}

struct Rw<'a> {
	spec: &'a FnSpec,
	loops: usize,
	maps: usize,
}

struct HasFlow(bool);
impl<'ast> syn::visit::Visit<'ast> for HasFlow {
	fn visit_expr(&mut self, e: &'ast Expr) {
		match e {
			Expr::Try(_) | Expr::Return(_) | Expr::Await(_) => self.0 = true,
			Expr::Closure(_) => return,
			_ => {}
		}
		syn::visit::visit_expr(self, e);
	}
}
fn has_flow(e: &Expr) -> bool {
	let mut h = HasFlow(false);
	syn::visit::Visit::visit_expr(&mut h, e);
	h.0
}

/// the expansion of format!/panic-free string building
pub fn fix_format(e: &mut Expr) {
	if let Expr::Call(c) = e {
		let f = crate::norm(&c.func.to_token_stream().to_string());
		if f.ends_with("__export::must_use") || f.ends_with("fmt::format") {
			*e = parse_quote!(crate::__vx::fmt_string());
		} else if f.ends_with("io::Error::new") || f == "io::Error::new" {
			*e = parse_quote!(crate::__vx::io_error());
		} else if f.contains("core::panicking::panic") || f.contains("core::panicking::assert_failed") || f.contains("panicking::unreachable_display") {
			*e = parse_quote!(crate::__vx::reached_panic());
		}
	}
	if let Expr::Path(p) = e {
		if crate::norm(&p.to_token_stream().to_string()).contains("core::panicking::AssertKind::") {
			*e = parse_quote!(());
		}
	}
}

/// R12: a field `PhantomData<fn() -> X>` is declared `PhantomData<X>`
pub fn unfn(t: &mut Type) {
	if let Type::Path(p) = t {
		let l = p.path.segments.last_mut().unwrap();
		if l.ident == "PhantomData" {
			if let PathArguments::AngleBracketed(a) = &mut l.arguments {
				if let Some(GenericArgument::Type(Type::BareFn(b))) = a.args.first().cloned() {
					if let ReturnType::Type(_, r) = &b.output {
						a.args[0] = GenericArgument::Type((**r).clone());
					}
				}
			}
		}
	}
}
fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
	match e {
		Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
			conjuncts(&b.left, out);
			conjuncts(&b.right, out);
		}
		Expr::Paren(p) => conjuncts(&p.expr, out),
		_ => out.push(e.clone()),
	}
}
/// R11: `if c1 && let P = e && c2 { A } else { B }` -> nested ifs, B repeated per level
fn unchain(cs: Vec<Expr>, then: &Block, els: Option<&Expr>) -> Expr {
	let mut body: Block = then.clone();
	let mut out: Option<Expr> = None;
	for c in cs.iter().rev() {
		let e: Expr = match els {
			Some(b) => parse_quote!(if #c #body else #b),
			None => parse_quote!(if #c #body),
		};
		body = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] };
		out = Some(e);
	}
	out.unwrap()
}

impl VisitMut for Rw<'_> {
	fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
		a.clear();
	}
	fn visit_block_mut(&mut self, b: &mut Block) {
		// loopbefore markers
		let mut out = vec![];
		let all = b.stmts.iter().map(|s| format!(" {} ", s.to_token_stream())).collect::<String>();
		for mut s in b.stmts.drain(..) {
			if let Stmt::Item(Item::Static(st)) = &s {
				let (id, ty, e) = (&st.ident, &st.ty, &st.expr);
				s = parse_quote!(let #id: #ty = #e;);
			}
			if let Stmt::Local(l) = &s {
				if let (Pat::Type(pt), Some(init)) = (&l.pat, &l.init) {
					if let (Pat::Ident(id), Type::BareFn(_), Expr::Path(_)) = (&*pt.pat, &*pt.ty, &*init.expr) {
						if all.matches(&format!(" {} ", id.ident)).count() == 1 {
							continue; // R13
						}
					}
				}
			}
			let n = self.loops;
			let is_loop = matches!(&s, Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _));
			if let Stmt::Item(Item::Use(_)) = &s {
				out.push(s);
				continue;
			}
			self.visit_stmt_mut(&mut s);
			if is_loop {
				let id = Ident::new(&format!("__vloopbefore_{}", n), Span::call_site());
				out.push(parse_quote!(#id();));
			}
			if let Stmt::Expr(Expr::Unsafe(u), _) = &s {
				if u.block.stmts.len() == 1 && u.block.to_token_stream().to_string().contains("assert_unchecked") {
					continue; // R9
				}
			}
			let lt = matches!(&s, Stmt::Expr(Expr::Loop(_), None));
			out.push(s);
			if is_loop && !lt {
				let id = Ident::new(&format!("__vloopafter_{}", n), Span::call_site());
				out.push(parse_quote!(#id();));
			}
		}
		b.stmts = out;
	}
	fn visit_expr_mut(&mut self, e: &mut Expr) {
		fix_format(e);
		if let Expr::MethodCall(m) = e {
			if m.method == "copy_from_slice" && m.args.len() == 1 {
				if let Expr::Index(ix) = &*m.receiver {
					if let Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) = &*ix.index {
						let (v, y) = (&ix.expr, &m.args[0]);
						*e = parse_quote!(crate::__vx::vx_put(&mut #v, #a, #b, #y)); // R14
					}
				}
			}
		}
		if let Expr::MethodCall(m) = e {
			if (m.method == "sort" || m.method == "sort_unstable") && m.args.is_empty() {
				let v = &m.receiver;
				*e = parse_quote!(crate::__vx::vx_sort(&mut #v)); // R16
			}
		}
		if let Expr::MethodCall(m) = e {
			if m.method == "unzip" && m.args.is_empty() {
				if let Expr::MethodCall(n) = &*m.receiver {
					if n.method == "into_iter" && n.args.is_empty() {
						let v = &n.receiver;
						*e = parse_quote!(crate::__vx::vx_unzip(#v)); // R16
					}
				}
			}
		}
		if let Expr::MethodCall(m) = e {
			if (m.method == "sort_by" || m.method == "sort_unstable_by") && m.args.len() == 1 {
				if let Expr::Closure(c) = &m.args[0] {
					if c.inputs.len() == 2 {
						let (v, a, b, body) = (&m.receiver, &c.inputs[0], &c.inputs[1], &c.body);
						*e = parse_quote!(crate::__vx::vx_sort_by(&mut #v, __vsortby + { let #a = __a; let #b = __b; #body }, __vsortkey));
					}
				}
			}
		}
		let lp = |b: &mut Block, n: usize| {
			let id = Ident::new(&format!("__vloop_{}", n), Span::call_site());
			let ide = Ident::new(&format!("__vloopend_{}", n), Span::call_site());
			b.stmts.insert(0, parse_quote!(#id();));
			if let Some(Stmt::Expr(x, semi)) = b.stmts.last_mut() {
				if semi.is_none() {
					*semi = Some(Default::default());
				}
				let _ = x;
			}
			b.stmts.push(parse_quote!(#ide();));
		};
		match e {
			Expr::ForLoop(f) => {
				let n = self.loops;
				self.loops += 1;
				f.attrs.clear();
				visit_mut::visit_expr_for_loop_mut(self, f);
				let it = Ident::new(&format!("__vit_{}", n), Span::call_site());
				let ex = &f.expr;
				f.expr = parse_quote!(#it!(#ex));
				lp(&mut f.body, n);
				return;
			}
			Expr::While(f) => {
				let n = self.loops;
				self.loops += 1;
				visit_mut::visit_expr_while_mut(self, f);
				lp(&mut f.body, n);
				return;
			}
			Expr::Loop(f) => {
				let n = self.loops;
				self.loops += 1;
				visit_mut::visit_expr_loop_mut(self, f);
				lp(&mut f.body, n);
				return;
			}
			_ => {}
		}
		visit_mut::visit_expr_mut(self, e);
		if let Expr::If(i) = e {
			let mut cs = vec![];
			conjuncts(&i.cond, &mut cs);
			if cs.len() > 1 && cs.iter().any(|c| matches!(c, Expr::Let(_))) {
				*e = unchain(cs, &i.then_branch, i.else_branch.as_ref().map(|x| &*x.1));
			}
		}
		if let Expr::Path(p) = e {
			if let Some(l) = p.path.segments.last_mut() {
				if l.ident == "from_le_bytes" {
					l.ident = Ident::new("vx_from_le_bytes", Span::call_site());
				}
			}
		}
		if let Expr::MethodCall(m) = e {
			if m.method == "to_le_bytes" {
				m.method = Ident::new("vx_to_le_bytes", Span::call_site());
			}
			let name = m.method.to_string();
			let hof = ["map", "map_err", "and_then", "ok_or_else", "unwrap_or_else", "or_else"];
			if hof.contains(&name.as_str()) && m.args.len() == 1 {
				if let Expr::Path(p) = &m.args[0] {
					let p = p.clone();
					m.args[0] = if name == "ok_or_else" { parse_quote!(|| #p()) } else { parse_quote!(|__e| #p(__e)) };
				}
				if let Expr::Closure(c) = &mut m.args[0] {
					for (i, p) in c.inputs.iter_mut().enumerate() {
						if matches!(p, Pat::Wild(_)) {
							let id = Ident::new(&format!("__c{}", i), Span::call_site());
							*p = parse_quote!(#id);
						}
					}
				}
				if let Expr::Closure(c) = &m.args[0] {
					if (name == "map" || name == "and_then") && c.inputs.len() == 1 && !has_flow(&c.body) {
						let n = self.maps;
						self.maps += 1;
						let opt = self.spec.opt.contains(&n);
						let pat = c.inputs[0].clone();
						let pat = match pat {
							Pat::Type(t) => *t.pat,
							p => p,
						};
						let body = &c.body;
						let recv = &m.receiver;
						let new: Expr = match (name.as_str(), opt) {
							("map", false) => parse_quote!((match #recv { Ok(#pat) => Ok(#body), Err(__e) => Err(__e) })),
							("and_then", false) => parse_quote!((match #recv { Ok(#pat) => #body, Err(__e) => Err(__e) })),
							("map", true) => parse_quote!((match #recv { Some(#pat) => Some(#body), None => None })),
							_ => parse_quote!((match #recv { Some(#pat) => #body, None => None })),
						};
						*e = new;
					}
				}
			}
		}
	}
}

/// R15
pub fn mut_self(sig: &mut Signature, b: &mut Block) {
	struct Ren;
	impl VisitMut for Ren {
		fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
			if p.path.is_ident("self") {
				p.path = parse_quote!(__self);
			}
		}
		fn visit_item_mut(&mut self, _: &mut Item) {}
	}
	if let Some(FnArg::Receiver(r)) = sig.inputs.first_mut() {
		if r.reference.is_none() && r.mutability.is_some() {
			r.mutability = None;
			Ren.visit_block_mut(b);
			b.stmts.insert(0, parse_quote!(let mut __self = self;));
		}
	}
}

pub fn rewrite(b: &mut Block, spec: &FnSpec) -> Info {
	let mut r = Rw { spec, loops: 0, maps: 0 };
	r.visit_block_mut(b);
	Info { loops: r.loops }
}

/// Breaks a token string into lines so that error positions are useful.
pub fn pretty(s: &str) -> String {
	let mut o = String::new();
	let mut depth = 0usize;
	let cs: Vec<char> = s.chars().collect();
	let mut i = 0;
	let mut instr = false;
	while i < cs.len() {
		let c = cs[i];
		if instr {
			o.push(c);
			if c == '\\' {
				i += 1;
				o.push(cs[i]);
			} else if c == '"' {
				instr = false;
			}
			i += 1;
			continue;
		}
		match c {
			'"' => {
				instr = true;
				o.push(c);
			}
			'\'' if i + 2 < cs.len() && cs[i + 1] == '"' && cs[i + 2] == '\'' => {
				o.push_str("'\"'");
				i += 3;
				continue;
			}
			'{' => {
				depth += 1;
				o.push_str("{\n");
				o.push_str(&"\t".repeat(depth));
			}
			'}' => {
				depth = depth.saturating_sub(1);
				o.push('\n');
				o.push_str(&"\t".repeat(depth));
				o.push('}');
			}
			';' => {
				o.push_str(";\n");
				o.push_str(&"\t".repeat(depth));
				if i + 1 < cs.len() && cs[i + 1] == ' ' {
					i += 1;
				}
			}
			_ => o.push(c),
		}
		i += 1;
	}
	o
}

pub fn find_stmt(b: &str, toks: &str) -> Option<usize> {
	let p = b.find(toks)?;
	let mut d = 0;
	for (i, c) in b[p..].char_indices() {
		match c {
			'{' | '(' | '[' => d += 1,
			'}' | ')' | ']' => d -= 1,
			';' if d <= 0 => return Some(p + i + 1),
			_ => {}
		}
	}
	None
}

/// Names the contract text may refer to without depending on spelling:
///   $0 $1 ..      parameters (without self)
///   $let{TEXT}    variable bound by the first `let` whose initialiser contains TEXT
///   $letN{TEXT}   the N-th such variable (from 0); TEXT#i is component i of a tuple pattern
///   $forN         variable bound by the N-th for loop's pattern
pub struct Names {
	params: Vec<String>,
	lets: Vec<(String, String)>,
	fors: Vec<String>,
}
impl Names {
	pub fn new(sig: &Signature, body: &Block) -> Names {
		let mut params = vec![];
		for (i, p) in sig.inputs.iter().enumerate() {
			if let FnArg::Typed(t) = p {
				match &*t.pat {
					Pat::Ident(id) => params.push(id.ident.to_string()),
					Pat::Wild(_) => params.push(format!("__w{}", i)),
					o => params.push(o.to_token_stream().to_string()),
				}
			}
		}
		struct V {
			lets: Vec<(String, String)>,
			fors: Vec<String>,
		}
		impl<'a> syn::visit::Visit<'a> for V {
			fn visit_local(&mut self, l: &'a Local) {
				let mut p = &l.pat;
				if let Pat::Type(t) = p {
					p = &t.pat;
				}
				if let (Pat::Ident(id), Some(init)) = (p, &l.init) {
					self.lets.push((id.ident.to_string(), crate::norm(&init.expr.to_token_stream().to_string())));
				}
				if let (Pat::Tuple(tp), Some(init)) = (p, &l.init) {
					for (i, q) in tp.elems.iter().enumerate() {
						if let Pat::Ident(id) = q {
							self.lets.push((id.ident.to_string(), format!("{}#{}", crate::norm(&init.expr.to_token_stream().to_string()), i)));
						}
					}
				}
				syn::visit::visit_local(self, l);
			}
			fn visit_expr_for_loop(&mut self, f: &'a ExprForLoop) {
				self.fors.push(f.pat.to_token_stream().to_string());
				syn::visit::visit_expr_for_loop(self, f);
			}
		}
		let mut v = V { lets: vec![], fors: vec![] };
		syn::visit::Visit::visit_block(&mut v, body);
		Names { params, lets: v.lets, fors: v.fors }
	}
	pub fn subst(&self, t: &str) -> std::result::Result<String, String> {
		let mut o = String::new();
		let mut rest = t;
		while let Some(p) = rest.find('$') {
			o.push_str(&rest[..p]);
			rest = &rest[p + 1..];
			if let Some((nth, r)) = rest.strip_prefix("let").and_then(|r| { let d = r.find('{')?; let n: &str = &r[..d]; let k: usize = if n.is_empty() { 0 } else { n.parse().ok()? }; Some((k, &r[d + 1..])) }) {
				let e = r.find('}').ok_or("unterminated $let")?;
				let pat = crate::norm(&r[..e]);
				let (pat, suf) = match pat.split_once('#') { Some((p, q)) => (p.to_string(), format!("#{}", q)), None => (pat, String::new()) };
				let f = self.lets.iter().filter(|(_, i)| i.contains(&pat) && i.ends_with(&suf)).nth(nth).ok_or(format!("no `let` binding of `{}`", pat))?;
				o.push_str(&f.0);
				rest = &r[e + 1..];
			} else if let Some(r) = rest.strip_prefix("for") {
				let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
				let n: usize = d.parse().map_err(|_| "bad $for".to_string())?;
				o.push_str(self.fors.get(n).ok_or(format!("no for loop {}", n))?);
				rest = &r[d.len()..];
			} else {
				let d: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
				let n: usize = d.parse().map_err(|_| format!("bad ${}", rest.chars().take(8).collect::<String>()))?;
				o.push_str(self.params.get(n).ok_or(format!("no parameter {}", n))?);
				rest = &rest[d.len()..];
			}
		}
		o.push_str(rest);
		Ok(o)
	}
}

/// R13: `::revision::x` is `crate::x`
pub struct LocalPaths;
impl VisitMut for LocalPaths {
	fn visit_path_mut(&mut self, p: &mut Path) {
		if p.leading_colon.is_some() && p.segments.first().map_or(false, |s| s.ident == "revision") {
			p.leading_colon = None;
			p.segments[0].ident = Ident::new("crate", Span::call_site());
		}
		visit_mut::visit_path_mut(self, p);
	}
}
