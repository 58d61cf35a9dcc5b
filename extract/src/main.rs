//! extract TEMPLATE REPO OUT MAP
//! Copies TEMPLATE to OUT and replaces every `//@extract` block by the function of that name taken from REPO's current source,
//! with the block's contract, loop invariants and proof hints spliced in. The executable text comes from REPO; the only changes
//! are the mechanical, meaning-preserving rewrites listed in DESIGN.md ("what the extraction changes") and counted in MAP.
//! MAP gets, per extracted function, its line range in OUT and its properties. Exit 3: a function or loop named in the template
//! is not there any more (lost anchor).
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
fn ts<T: ToTokens>(t: &T) -> String { squash(&t.to_token_stream().to_string()) }

struct Src { items: Vec<Item> }
impl Src {
    fn load(path: &str) -> Src {
        let text = std::fs::read_to_string(path).unwrap_or_else(|_| lost(&format!("file {}", path)));
        let f = parse_file(&text).unwrap_or_else(|e| lost(&format!("{} does not parse: {}", path, e)));
        Src { items: f.items }
    }
}
fn lost(m: &str) -> ! { println!("LOST {}", m); std::process::exit(3) }

#[derive(Clone)]
struct Func { sig: Signature, block: Block, consts: Vec<ImplItemConst> }

/// the methods of the macro `name` (impl_bits), parsed as impl items
fn macro_items(src: &Src, name: &str) -> Vec<ImplItem> {
    for i in &src.items {
        if let Item::Macro(m) = i {
            if m.ident.as_ref().map(|i| i == name).unwrap_or(false) {
                // tokens: () => { ITEMS };
                let mut last = None;
                for t in m.mac.tokens.clone() { if let proc_macro2::TokenTree::Group(g) = t { last = Some(g.stream()) } }
                let body = last.unwrap_or_else(|| lost("macro body"));
                let i: ItemImpl = parse2(quote! { impl X { #body } }).unwrap_or_else(|e| lost(&format!("macro {}: {}", name, e)));
                return i.items;
            }
        }
    }
    lost(&format!("macro {}", name))
}
fn cfg_off(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && { let t = ts(a); t.contains("cfg(test)") || t.contains("target_endian=\"big\"") || t.contains("target_pointer_width=\"16\"") && !t.contains("\"64\"") || t.contains("target_pointer_width=\"32\"") && !t.contains("\"64\"") || t.contains("not(any(") })
}
/// selector: self-type | trait or - | method   (both written as in the source, blanks ignored); or  fn | name ; or trait | Name | method
fn find(src: &Src, sel: &str) -> Option<Func> {
    let p: Vec<&str> = sel.split('|').map(|s| s.trim()).collect();
    let mut hits = vec![];
    match p[0] {
        "fn" => { for i in &src.items { if let Item::Fn(f) = i { if f.sig.ident == p[1] { hits.push(Func { sig: f.sig.clone(), block: (*f.block).clone(), consts: vec![] }) } } } }
        "trait" => { for i in &src.items { if let Item::Trait(t) = i { if t.ident == p[1] { for m in &t.items { if let TraitItem::Fn(f) = m { if f.sig.ident == p[2] { if let Some(b) = &f.default { hits.push(Func { sig: f.sig.clone(), block: b.clone(), consts: vec![] }) } } } } } } } }
        "macro" => { for m in macro_items(src, p[1]) { if let ImplItem::Fn(f) = m { if f.sig.ident == p[2] { hits.push(Func { sig: f.sig, block: f.block, consts: vec![] }) } } } }
        ty => {
            let (ty, mut tr) = (squash(ty), squash(p[1]));
            if let Some(d) = tr.strip_prefix("derive(").and_then(|x| x.strip_suffix(')')).map(|x| x.to_string()) {
                if let Some(f) = derived(src, ty.split('<').next().unwrap(), &d) { return Some(f) }
                tr = d; // written by hand instead
            }
            for i in &src.items {
                if let Item::Impl(im) = i {
                    if cfg_off(&im.attrs) || ts(&*im.self_ty) != ty { continue }
                    let t = im.trait_.as_ref().map(|t| ts(&t.1)).unwrap_or("-".into());
                    if t != tr && !(tr != "-" && t.ends_with(&format!("::{}", tr))) { continue }
                    for m in &im.items {
                        if let ImplItem::Fn(f) = m { if f.sig.ident == p[2] && !cfg_off(&f.attrs) { hits.push(Func { sig: f.sig.clone(), block: f.block.clone(), consts: vec![] }) } }
                        if let ImplItem::Macro(mm) = m {
                            if let Some(n) = mm.mac.path.get_ident() { if src.items.iter().any(|i| matches!(i, Item::Macro(x) if x.ident.as_ref() == Some(n))) {
                                for m in macro_items(src, &n.to_string()) { if let ImplItem::Fn(f) = m { if f.sig.ident == p[2] { hits.push(Func { sig: f.sig, block: f.block, consts: vec![] }) } } }
                            } }
                        }
                    }
                }
            }
        }
    }
    if hits.len() != 1 { return None }
    hits.pop()
}
/// the method that `derive` generates for a struct with named fields (field by field, in the order of declaration)
fn derived(src: &Src, name: &str, tr: &str) -> Option<Func> {
    if let Some(e) = src.items.iter().find_map(|i| if let Item::Enum(e) = i { if e.ident == name { Some(e) } else { None } } else { None }) { return derived_enum(e, tr) }
    let s = src.items.iter().find_map(|i| if let Item::Struct(s) = i { if s.ident == name { Some(s) } else { None } } else { None })?;
    let mut all = String::from(",");
    for a in &s.attrs { if a.path().is_ident("derive") { if let Meta::List(l) = &a.meta { all.push_str(&squash(&l.tokens.to_string())); all.push(',') } } }
    if !all.contains(&format!(",{},", tr)) { return None }
    let fields: Vec<String> = match &s.fields { Fields::Named(f) => f.named.iter().map(|f| f.ident.as_ref().unwrap().to_string()).collect(), _ => return None };
    let each = |f: &dyn Fn(&str) -> String, sep: &str| fields.iter().map(|x| f(x)).collect::<Vec<_>>().join(sep);
    let chain = |call: &str, eq: &str| fields.iter().rev().fold(String::new(), |rest, f| { let c = format!("{}(&self.{}, &other.{})", call, f, f); if rest.is_empty() { c } else { format!("match {} {{ {} => {}, c => c }}", c, eq, rest) } });
    let text = match tr {
        "PartialEq" => format!("fn eq(&self, other: &Self) -> bool {{ {} }}", each(&|f| format!("self.{} == other.{}", f, f), " && ")),
        "Clone" if all.contains(",Copy,") => format!("fn clone(&self) -> Self {{ Self {{ {} }} }}", each(&|f| format!("{}: self.{}", f, f), ", ")),
        "Clone" => format!("fn clone(&self) -> Self {{ Self {{ {} }} }}", each(&|f| format!("{}: self.{}.clone()", f, f), ", ")),
        "Default" => format!("fn default() -> Self {{ Self {{ {} }} }}", each(&|f| format!("{}: Default::default()", f), ", ")),
        "PartialOrd" => format!("fn partial_cmp(&self, other: &Self) -> Option<Ordering> {{ {} }}", chain("PartialOrd::partial_cmp", "Some(Ordering::Equal)")),
        "Ord" => format!("fn cmp(&self, other: &Self) -> Ordering {{ {} }}", chain("Ord::cmp", "Ordering::Equal")),
        "Hash" => format!("fn hash(&self, state: &mut State) {{ {} }}", each(&|f| format!("Hash::hash(&self.{}, state);", f), " ")),
        _ => return None,
    };
    let f: ImplItemFn = parse_str(&text).ok()?;
    Some(Func { sig: f.sig, block: f.block, consts: vec![] })
}
/// the same for an enum without fields: everything goes by the discriminant
fn derived_enum(e: &ItemEnum, tr: &str) -> Option<Func> {
    let mut all = String::from(",");
    for a in &e.attrs { if a.path().is_ident("derive") { if let Meta::List(l) = &a.meta { all.push_str(&squash(&l.tokens.to_string())); all.push(',') } } }
    if !all.contains(&format!(",{},", tr)) || e.variants.iter().any(|v| !matches!(v.fields, Fields::Unit)) { return None }
    let (mut arms, mut next) = (String::new(), 0i64);
    for v in &e.variants {
        if let Some((_, x)) = &v.discriminant { if let Expr::Lit(ExprLit { lit: Lit::Int(n), .. }) = x { next = n.base10_parse().ok()? } else { return None } }
        arms.push_str(&format!("{}::{} => {}isize, ", e.ident, v.ident, next));
        next += 1;
    }
    let both = format!("let a = match self {{ {} }}; let b = match other {{ {} }};", arms, arms);
    let text = match tr {
        "PartialEq" => format!("fn eq(&self, other: &Self) -> bool {{ {} a == b }}", both),
        "PartialOrd" => format!("fn partial_cmp(&self, other: &Self) -> Option<Ordering> {{ {} Some(if a < b {{ Ordering::Less }} else if a == b {{ Ordering::Equal }} else {{ Ordering::Greater }}) }}", both),
        "Ord" => format!("fn cmp(&self, other: &Self) -> Ordering {{ {} if a < b {{ Ordering::Less }} else if a == b {{ Ordering::Equal }} else {{ Ordering::Greater }} }}", both),
        _ => return None,
    };
    let f: ImplItemFn = parse_str(&text).ok()?;
    Some(Func { sig: f.sig, block: f.block, consts: vec![] })
}
/// Functions and constants of the crate that the template does not know (a helper somebody factored out) are put in place of their uses:
/// `h(a, b)` becomes `({ let (p, q): (P, Q) = (a, b); body })`. Only if the body does not leave early in a way that is not an `if c { return x; }` guard.
struct Inline<'a> { all: &'a [(String, Src)], file: &'a str, template: &'a str, ty: Option<String>, depth: usize, count: usize }
struct Leaves(bool);
impl VisitMut for Leaves {
    fn visit_expr_mut(&mut self, e: &mut Expr) { match e { Expr::Return(_) | Expr::Try(_) => self.0 = true, Expr::Closure(_) => {} _ => visit_mut::visit_expr_mut(self, e) } }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
fn without_returns(b: &mut Block) {
    for i in 0..b.stmts.len() {
        let last = i + 1 == b.stmts.len();
        let s = b.stmts[i].clone();
        if last { if let Stmt::Expr(Expr::Return(r), _) = &s { b.stmts[i] = Stmt::Expr(r.expr.as_ref().map(|x| (**x).clone()).unwrap_or(parse_quote! { () }), None); return } }
        if let Stmt::Expr(Expr::If(f), _) = &s {
            if f.else_branch.is_none() && !last {
                if let Some(Stmt::Expr(Expr::Return(_), _)) = f.then_branch.stmts.last() {
                    let mut f = f.clone();
                    without_returns(&mut f.then_branch);
                    let mut rest = Block { brace_token: b.brace_token, stmts: b.stmts.split_off(i + 1) };
                    without_returns(&mut rest);
                    f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                    b.stmts[i] = Stmt::Expr(Expr::If(f), None);
                    return
                }
            } else if last { if let Stmt::Expr(Expr::If(f), None) = &mut b.stmts[i] {
                without_returns(&mut f.then_branch);
                let mut e = f.else_branch.as_mut().map(|x| &mut *x.1);
                while let Some(x) = e { match x { Expr::Block(k) => { without_returns(&mut k.block); e = None } Expr::If(g) => { without_returns(&mut g.then_branch); e = g.else_branch.as_mut().map(|x| &mut *x.1) } _ => e = None } }
            } }
        }
    }
}
struct Rename<'a>(&'a str, Expr);
impl VisitMut for Rename<'_> { fn visit_expr_mut(&mut self, e: &mut Expr) { visit_mut::visit_expr_mut(self, e); if let Expr::Path(p) = e { if p.path.is_ident(self.0) { *e = self.1.clone() } } } }
impl Inline<'_> {
    fn named(&self, h: &str) -> bool { ["|", "fn "].iter().any(|x| { let n = format!("{}{}", x, h); self.template.match_indices(&n).any(|(k, _)| !self.template[k + n.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_')) }) }
    fn free(&self, h: &str) -> Option<ItemFn> {
        if self.named(h) { return None }
        let hits = |own: bool| self.all.iter().filter(move |(f, _)| (f == self.file) == own).flat_map(|(_, s)| &s.items).filter_map(|i| if let Item::Fn(f) = i { if f.sig.ident == h && !cfg_off(&f.attrs) { Some(f.clone()) } else { None } } else { None }).collect::<Vec<_>>();
        let (a, b) = (hits(true), hits(false));
        match (a.len(), b.len()) { (1, _) => Some(a[0].clone()), (0, 1) => Some(b[0].clone()), _ => None }
    }
    fn method(&self, h: &str, ty: Option<&str>, with_self: bool) -> Option<ImplItemFn> {
        if self.named(h) { return None }
        let mut v = vec![];
        for (_, s) in self.all { for i in &s.items { if let Item::Impl(im) = i { if im.trait_.is_none() && !cfg_off(&im.attrs) && ty.map(|t| ts(&*im.self_ty).split('<').next() == t.split('<').next()).unwrap_or(true) {
            for m in &im.items { if let ImplItem::Fn(f) = m { if f.sig.ident == h && f.sig.receiver().is_some() == with_self && !cfg_off(&f.attrs) { v.push((ts(&*im.self_ty), f.clone())) } } }
        } } } }
        if v.len() > 1 { if let Some(t) = &self.ty { v.retain(|x| x.0 == *t) } }
        if v.len() == 1 { v.pop().map(|x| x.1) } else { None }
    }
    fn body(&mut self, sig: &Signature, block: &Block, args: Vec<Expr>, this: Option<&Expr>) -> Option<Expr> {
        let mut b = block.clone();
        without_returns(&mut b);
        let mut l = Leaves(false);
        l.visit_block_mut(&mut b);
        if l.0 || self.depth > 3 || sig.asyncness.is_some() { return None }
        let params: Vec<&PatType> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if params.len() != args.len() { return None }
        if let Some(t) = this { if !matches!(t, Expr::Path(p) if p.path.is_ident("self")) { if let Expr::Path(_) = t { Rename("self", t.clone()).visit_block_mut(&mut b) } else { return None } } }
        let plain = sig.generics.params.is_empty() && !params.iter().any(|p| ts(&p.ty).contains("impl"));
        let mut bind: Vec<(Pat, Type, Expr)> = vec![];
        for (p, a) in params.iter().zip(args) {
            if let (Pat::Ident(x), Expr::Path(y)) = (&*p.pat, &a) { if x.mutability.is_none() && y.path.is_ident(&x.ident) { continue } }
            bind.push(((*p.pat).clone(), (*p.ty).clone(), a));
        }
        match bind.len() {
            0 => {}
            1 => { let (p, t, a) = bind.pop().unwrap(); b.stmts.insert(0, if plain { parse_quote! { let #p: #t = #a; } } else { parse_quote! { let #p = #a; } }) }
            _ => { let (mut p, mut t, mut a) = (vec![], vec![], vec![]); for (x, y, z) in bind { p.push(x); t.push(y); a.push(z) } b.stmts.insert(0, if plain { parse_quote! { let (#(#p),*): (#(#t),*) = (#(#a),*); } } else { parse_quote! { let (#(#p),*) = (#(#a),*); } }) }
        }
        self.depth += 1;
        self.visit_block_mut(&mut b);
        self.depth -= 1;
        self.count += 1;
        Some(Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })) }))
    }
}
impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match &*e {
            Expr::Call(c) => if let Expr::Path(p) = &*c.func {
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = seg.last().unwrap().clone();
                let lower = h.starts_with(|c: char| c.is_lowercase() || c == '_');
                if !lower || p.qself.is_some() { None }
                else if seg.len() == 1 || ["crate", "super", "self"].contains(&seg[0].as_str()) { self.free(&h).and_then(|f| self.body(&f.sig, &f.block, args, None)) }
                else if seg.len() == 2 { let t = if seg[0] == "Self" { self.ty.clone() } else { Some(seg[0].clone()) }; t.and_then(|t| self.method(&h, Some(&t), false)).and_then(|f| self.body(&f.sig, &f.block, args, None)) }
                else { None }
            } else { None },
            Expr::MethodCall(c) => {
                let h = c.method.to_string();
                let own = matches!(&*c.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let ty = if own { self.ty.clone() } else { None };
                if own && ty.is_none() { None } else { self.method(&h, ty.as_deref(), true).and_then(|f| self.body(&f.sig, &f.block, c.args.iter().cloned().collect(), Some(&c.receiver))) }
            }
            Expr::Path(p) if p.qself.is_none() => {
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let h = seg.last().unwrap();
                if h.len() < 2 || h.chars().any(|c| c.is_lowercase()) || self.template.contains(h.as_str()) { None }
                else if seg.len() == 1 { self.all.iter().find_map(|(_, s)| s.items.iter().find_map(|i| if let Item::Const(k) = i { if k.ident == h { Some((*k.expr).clone()) } else { None } } else { None })) }
                else if seg.len() == 2 && seg[0] == "Self" && self.ty.is_some() { let t = self.ty.clone().unwrap(); self.all.iter().find_map(|(_, s)| s.items.iter().find_map(|i| if let Item::Impl(im) = i { if im.trait_.is_none() && ts(&*im.self_ty) == t { im.items.iter().find_map(|m| if let ImplItem::Const(k) = m { if k.ident == h { Some(k.expr.clone()) } else { None } } else { None }) } else { None } } else { None })) }
                else { None }.map(|x| Expr::Paren(ExprParen { attrs: vec![], paren_token: Default::default(), expr: Box::new(x) }))
            }
            _ => None,
        };
        if let Some(x) = new { *e = x }
    }
}
/// const initialiser: self-type | trait | NAME
fn find_const(src: &Src, sel: &str) -> Expr {
    let p: Vec<&str> = sel.split('|').map(|s| s.trim()).collect();
    for i in &src.items { if let Item::Impl(im) = i {
        if ts(&*im.self_ty) != squash(p[0]) || im.trait_.as_ref().map(|t| ts(&t.1)).unwrap_or("-".into()) != squash(p[1]) { continue }
        for m in &im.items { if let ImplItem::Const(c) = m { if c.ident == p[2] { return c.expr.clone() } } }
    } }
    lost(&format!("const {}", sel))
}
/// struct definition
fn find_struct(src: &Src, name: &str) -> String {
    for i in &src.items { 
        if let Item::Struct(s) = i { if s.ident == name { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = parse_quote!(pub); } return s.to_token_stream().to_string() } }
        if let Item::Enum(s) = i { if s.ident == name { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote!(pub); for v in s.variants.iter_mut() { v.attrs.clear() } return s.to_token_stream().to_string() } }
    }
    lost(&format!("type {}", name))
}

struct Norm { panic: Option<String>, map: Option<String>, deref: Option<String>, loops: usize, bad: Option<String>, count: BTreeMap<String, usize> }
impl Norm {
    fn note(&mut self, s: &str) { *self.count.entry(s.into()).or_default() += 1 }
    /// `if c { ..; continue; } rest` => `if c { ..; } else { rest }` (Verus has no continue in for loops)
    fn no_continue(&mut self, b: &mut Block) -> bool {
        for i in 0..b.stmts.len() {
            if let Stmt::Expr(Expr::If(f), _) = &mut b.stmts[i] {
                if f.else_branch.is_some() { continue }
                if let Some(Stmt::Expr(Expr::Continue(c), _)) = f.then_branch.stmts.last() {
                    if c.label.is_some() { continue }
                    f.then_branch.stmts.pop();
                    let mut f = f.clone();
                    let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
                    let mut blk: Block = parse_quote! { { #(#rest)* } };
                    self.no_continue(&mut blk);
                    f.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: blk }))));
                    b.stmts[i] = Stmt::Expr(Expr::If(f), Some(Default::default()));
                    return true;
                }
            }
        }
        false
    }
    fn stmts(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            let attrs: &[Attribute] = match &s { Stmt::Local(l) => &l.attrs, Stmt::Item(Item::Const(c)) => &c.attrs, _ => &[] };
            if cfg_off(attrs) { self.note("cfg(other platform) dropped"); continue }
            if let Stmt::Macro(m) = &s { if ["panic", "assert", "assert_eq", "assert_ne", "unreachable"].contains(&ts(&m.mac.path).as_str()) { let mac = m.mac.clone(); s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), Some(Default::default())); } }
            match &mut s { Stmt::Local(l) => l.attrs.clear(), Stmt::Item(Item::Const(c)) => c.attrs.clear(), _ => {} }
            b.stmts.push(s);
        }
        while let Some(i) = b.stmts.iter().position(|s| matches!(s, Stmt::Item(Item::Const(_)))) {
            let Stmt::Item(Item::Const(c)) = b.stmts.remove(i) else { unreachable!() };
            self.note("constant declared inside a function replaced by its value");
            struct C(Ident, Expr);
            impl VisitMut for C {
                fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { let x = &self.1; *e = if matches!(x, Expr::Path(_) | Expr::Lit(_)) { x.clone() } else { parse_quote! { (#x) } }; return } } visit_mut::visit_expr_mut(self, e) }
                fn visit_pat_mut(&mut self, p: &mut Pat) { if matches!(p, Pat::Ident(i) if i.ident == self.0) { if let Expr::Path(x) = &self.1 { *p = Pat::Path(x.clone()); return } } visit_mut::visit_pat_mut(self, p) }
            }
            let mut s = C(c.ident.clone(), (*c.expr).clone());
            for st in b.stmts.iter_mut() { s.visit_stmt_mut(st) }
        }
    }
}
/// peel `.name()` calls: returns receiver if e is `recv.name()` with no arguments
fn call0<'a>(e: &'a Expr, name: &str) -> Option<&'a Expr> { match e { Expr::MethodCall(m) if m.method == name && m.args.is_empty() => Some(&m.receiver), Expr::Paren(p) => call0(&p.expr, name), _ => None } }
fn range<'a>(e: &'a Expr) -> Option<(&'a Expr, &'a Expr)> { match e { Expr::Range(ExprRange { start: Some(a), end: Some(b), limits: RangeLimits::HalfOpen(_), .. }) => Some((a, b)), Expr::Paren(p) => range(&p.expr), _ => None } }
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) { self.stmts(b); visit_mut::visit_block_mut(self, b) }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let k = self.loops; self.loops += 1;
            let (lo, hi) = (quote::format_ident!("__lo{}", k), quote::format_ident!("__hi{}", k));
            let mark: Stmt = parse_quote! { __loop!(#k); };
            let end: Stmt = parse_quote! { __loopend!(#k); };
            if self.no_continue(&mut f.body) { self.note("`if c { continue }` in a for loop written with else") }
            self.visit_block_mut(&mut f.body);
            let pat = (*f.pat).clone();
            let body = std::mem::take(&mut f.body.stmts);
            let mut it = (*f.expr).clone();
            self.visit_expr_mut(&mut it);
            let new: Expr = if let Some((a, b)) = range(&it) {
                self.note("range bounds of a for loop evaluated into variables first");
                parse_quote! { { let #lo = #a; let #hi = #b; __before!(#k); for #pat in #lo..#hi { #mark #(#body)* #end } __after!(#k); } }
            } else if let Some((a, b)) = call0(&it, "rev").and_then(range) {
                self.note("reversed range loop counted upwards");
                let c = quote::format_ident!("__k{}", k);
                parse_quote! { { let #lo = #a; let #hi = #b; __before!(#k); for #c in #lo..#hi { #mark let #pat = #hi - 1 - (#c - #lo); #(#body)* #end } __after!(#k); } }
            } else if let Some(x) = call0(&it, "enumerate").and_then(|i| call0(i, "iter")) {
                self.note("slice.iter().enumerate() loop written as an index loop");
                match &pat {
                    Pat::Tuple(t) if t.elems.len() == 2 => { let (i, c) = (&t.elems[0], &t.elems[1]); parse_quote! { { let #lo: usize = 0; let #hi = #x.len(); __before!(#k); for #i in #lo..#hi { #mark let #c = &#x[#i]; #(#body)* #end } __after!(#k); } } }
                    _ => { self.bad = Some("pattern of an enumerate loop".into()); return }
                }
            } else { self.bad = Some(format!("a for loop over {}", it.to_token_stream())); return };
            *e = new;
            return;
        }
        if let Expr::While(w) = e { let k = self.loops; self.loops += 1; self.visit_block_mut(&mut w.body); let mut c = (*w.cond).clone(); self.visit_expr_mut(&mut c); let body = &w.body.stmts; *e = parse_quote! { { __before!(#k); while #c { __loop!(#k); #(#body)* __loopend!(#k); } __after!(#k); } }; return }
        if let Expr::Loop(w) = e { let k = self.loops; self.loops += 1; self.visit_block_mut(&mut w.body); let body = &w.body.stmts; *e = parse_quote! { { __before!(#k); loop { __loop!(#k); #(#body)* __loopend!(#k); } } }; return }
        if let Some((a, b, cl, rev, text)) = range_map(e) {
            let k = self.loops; self.loops += 1;
            let (lo, hi, c, v) = (quote::format_ident!("__lo{}", k), quote::format_ident!("__hi{}", k), quote::format_ident!("__k{}", k), quote::format_ident!("__v{}", k));
            let pat = cl.inputs[0].clone();
            let mut body: Block = match &*cl.body { Expr::Block(b) => b.block.clone(), x => parse_quote! { { #x } } };
            self.visit_block_mut(&mut body);
            let (mut a, mut b) = (a, b);
            self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
            self.note("(a..b).map(closure)[.rev()].collect() written as a loop that pushes");
            let first: Stmt = if rev { parse_quote! { let #pat = #hi - 1 - (#c - #lo); } } else { parse_quote! { let #pat = #c; } };
            *e = if text { parse_quote! { { let #lo = #a; let #hi = #b; let mut #v = vx::empty(); __before!(#k); for #c in #lo..#hi { __loop!(#k); #first let __x = #body; vx::push_char(&mut #v, __x); __loopend!(#k); } __after!(#k); #v } } }
                else { parse_quote! { { let #lo = #a; let #hi = #b; let mut #v = Vec::new(); __before!(#k); for #c in #lo..#hi { __loop!(#k); #first let __x = #body; #v.push(__x); __loopend!(#k); } __after!(#k); #v } } };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        if let (Expr::Binary(b), Some(d)) = (&mut *e, self.deref.clone()) { if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) | BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_) | BinOp::Shl(_) | BinOp::Shr(_)) {
            let mut n = 0;
            for s in [&mut b.left, &mut b.right] { if matches!(&**s, Expr::Path(p) if p.path.is_ident(&d)) { let x = s.clone(); **s = parse_quote! { (*#x) }; n += 1 } }
            for _ in 0..n { self.note("operand of reference type in integer arithmetic dereferenced") }
        } }
        if let Expr::Macro(m) = &*e { // assert!(c) is `if !c { panic!() }`
            let n = ts(&m.mac.path);
            if ["assert", "assert_eq", "assert_ne"].contains(&n.as_str()) {
                let Ok(args) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) else { self.bad = Some("assert".into()); return };
                let a: Vec<Expr> = args.into_iter().collect();
                let mut c: Expr = match n.as_str() { "assert" => { let x = &a[0]; parse_quote! { !(#x) } } "assert_eq" => { let (x, y) = (&a[0], &a[1]); parse_quote! { !(#x == #y) } } _ => { let (x, y) = (&a[0], &a[1]); parse_quote! { #x == #y } } };
                self.visit_expr_mut(&mut c);
                self.note("assert!(..) as a test and a panic!(..)");
                let p: Expr = syn::parse_str(self.panic.as_deref().unwrap_or("false")).unwrap();
                *e = parse_quote! { if #c { vx::refuse(Ghost(#p)) } }; return
            }
            if n == "unreachable" { let p: Expr = syn::parse_str(self.panic.as_deref().unwrap_or("false")).unwrap(); self.note("unreachable!(..) as a call that is allowed under a stated condition and does not return"); *e = parse_quote! { vx::refuse(Ghost(#p)) }; return }
        }
        if let (Expr::Macro(m), Some(c)) = (&*e, &self.panic) { if ts(&m.mac.path) == "panic" { let c: Expr = syn::parse_str(c).unwrap(); self.note("panic!(..) as a call that is allowed under a stated condition and does not return"); *e = parse_quote! { vx::refuse(Ghost(#c)) }; return } }
        if let Expr::Macro(m) = &*e {
            let n = ts(&m.mac.path);
            if n == "format" || n == "write" {
                let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                let new: Option<Expr> = args.and_then(|mut args| if n == "format" { pieces(&args) } else {
                    let f = args.first()?.clone();
                    let rest: syn::punctuated::Punctuated<Expr, Token![,]> = args.iter().skip(1).cloned().collect(); args.clear();
                    let p = pieces(&rest)?;
                    Some(parse_quote! { vx::put(#f, #p) })
                });
                match new { Some(x) => { self.note("format! and write! with plain placeholders as pushes of their parts"); *e = x; visit_mut::visit_expr_mut(self, e) } None => self.bad = Some("a formatting macro".into()) }
                return;
            }
        }
        if let (Expr::MethodCall(m), Some(k)) = (&*e, &self.map) { if m.method == "map" && m.args.len() == 1 { if let Expr::Closure(c) = &m.args[0] { if c.inputs.len() == 1 {
            let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
            let v: Expr = if k == "option" { parse_quote! { match #x { Some(#p) => Some(#b), None => None } } } else { parse_quote! { match #x { Ok(#p) => Ok(#b), Err(__e) => Err(__e) } } };
            self.note("map(closure) on an Option or Result written as a match"); *e = v; return } } } }
        // iterator chains with an assumed contract each
        let v: Expr;
        if let Some(x) = call0(e, "to_owned").cloned() { *e = if matches!(x, Expr::Index(_)) { parse_quote! { vx::owned(&#x) } } else { parse_quote! { vx::owned(#x) } }; self.note("to_owned() of a byte slice as a call with an assumed contract"); return }
        if let Some(x) = collect(e).filter(|c| call0(c, "cells").is_some()).cloned() { *e = parse_quote! { collect_cells(#x) }; self.note("collect() of a cell iterator as a loop over its next()"); return }
        if let Some(x) = collect(e).and_then(|c| skip_copied(c)) { v = { let (x, n) = x; parse_quote! { vx::copied_skip(&#x, #n) } }; self.note("iter().copied().skip(n).collect() as one call with an assumed contract"); *e = v; }
        else if let Some((z, n, x)) = collect(e).and_then(|c| repeat_chain(c)) { v = parse_quote! { vx::repeat_chain(#z, #n, &#x) }; self.note("repeat(z).take(n).chain(iter().copied()).collect() as one call with an assumed contract"); *e = v; }
        else if let Some(x) = collect(e).and_then(|c| call0(c, "rev")).and_then(copied_of) { v = parse_quote! { vx::reversed_copy(&#x) }; self.note("iter().copied().rev().collect() as one call with an assumed contract"); *e = v; }
        else if let Some((x, a, b, y)) = copy_into(e) { v = parse_quote! { vx::copy_into(&mut #x, #a, #b, #y) }; self.note("x[a..b].copy_from_slice(y) as one call with an assumed contract"); *e = v; }
        else if let Some((x, n)) = match &*e { Expr::Repeat(r) if ts(&r.expr).ends_with("u8") => Some(((*r.expr).clone(), (*r.len).clone())), _ => None } { v = parse_quote! { vx::filled::<{ #n }>(#x) }; self.note("[x; N] as a call with an assumed contract"); *e = v; }
        else if let Some((t, f, x)) = from_array(e) { let t: Type = syn::parse_str(&t).unwrap(); let f = quote::format_ident!("{}", f); v = parse_quote! { vx::#f::<#t, _>(#x) }; self.note("from_le_bytes and from_be_bytes as calls with an assumed contract"); *e = v; }
        else if let Some((t, x)) = from_ne(e) { let t: Type = syn::parse_str(&t).unwrap(); v = parse_quote! { vx::from_ne_bytes::<#t>(#x) }; self.note("from_ne_bytes(x.try_into().unwrap()) as one call with an assumed contract"); *e = v; }
        else if let Some((p, i)) = read_u16(e) { v = parse_quote! { vx::u16_at(#p, #i) }; self.note("ptr.add(i).read_unaligned::<u16>() as one call with an assumed contract"); *e = v; }
        else if let Expr::Call(c) = e { if ts(&c.func) == "bytemuck::bytes_of_mut" { let a = &c.args[0]; v = parse_quote! { vx::bytes_of_mut(#a) }; self.note("bytemuck::bytes_of_mut as a call with an assumed contract"); *e = v; } else if ts(&c.func) == "bytemuck::bytes_of" { let a = &c.args[0]; v = parse_quote! { vx::bytes_of(#a) }; self.note("bytemuck::bytes_of as a call with an assumed contract"); *e = v; } }
    }
}
fn range_map(e: &Expr) -> Option<(Expr, Expr, ExprClosure, bool, bool)> {
    let c = call0(e, "collect")?;
    let text = match e { Expr::MethodCall(m) => m.turbofish.as_ref().map(|t| ts(t) == "::<String>").unwrap_or(false), _ => false };
    let (m, rev) = match call0(c, "rev") { Some(x) => (x, true), None => (c, false) };
    let (r, f) = arg1(m, "map")?;
    let (a, b) = range(r)?;
    match f { Expr::Closure(cl) if cl.inputs.len() == 1 => Some((a.clone(), b.clone(), cl.clone(), rev, text)), _ => None }
}
/// format!("a{}b", x) and the like, with plain placeholders only: the statements that build the text
fn pieces(args: &syn::punctuated::Punctuated<Expr, Token![,]>) -> Option<Expr> {
    let Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) = args.first() else { return None };
    let mut rest = args.iter().skip(1);
    let mut st: Vec<Stmt> = vec![];
    let v = s.value();
    let mut c = v.chars();
    while let Some(x) = c.next() {
        if x == '{' { if c.next()? != '}' { return None } let a = rest.next()?; st.push(parse_quote! { vx::push(&mut __s, &#a); }) }
        else if x == '}' { return None }
        else { st.push(parse_quote! { vx::push_char(&mut __s, #x); }) }
    }
    if rest.next().is_some() { return None }
    Some(parse_quote! { { let mut __s = vx::empty(); #(#st)* __s } })
}
fn copy_into(e: &Expr) -> Option<(Expr, Expr, Expr, Expr)> {
    let (r, y) = arg1(e, "copy_from_slice")?;
    if let Expr::Index(i) = r { let (a, b) = range(&i.index)?; return Some(((*i.expr).clone(), a.clone(), b.clone(), y.clone())) }
    None
}
fn from_array(e: &Expr) -> Option<(String, String, Expr)> {
    if let Expr::Call(c) = e { if c.args.len() == 1 { let f = ts(&c.func); if let Some((t, f)) = f.split_once("::") {
        if ["u16", "u32", "u64", "u128", "usize"].contains(&t) && ["from_le_bytes", "from_be_bytes"].contains(&f) { return Some((t.to_string(), f.to_string(), c.args[0].clone())) }
    } } }
    None
}
fn from_ne(e: &Expr) -> Option<(String, Expr)> {
    if let Expr::Call(c) = e { if c.args.len() == 1 { if let Some(t) = ts(&c.func).strip_suffix("::from_ne_bytes") {
        if ["u16", "u32", "u64", "u128", "usize"].contains(&t) { return Some((t.to_string(), call0(call0(&c.args[0], "unwrap")?, "try_into")?.clone())) }
    } } }
    None
}
fn collect(e: &Expr) -> Option<&Expr> { call0(e, "collect") }
fn copied_of(e: &Expr) -> Option<Expr> { call0(e, "copied").and_then(|e| call0(e, "iter")).cloned() }
fn arg1<'a>(e: &'a Expr, name: &str) -> Option<(&'a Expr, &'a Expr)> { match e { Expr::MethodCall(m) if m.method == name && m.args.len() == 1 => Some((&m.receiver, &m.args[0])), _ => None } }
fn skip_copied(e: &Expr) -> Option<(Expr, Expr)> { let (r, n) = arg1(e, "skip")?; Some((copied_of(r)?, n.clone())) }
fn repeat_chain(e: &Expr) -> Option<(Expr, Expr, Expr)> {
    let (r, x) = arg1(e, "chain")?;
    let x = copied_of(x)?;
    let (r, n) = arg1(r, "take")?;
    if let Expr::Call(c) = r { if ts(&c.func).ends_with("iter::repeat") { return Some((c.args[0].clone(), n.clone(), x)) } }
    None
}
/// `{ let ptr = S.as_ptr().add(I) as *const u16; let two_bytes = ptr.read_unaligned(); ...}`: the definition of `ptr` is inlined first
fn read_u16(e: &Expr) -> Option<(Expr, Expr)> {
    let r = call0(e, "read_unaligned")?;
    let c = match r { Expr::Paren(p) => &*p.expr, r => r };
    if let Expr::Cast(c) = c { if ts(&c.ty) == "*constu16" { let (r, i) = arg1(&c.expr, "add")?; return Some((call0(r, "as_ptr")?.clone(), i.clone())) } }
    None
}
/// inline `let ptr = <expr of raw pointer cast>;` into the rest of its block
struct Ptr;
impl VisitMut for Ptr {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if let Stmt::Local(Local { pat: Pat::Ident(p), init: Some(init), .. }) = &b.stmts[i] {
                if ts(&init.expr).ends_with("as*constu16") {
                    let (id, ex) = (p.ident.clone(), (*init.expr).clone());
                    b.stmts.remove(i);
                    struct S(Ident, Expr);
                    impl VisitMut for S { fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Path(p) = e { if p.path.is_ident(&self.0) { let x = &self.1; *e = parse_quote! { (#x) }; return } } visit_mut::visit_expr_mut(self, e) } }
                    let mut s = S(id, ex);
                    for st in b.stmts[i..].iter_mut() { s.visit_stmt_mut(st) }
                    continue;
                }
            }
            i += 1;
        }
        visit_mut::visit_block_mut(self, b)
    }
}
struct Mark { name: String, mac: Stmt, done: bool }
impl VisitMut for Mark {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let n = &self.name;
        let mut from = 0;
        while let Some(i) = b.stmts.iter().skip(from).position(|s| matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(p) if p.ident == n))) { from += i + 2; b.stmts.insert(from - 1, self.mac.clone()); self.done = true; }
    }
}
/// line breaks after ; { } so that messages have useful lines
fn pretty(s: &str) -> String {
    let mut o = String::new();
    let mut depth = 0usize;
    let mut paren = 0i32;
    for c in s.chars() {
        match c {
            '(' | '[' => { paren += 1; o.push(c) }
            ')' | ']' => { paren -= 1; o.push(c) }
            '{' => { depth += 1; o.push_str("{\n"); o.push_str(&"  ".repeat(depth)) }
            '}' => { depth = depth.saturating_sub(1); o.push_str("\n"); o.push_str(&"  ".repeat(depth)); o.push_str("} ") }
            ';' if paren <= 0 || depth > 0 => { o.push_str(";\n"); o.push_str(&"  ".repeat(depth)) }
            c => o.push(c),
        }
    }
    o
}
/// a block of `let`s and assignments to local variables as nested `let`s
fn straight(b: &Block) -> Option<String> {
    let mut o = String::from("{ ");
    for (i, s) in b.stmts.iter().enumerate() {
        match s {
            Stmt::Local(Local { pat, init: Some(x), .. }) => { let id = match pat { Pat::Ident(p) => p.ident.to_string(), Pat::Type(t) => match &*t.pat { Pat::Ident(p) => p.ident.to_string(), _ => return None }, _ => return None }; o.push_str(&format!("let {} = {}; ", id, x.expr.to_token_stream())) }
            Stmt::Expr(Expr::Assign(a), Some(_)) => o.push_str(&format!("let {} = {}; ", a.left.to_token_stream(), a.right.to_token_stream())),
            Stmt::Expr(Expr::Binary(x), Some(_)) => { let op = x.op.to_token_stream().to_string(); if !op.ends_with('=') || op.len() < 2 { return None } o.push_str(&format!("let {} = {} {} ({}); ", x.left.to_token_stream(), x.left.to_token_stream(), &op[..op.len() - 1], x.right.to_token_stream())) }
            Stmt::Expr(e, None) if i + 1 == b.stmts.len() => o.push_str(&e.to_token_stream().to_string()),
            _ => return None,
        }
    }
    Some(o + " }")
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tmpl = std::fs::read_to_string(&a[1]).unwrap();
    let demote: Vec<String> = a.get(5).map(|p| std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.to_string()).collect()).unwrap_or_default();
    let mut srcs: BTreeMap<String, Src> = BTreeMap::new();
    let mut out = String::new();
    let mut map = String::new();
    let mut total: BTreeMap<String, usize> = BTreeMap::new();
    let lines: Vec<&str> = tmpl.lines().collect();
    let mut i = 0;
    let mut gsubs: Vec<(String, String)> = vec![];
    let mut all: Vec<(String, Src)> = vec![];
    fn walk(d: &std::path::Path, root: &std::path::Path, all: &mut Vec<(String, Src)>) {
        let mut v: Vec<_> = std::fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        v.sort();
        for p in v {
            if p.is_dir() { walk(&p, root, all) }
            else if p.extension().map(|x| x == "rs").unwrap_or(false) { if let Ok(f) = parse_file(&std::fs::read_to_string(&p).unwrap_or_default()) { all.push((p.strip_prefix(root).unwrap().to_string_lossy().to_string(), Src { items: f.items })) } }
        }
    }
    let root = std::path::PathBuf::from(format!("{}/src", a[2]));
    walk(&root, &root, &mut all);
    let inlined = |mut x: Func, f: &str, sel: &str, total: &mut BTreeMap<String, usize>| {
        let ty = sel.split('|').next().map(squash).filter(|t| !["fn", "trait", "macro"].contains(&t.as_str()));
        let mut n = Inline { all: &all, file: f, template: &tmpl, ty, depth: 0, count: 0 };
        n.visit_block_mut(&mut x.block);
        if n.count > 0 { *total.entry("calls of functions that have no contract written as their bodies".into()).or_default() += n.count }
        x
    };
    // the snapshot of the sources that holds the place of functions left undecided
    let snap = a.get(6).cloned();
    let mut snaps: BTreeMap<String, Src> = BTreeMap::new();
    macro_rules! snap { ($f:expr) => { snaps.entry($f.to_string()).or_insert_with(|| Src::load(&format!("{}/src/{}", snap.as_ref().unwrap(), $f))) } }
    macro_rules! src { ($f:expr) => { srcs.entry($f.to_string()).or_insert_with(|| Src::load(&format!("{}/src/{}", a[2], $f))) } }
    let subst = |mut s: String, subs: &[(String, String)]| { for (x, y) in subs { s = s.replace(x.as_str(), y.as_str()) } s };
    while i < lines.len() {
        let l = lines[i].trim_start();
        if let Some(r) = l.strip_prefix("//@struct ") { let (f, n) = r.split_once(' ').unwrap(); let (n, attr) = n.split_once(' ').unwrap_or((n, "")); out.push_str(attr); out.push(' '); out.push_str(&pretty(&subst(find_struct(src!(f), n.trim()), &gsubs))); out.push('\n'); i += 1; continue }
        if let Some(x) = l.strip_prefix("//@gsub ") { let (p, q) = x.split_once("~>").unwrap(); let (p, q) = (p.trim().to_string(), q.trim().to_string()); gsubs.retain(|g: &(String, String)| g.0 != p); gsubs.push((p, q)); i += 1; continue }
        if let Some(r) = l.strip_prefix("//@const ") { // //@const file selector => declaration with $
            let (f, n) = r.split_once(' ').unwrap(); let (sel, decl) = n.split_once("=>").unwrap();
            let (sel, subs) = match sel.split_once("##") { Some((s, r)) => (s, r.split("##").map(|x| { let (p, q) = x.split_once("~>").unwrap(); (p.trim().to_string(), q.trim().to_string()) }).collect()), None => (sel, vec![]) };
            let e = find_const(src!(f), sel);
            out.push_str(&decl.replace('$', &subst(e.to_token_stream().to_string(), &subs))); out.push('\n'); i += 1; continue
        }
        if let Some(r) = l.strip_prefix("//@straight ") { // //@straight props file selector => text with $: the body of a straight-line function as one expression
            let (props, r) = r.split_once(' ').unwrap();
            let (f, n) = r.split_once(' ').unwrap(); let (sel, decl) = n.split_once("=>").unwrap(); let sel = sel.trim();
            let own = find(src!(f), sel).map(|x| inlined(x, f, sel, &mut total)).filter(|_| !demote.iter().any(|d| *d == format!("{} {}", f, sel))).and_then(|x| straight(&x.block));
            match own.clone().or_else(|| if snap.is_some() { find(snap!(f), sel).and_then(|x| straight(&x.block)) } else { None }) {
                Some(b) => { out.push_str(&decl.replace('$', &b)); out.push('\n'); let k = out.lines().count(); map.push_str(&format!("{}\t{}\t{}\t{} {}{}\n", k, k, props, f, sel, if own.is_none() { "\tnot accepted by the verifier" } else { "" })) }
                None => { if lines[i + 1].trim() == "{}" { i += 1 } } // the function that uses the lemma is then not accepted, that is, left undecided
            }
            i += 1; continue
        }
        if let Some(r) = l.strip_prefix("//@extract ") {
            let (f, sel) = r.split_once(' ').unwrap();
            let found = find(src!(f), sel).map(|x| inlined(x, f, sel, &mut total));
            let (mut ret, mut name, mut attr, mut props) = (None, None, String::new(), String::new());
            let mut must: Option<String> = None;
            let mut subs: Vec<(String, String)> = gsubs.clone();
            let mut expect_loops = 0usize;
            let mut nospec = false;
            let (mut panic_if, mut opt): (Option<String>, Option<String>) = (None, None);
            let (mut gen, mut deref): (Option<String>, Option<String>) = (None, None);
            let mut sect: Vec<(String, String)> = vec![];
            i += 1;
            while lines[i].trim() != "//@end" {
                let l = lines[i].trim_start();
                if let Some(x) = l.strip_prefix("//@ret ") { ret = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@name ") { name = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@attr ") { attr.push_str(x) }
                else if let Some(x) = l.strip_prefix("//@props ") { props = x.trim().to_string() }
                else if let Some(x) = l.strip_prefix("//@loops ") { expect_loops = x.trim().parse().unwrap() }
                else if let Some(x) = l.strip_prefix("//@generics ") { gen = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@panic ") { panic_if = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@map ") { opt = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@deref ") { deref = Some(x.trim().to_string()) }
                else if let Some(x) = l.strip_prefix("//@must ") { must = Some(squash(x)) }
                else if l.starts_with("//@nospec") { nospec = true }
                else if let Some(x) = l.strip_prefix("//@sub ") { let (p, q) = x.split_once("~>").unwrap(); subs.push((p.trim().to_string(), q.trim().to_string())) }
                else if let Some(x) = l.strip_prefix("//@at ") { sect.push((x.trim().to_string(), String::new())) }
                else { let s = sect.last_mut().unwrap_or_else(|| panic!("text outside a section: {}", l)); s.1.push_str(lines[i]); s.1.push('\n') }
                i += 1;
            }
            i += 1;
            let _ = nospec;
            // the function itself; if it is not found or not accepted, the snapshot's (never counted); if that is not accepted either, the bare contract
            let mut left: Option<String> = None;
            let fname = format!("{} {}", f, sel);
            let mut tries: Vec<Func> = vec![];
            let bare = demote.iter().any(|d| d.strip_prefix('!') == Some(&fname));
            if let Some(x) = &found { if !demote.contains(&fname) || snap.is_none() { tries.push(x.clone()) } else { left = Some("not accepted by the verifier".into()) } } else { left = Some("not found".into()) }
            if snap.is_some() && !bare { if let Some(x) = find(snap!(f), sel) { tries.push(x) } }
            if tries.is_empty() { match found { Some(x) => tries.push(x), None => { map.push_str(&format!("0\t0\t{}\t{} {}\tnot found\n", props, f, sel)); continue } } }
            let last = tries.len() - 1;
            for (attempt, mut func) in tries.into_iter().enumerate() {
            let (panic_if, opt, deref) = (panic_if.clone(), opt.clone(), deref.clone());
            let mut n = Norm { panic: panic_if, map: opt, deref, loops: 0, bad: None, count: BTreeMap::new() };
            Ptr.visit_block_mut(&mut func.block);
            n.visit_block_mut(&mut func.block);
            let mut why = n.bad.take();
            if let Some(m) = &must { if why.is_none() && !ts(&func.block).contains(m.as_str()) { why = Some("written in another way".into()) } }
            if why.is_none() && n.loops != expect_loops { why = Some(format!("{} loops instead of {}", n.loops, expect_loops)) }
            for (k, nm) in sect.iter().filter_map(|x| x.0.strip_prefix("let ")).enumerate() { // proof text after every definition of a local variable
                let mut m = Mark { name: nm.to_string(), mac: parse_quote! { __let!(#k); }, done: false };
                m.visit_block_mut(&mut func.block);
                if !m.done && why.is_none() { why = Some(format!("no local variable {}", nm)) }
            }
            if bare || (snap.is_none() && demote.contains(&fname)) { why = Some("not accepted by the verifier".into()) }
            if why.is_some() && attempt < last { left = left.or(why); continue }
            for (k, v) in n.count { *total.entry(k).or_default() += v }
            let get = |k: &str| sect.iter().filter(|s| s.0 == k).map(|s| s.1.as_str()).collect::<String>();
            // signature
            let mut sig = func.sig.clone();
            for a in sig.inputs.iter_mut() { match a { FnArg::Typed(t) => t.attrs.clear(), FnArg::Receiver(r) => r.attrs.clear() } }
            if let Some(nm) = &name { sig.ident = Ident::new(nm, proc_macro2::Span::call_site()) }
            let rt = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()) };
            sig.output = ReturnType::Default;
            let wh = sig.generics.where_clause.take();
            let mut s = sig.to_token_stream().to_string();
            if let Some(g) = &gen { let id = sig.ident.to_string(); s = s.replacen(&id, &format!("{}{}", id, g), 1) }
            if let Some(t) = rt { match &ret { Some(r) => s.push_str(&format!(" -> ({}: {})", r, t)), None => s.push_str(&format!(" -> {}", t)) } }
            let _ = wh;
            if let Some(w) = why {
                // the contract stays for the callers; the function itself is left undecided
                let text = subst(format!("#[verifier::external_body] {} {}\n{}\n{{ unimplemented!() }}\n", attr, s, get("spec")), &subs);
                let start = out.lines().count() + 1;
                out.push_str(&text);
                map.push_str(&format!("{}\t{}\t{}\t{} {}\t{}\n", start, out.lines().count(), props, f, sel, left.clone().unwrap_or(w)));
                break;
            }
            // body; the text for the end goes before the tail expression's value is returned, or at the end of a unit function
            if !get("end").is_empty() {
                let r = Ident::new(ret.as_deref().unwrap_or("__r"), proc_macro2::Span::call_site());
                match func.block.stmts.pop() {
                    Some(Stmt::Expr(t, None)) if func.sig.output != ReturnType::Default => { func.block.stmts.push(parse_quote! { let #r = #t; }); func.block.stmts.push(parse_quote! { __end!(); }); func.block.stmts.push(Stmt::Expr(parse_quote! { #r }, None)); }
                    Some(Stmt::Expr(t, None)) => { func.block.stmts.push(parse_quote! { #t; }); func.block.stmts.push(parse_quote! { __end!(); }); }
                    Some(s) => { func.block.stmts.push(s); func.block.stmts.push(parse_quote! { __end!(); }); }
                    None => func.block.stmts.push(parse_quote! { __end!(); }),
                }
            }
            let b = func.block.to_token_stream().to_string();
            let mut body = pretty(&b);
            let rep = |body: &mut String, mac: &str, k: usize, with: &str| {
                // the token printer writes `__loop ! (0usize)` (a suffixed literal from quote)
                let mut done = false;
                for lit in [format!("{} ! ({}usize) ;", mac, k), format!("{} ! ({}usize);", mac, k), format!("{}! ({}usize) ;", mac, k), format!("{}! ({}usize);", mac, k)] { if body.contains(&lit) { *body = body.replace(&lit, with); done = true; } }
                if !done && mac != "__after" { panic!("marker {} {} not found in {}", mac, k, body) }
            };
            for k in 0..n.loops {
                rep(&mut body, "__before", k, &get(&format!("loop {} before", k)));
                rep(&mut body, "__after", k, &get(&format!("loop {} after", k)));
                rep(&mut body, "__loopend", k, &get(&format!("loop {} end", k)));
                rep(&mut body, "__loop", k, &format!("@@LOOP{}@@{}", k, get(&format!("loop {} start", k))));
                // move the invariant in front of the brace
                let m = format!("@@LOOP{}@@", k);
                let pos = body.find(&m).unwrap();
                let brace = body[..pos].rfind('{').unwrap();
                body = format!("{}\n{}\n{{{}{}", &body[..brace], get(&format!("loop {} inv", k)), &body[brace + 1..pos], &body[pos + m.len()..]);
            }
            for (k, nm) in sect.iter().filter(|x| x.0.starts_with("let ")).enumerate() { rep(&mut body, "__let", k, &nm.1) }
            let st = get("start");
            if !st.is_empty() { body = body.replacen('{', &format!("{{\n{}", st), 1) }
            if !get("end").is_empty() { for lit in ["__end ! () ;", "__end ! ();", "__end! () ;", "__end! ();"] { body = body.replace(lit, &get("end")) } }
            let mut text = format!("#[verifier::spinoff_prover] {} {}\n{}\n{}\n", attr, s, get("spec"), body);
            // source-level substitutions apply to the extracted tokens only, so specs must already be written in the target names
            text = subst(text, &subs);
            let start = out.lines().count() + 1;
            out.push_str(&text);
            let end = out.lines().count();
            map.push_str(&format!("{}\t{}\t{}\t{} {}{}\n", start, end, props, f, sel, match &left { Some(w) => format!("\t{}", w), None => String::new() }));
            break;
            }
            continue;
        }
        out.push_str(lines[i]);
        out.push('\n');
        i += 1;
    }
    for (k, v) in &total { map.push_str(&format!("#\t{}\t{}\n", v, k)) }
    std::fs::write(&a[3], out).unwrap();
    std::fs::write(&a[4], &map).unwrap();
    println!("OK {} functions", map.lines().filter(|l| !l.starts_with('#')).count());
}
