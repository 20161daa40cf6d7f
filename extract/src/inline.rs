//! R19: a helper that has no contract and is not known to the baseline (a
//! change brought it) is substituted into the functions under contract that
//! call it, before the extraction proper. What cannot be substituted without
//! changing the meaning (early returns that leave the helper only, recursion,
//! generics) is left alone: such a caller loses its proof.
use crate::br;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

struct Helper {
    inputs: Vec<(String, String, bool)>, // pattern, type ("" = leave open), plain identifier
    receiver: bool,
    output: Option<syn::Type>,
    open_output: bool,
    block: syn::Block,
    ty: Option<String>,
}

#[derive(Default)]
struct Scan { ret: usize, ret_err: usize, tri: usize, selfs: usize, self_dot: usize, names: HashSet<String>, mac: bool }
impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, r: &'a syn::ExprReturn) {
        self.ret += 1;
        if let Some(e) = &r.expr {
            let t = e.to_token_stream().to_string();
            if t.starts_with("Err (") || t == "None" { self.ret_err += 1; }
        }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) { self.tri += 1; syn::visit::visit_expr_try(self, t); }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        let mut s = Scan::default();
        s.visit_expr(&c.body);
        self.selfs += s.selfs; self.self_dot += s.self_dot; self.mac |= s.mac; self.names.extend(s.names);
    }
    fn visit_item(&mut self, _: &'a syn::Item) { self.mac = true; }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.path.is_ident("self") { self.selfs += 1; }
        if let Some(s) = p.path.segments.last() { self.names.insert(s.ident.to_string()); }
    }
    fn visit_expr_field(&mut self, f: &'a syn::ExprField) {
        if let syn::Expr::Path(p) = &*f.base { if p.path.is_ident("self") { self.self_dot += 1; } }
        syn::visit::visit_expr_field(self, f);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        if let syn::Expr::Path(p) = &*m.receiver { if p.path.is_ident("self") { self.self_dot += 1; } }
        self.names.insert(m.method.to_string());
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        fn bad(t: proc_macro2::TokenStream) -> bool {
            t.into_iter().any(|x| match x {
                proc_macro2::TokenTree::Ident(i) => i == "return" || i == "self",
                proc_macro2::TokenTree::Punct(p) => p.as_char() == '?',
                proc_macro2::TokenTree::Group(g) => bad(g.stream()),
                _ => false,
            })
        }
        // `self` inside a macro is only a problem when it has to be renamed
        if bad(m.tokens.clone()) { self.mac = true; }
    }
}

/// no `return` and no `?` of its own
pub fn stays_inside(e: &syn::Expr) -> bool {
    let mut s = Scan::default();
    s.visit_expr(e);
    s.ret == 0 && s.tri == 0 && !s.mac
}

/// `if c { ..; return x; } rest` to `if c { ..; x } else { rest }`, `return x;` at the end to `x`
fn structured(b: &syn::Block) -> Option<syn::Block> {
    fn ends(b: &syn::Block) -> bool {
        matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)))
    }
    let mut out: Vec<syn::Stmt> = Vec::new();
    for (i, s) in b.stmts.iter().enumerate() {
        let last = i + 1 == b.stmts.len();
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) if last => {
                if let Some(e) = &r.expr { out.push(syn::Stmt::Expr((**e).clone(), None)); }
            }
            syn::Stmt::Expr(syn::Expr::If(f), _) if f.else_branch.is_none() && ends(&f.then_branch) && !last => {
                let mut rest = b.clone();
                rest.stmts = b.stmts[i + 1..].to_vec();
                let mut g = f.clone();
                g.then_branch = structured(&f.then_branch)?;
                let r = structured(&rest)?;
                g.else_branch = Some((Default::default(), Box::new(syn::Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: r }))));
                out.push(syn::Stmt::Expr(syn::Expr::If(g), None));
                break;
            }
            syn::Stmt::Expr(syn::Expr::If(f), semi) if last && f.else_branch.is_some() => {
                let mut g = f.clone();
                g.then_branch = structured(&f.then_branch)?;
                if let Some((t, e)) = &f.else_branch {
                    if let syn::Expr::Block(eb) = &**e {
                        let mut n = eb.clone();
                        n.block = structured(&eb.block)?;
                        g.else_branch = Some((*t, Box::new(syn::Expr::Block(n))));
                    }
                }
                let semi = if ends(&f.then_branch) { None } else { *semi };
                out.push(syn::Stmt::Expr(syn::Expr::If(g), semi));
            }
            syn::Stmt::Expr(syn::Expr::Match(m), semi) if last => {
                let mut g = m.clone();
                let mut any = false;
                for a in g.arms.iter_mut() {
                    match &*a.body {
                        syn::Expr::Return(r) => { if let Some(e) = &r.expr { a.body = e.clone(); any = true; } }
                        syn::Expr::Block(eb) => {
                            any |= ends(&eb.block);
                            let mut n = eb.clone();
                            n.block = structured(&eb.block)?;
                            a.body = Box::new(syn::Expr::Block(n));
                        }
                        _ => {}
                    }
                    if a.comma.is_none() { a.comma = Some(Default::default()); }
                }
                out.push(syn::Stmt::Expr(syn::Expr::Match(g), if any { None } else { *semi }));
            }
            s => out.push(s.clone()),
        }
    }
    let mut r = b.clone();
    r.stmts = out;
    Some(r)
}

struct Rename<'a>(&'a str);
impl<'a> VisitMut for Rename<'a> {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if let syn::Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = syn::parse_str(self.0).expect("receiver");
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// `?` and `return Err(e)` of a helper whose error type is converted by the `?` of the caller
struct Convert(String);
impl VisitMut for Convert {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        if matches!(e, syn::Expr::Closure(_)) { return; }
        syn::visit_mut::visit_expr_mut(self, e);
        let t = match e {
            syn::Expr::Try(t) => format!("(match {} {{ Ok(vp_t) => vp_t, Err(vp_t) => {{ let vp_t: {} = core::convert::From::from(vp_t); return Err(core::convert::From::from(vp_t)) }} }})", t.expr.to_token_stream(), self.0),
            syn::Expr::Return(r) => match &r.expr {
                Some(x) => match &**x {
                    syn::Expr::Call(c) if c.args.len() == 1 => format!("return Err({{ let vp_t: {} = {}; core::convert::From::from(vp_t) }})", self.0, c.args[0].to_token_stream()),
                    _ => return,
                },
                _ => return,
            },
            _ => return,
        };
        if let Ok(n) = syn::parse_str(&t) { *e = n; }
    }
}

struct Erase;
impl VisitMut for Erase {
    fn visit_lifetime_mut(&mut self, l: &mut syn::Lifetime) {
        if l.ident != "static" { *l = syn::Lifetime::new("'_", l.apostrophe); }
    }
}

/// (error type of a Result, or "Option")
fn err_of(t: Option<&syn::Type>) -> Option<String> {
    if let Some(syn::Type::Path(p)) = t {
        let s = p.path.segments.last()?;
        let full = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
        if s.ident == "Option" { return Some("Option".into()); }
        if s.ident == "Result" {
            if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                return Some(match a.args.iter().nth(1) { Some(e) => e.to_token_stream().to_string(), None => full });
            }
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq)]
enum Pos { Tail, Try, Other }

struct Find<'h> {
    helpers: &'h BTreeMap<String, Helper>,
    dead: &'h HashSet<(String, usize)>,
    self_ty: Option<String>,
    ret: Option<syn::Type>,
    pos: Pos,
    found: Option<(String, usize, usize, String)>,
    last: Option<(usize, usize)>, // the tail expression of the function
    failed: Option<(String, usize)>,
}
impl<'h> Find<'h> {
    fn with(&mut self, p: Pos, f: impl FnOnce(&mut Self)) {
        let o = self.pos;
        self.pos = p;
        f(self);
        self.pos = o;
    }
    fn key(&self, call: &syn::Expr) -> Option<(String, Option<syn::Expr>, Vec<syn::Expr>)> {
        match call {
            syn::Expr::Call(c) => if let syn::Expr::Path(p) = &*c.func {
                let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let seg: Vec<&str> = seg.iter().map(|s| s.as_str()).collect();
                let k = match seg[..] {
                    [f] | ["self", f] => f.to_string(),
                    ["Self", f] => format!("{}::{}", self.self_ty.as_ref()?, f),
                    [t, f] => format!("{}::{}", t, f),
                    _ => return None,
                };
                let h = self.helpers.get(&k)?;
                let mut a: Vec<syn::Expr> = c.args.iter().cloned().collect();
                if h.receiver {
                    if a.is_empty() { return None; }
                    let r = a.remove(0);
                    return Some((k, Some(r), a));
                }
                Some((k, None, a))
            } else { None },
            syn::Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let on_self = matches!(&*m.receiver, syn::Expr::Path(p) if p.path.is_ident("self"));
                let mut c: Vec<&String> = self.helpers.iter().filter(|(k, h)| h.receiver && k.ends_with(&format!("::{}", n))).map(|x| x.0).collect();
                if on_self {
                    let own = format!("{}::{}", self.self_ty.as_ref()?, n);
                    c.retain(|k| **k == own);
                }
                if c.len() != 1 { return None; }
                Some((c[0].clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }
    fn text(&self, k: &str, recv: Option<syn::Expr>, args: Vec<syn::Expr>) -> Option<(String, bool)> {
        let h = &self.helpers[k];
        let mut sc = Scan::default();
        sc.visit_block(&h.block);
        if sc.mac || sc.names.contains(k.rsplit("::").next().unwrap()) || args.len() != h.inputs.len() {
            return None;
        }
        let mut block = h.block.clone();
        let same_ret = self.ret.as_ref().map(|t| t.to_token_stream().to_string()) == h.output.as_ref().map(|t| t.to_token_stream().to_string());
        let as_is = self.pos == Pos::Tail && same_ret && h.output.is_some();
        if !as_is {
            let same_err = err_of(self.ret.as_ref()).is_some() && err_of(self.ret.as_ref()) == err_of(h.output.as_ref());
            let (mine, theirs) = (err_of(self.ret.as_ref()), err_of(h.output.as_ref()));
            // what leaves the helper as an error leaves the caller through its `?`
            let convert = match (&mine, &theirs) {
                (Some(a), Some(b)) if self.pos == Pos::Try && !same_err && a != "Option" && b != "Option" => match b.as_str() {
                    "io::Result" => Some("io::Error".to_string()),
                    "fmt::Result" => Some("fmt::Error".to_string()),
                    x if x.ends_with("Result") => None,
                    x => Some(x.to_string()),
                },
                _ => None,
            };
            let through = self.pos == Pos::Try && (same_err || convert.is_some());
            if sc.tri > 0 && !through { return None; }
            if sc.ret > 0 && !(through && sc.ret == sc.ret_err) {
                block = structured(&block)?;
                let mut s2 = Scan::default();
                s2.visit_block(&block);
                if s2.ret > 0 && !(through && s2.ret == s2.ret_err) { return None; }
            }
            if let Some(t) = convert {
                let mut t: syn::Type = syn::parse_str(&t).ok()?;
                Erase.visit_type_mut(&mut t);
                Convert(t.to_token_stream().to_string()).visit_block_mut(&mut block);
            }
        }
        if let Some(r) = recv {
            let t = r.to_token_stream().to_string();
            let t = t.trim_start_matches("& mut ").trim_start_matches("& ").to_string();
            if t != "self" {
                // another receiver: only a variable, only as `self.x`
                if sc.selfs != sc.self_dot || syn::parse_str::<syn::Ident>(&t).is_err() { return None; }
                if args.iter().any(|a| a.to_token_stream().to_string() == t) || h.inputs.iter().any(|i| i.0 == t) { return None; }
                Rename(&t).visit_block_mut(&mut block);
            }
        } else if h.receiver {
            return None;
        }
        let mut s = String::from("({ ");
        let mut second = String::new();
        for (i, (a, (p, t, plain))) in args.iter().zip(&h.inputs).enumerate() {
            let at = a.to_token_stream().to_string();
            if *plain && *p == at { continue; }
            let ann = if t.is_empty() { String::new() } else { format!(": {}", t) };
            s.push_str(&format!("let vp_h{}{} = {}; ", i, ann, at));
            second.push_str(&format!("let {}{} = vp_h{}; ", p, ann, i));
        }
        s.push_str(&second);
        let body: String = block.stmts.iter().map(|x| x.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
        match (&h.output, as_is || h.open_output) {
            (Some(t), false) => {
                let mut t = t.clone();
                Erase.visit_type_mut(&mut t);
                s.push_str(&format!("let vp_hr: {} = {{ {} }}; vp_hr }})", t.to_token_stream(), body));
            }
            _ => s.push_str(&format!("{} }})", body)),
        }
        Some((s, as_is))
    }
}
impl<'h, 'a> Visit<'a> for Find<'h> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        if self.found.is_some() { return; }
        if let Some((k, recv, args)) = self.key(e) {
            let (s, en) = br(e);
            if !self.dead.contains(&(k.clone(), s)) {
                match self.text(&k, recv, args) {
                    Some((t, as_is)) => {
                        // at the end of the function its statements become the function's own
                        let t = if as_is && self.last == Some((s, en)) { t[2..t.len() - 2].to_string() } else { t };
                        self.found = Some((k, s, en, t));
                        return;
                    }
                    None => { self.failed = Some((k, s)); }
                }
            }
        }
        match e {
            syn::Expr::Try(t) => self.with(Pos::Try, |v| v.visit_expr(&t.expr)),
            syn::Expr::Return(r) => if let Some(x) = &r.expr { self.with(Pos::Tail, |v| v.visit_expr(x)) },
            syn::Expr::If(f) => {
                self.with(Pos::Other, |v| v.visit_expr(&f.cond));
                self.visit_block(&f.then_branch);
                if let Some((_, x)) = &f.else_branch { self.visit_expr(x); }
            }
            syn::Expr::Match(m) => {
                self.with(Pos::Other, |v| v.visit_expr(&m.expr));
                for a in &m.arms {
                    if let Some((_, g)) = &a.guard { self.with(Pos::Other, |v| v.visit_expr(g)); }
                    self.visit_expr(&a.body);
                }
            }
            syn::Expr::Block(b) => self.visit_block(&b.block),
            syn::Expr::Paren(p) => self.visit_expr(&p.expr),
            syn::Expr::Closure(c) => {
                // `?` and `return` inside a closure belong to the closure
                let r = self.ret.take();
                self.with(Pos::Other, |v| v.visit_expr(&c.body));
                self.ret = r;
            }
            _ => self.with(Pos::Other, |v| syn::visit::visit_expr(v, e)),
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                syn::Stmt::Expr(e, None) if i + 1 == n => self.visit_expr(e),
                s => self.with(Pos::Other, |v| v.visit_stmt(s)),
            }
        }
    }
    fn visit_item(&mut self, _: &'a syn::Item) {}
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        use syn::parse::Parser;
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
        if let Ok(args) = p.parse2(m.tokens.clone()) {
            let args: Vec<syn::Expr> = args.into_iter().collect();
            // the arguments live as long as the visit, which keeps only positions
            self.with(Pos::Other, |v| for a in &args { v.sub(a) });
        }
    }
}
impl<'h> Find<'h> {
    fn sub(&mut self, e: &syn::Expr) { self.visit_expr(e) }
}

fn uses(t: &impl ToTokens, names: &HashSet<String>) -> bool {
    fn go(t: proc_macro2::TokenStream, n: &HashSet<String>) -> bool {
        t.into_iter().any(|x| match x {
            proc_macro2::TokenTree::Ident(i) => i == "impl" || n.contains(&i.to_string()),
            proc_macro2::TokenTree::Group(g) => go(g.stream(), n),
            _ => false,
        })
    }
    go(t.to_token_stream(), names)
}

fn helper(sig: &syn::Signature, b: &syn::Block, ty: Option<String>) -> Option<Helper> {
    if sig.constness.is_some() && false { return None; }
    let gen: HashSet<String> = sig.generics.type_params().map(|t| t.ident.to_string()).collect();
    let mut inputs = Vec::new();
    let mut receiver = false;
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(_) => receiver = true,
            syn::FnArg::Typed(t) => {
                let open = uses(&*t.ty, &gen);
                let mut tt = (*t.ty).clone();
                Erase.visit_type_mut(&mut tt);
                let plain = matches!(&*t.pat, syn::Pat::Ident(i) if i.mutability.is_none() && i.by_ref.is_none());
                let reference = if let syn::Type::Reference(r) = &*t.ty { Some(if r.mutability.is_some() { "&mut _" } else { "&_" }) } else { None };
                inputs.push((t.pat.to_token_stream().to_string(), if open { reference.unwrap_or("").to_string() } else { tt.to_token_stream().to_string() }, plain));
            }
        }
    }
    let output = match &sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
    let open_output = output.as_ref().map(|t| uses(t, &gen)).unwrap_or(false);
    Some(Helper { inputs, receiver, output, open_output, block: b.clone(), ty })
}

/// the source with the helpers substituted, and which helpers went into which function
pub fn run(src: String, module: &str, type_name: fn(&syn::Type) -> String, impl_key: fn(&syn::ItemImpl) -> String,
           is_helper: &dyn Fn(&str) -> bool, has_contract: &dyn Fn(&str) -> bool) -> (String, HashMap<String, Vec<String>>) {
    let mut src = src;
    let mut notes: HashMap<String, Vec<String>> = HashMap::new();
    let mut dead: HashSet<(String, usize)> = HashSet::new();
    let q = |n: &str| if module.is_empty() { n.to_string() } else { format!("{}::{}", module, n) };
    for _ in 0..60 {
        let ast = match syn::parse_file(&src) { Ok(a) => a, Err(_) => return (src, notes) };
        let mut helpers = BTreeMap::new();
        for it in &ast.items {
            match it {
                syn::Item::Fn(f) if is_helper(&q(&f.sig.ident.to_string())) => {
                    if let Some(h) = helper(&f.sig, &f.block, None) { helpers.insert(f.sig.ident.to_string(), h); }
                }
                syn::Item::Impl(im) if im.trait_.is_none() => for x in &im.items {
                    if let syn::ImplItem::Fn(f) = x {
                        let ty = type_name(&im.self_ty);
                        let k = format!("{}::{}", ty, f.sig.ident);
                        if is_helper(&q(&k)) {
                            if let Some(h) = helper(&f.sig, &f.block, Some(ty)) { helpers.insert(k, h); }
                        }
                    }
                },
                _ => {}
            }
        }
        if helpers.is_empty() { return (src, notes); }
        let mut hit = None;
        {
            let mut go = |key: String, sig: &syn::Signature, b: &syn::Block, ty: Option<String>| -> bool {
                if !has_contract(&key) { return false; }
                let ret = match &sig.output { syn::ReturnType::Type(_, t) => Some((**t).clone()), _ => None };
                let last = match b.stmts.last() { Some(syn::Stmt::Expr(e, None)) => Some(br(e)), _ => None };
                loop {
                    let mut f = Find { last, helpers: &helpers, dead: &dead, self_ty: ty.clone(), ret: ret.clone(), pos: Pos::Tail, found: None, failed: None };
                    f.visit_block(b);
                    if let Some(x) = f.found { hit = Some((key, x)); return true; }
                    match f.failed { Some(x) => { dead.insert(x); } None => return false }
                }
            };
            'all: for it in &ast.items {
                match it {
                    syn::Item::Fn(f) => if go(q(&f.sig.ident.to_string()), &f.sig, &f.block, None) { break 'all; },
                    syn::Item::Impl(im) => for x in &im.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if go(q(&format!("{}::{}", impl_key(im), f.sig.ident)), &f.sig, &f.block, Some(type_name(&im.self_ty))) { break 'all; }
                        }
                    },
                    _ => {}
                }
            }
        }
        match hit {
            None => return (src, notes),
            Some((key, (k, s, e, t))) => {
                let nl = src[s..e].matches('\n').count().saturating_sub(t.matches('\n').count());
                // positions after the substitution move
                dead.clear();
                src = format!("{}{}{}{}", &src[..s], t, "\n".repeat(nl), &src[e..]);
                let _ = helpers.get(&k).map(|h| &h.ty);
                notes.entry(key).or_default().push(q(&k));
            }
        }
    }
    (src, notes)
}
