//! The rewrites applied inside a function body. All of them are syntactic and
//! are listed in DESIGN.md (R1-R20).
use crate::contracts::FnC;
use crate::render::{Edits, Piece};
use crate::{br, Ctx};
use quote::ToTokens;
use syn::parse::Parser;
use syn::punctuated::Punctuated;
use syn::visit::Visit;

#[derive(Default)]
pub struct Calls {
    pub names: Vec<String>,
    pub loops: usize,
    /// the variables the body binds, in order
    pub binds: Vec<String>,
    /// loops over an iterator in a variable: `while let Some(p) = it.next()`
    pub iters: Vec<(usize, String)>,
}

impl<'ast> Visit<'ast> for Calls {
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) {
        let n = i.ident.to_string();
        if n.starts_with(|c: char| c.is_lowercase() || c == '_') { self.binds.push(n); }
        syn::visit::visit_pat_ident(self, i);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        self.names.push(format!(".{}", m.method));
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let v: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.names.push(v.join("::"));
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        self.loops += 1;
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        if let syn::Expr::Let(c) = &*l.cond {
            if let (syn::Expr::MethodCall(m), syn::Pat::TupleStruct(p)) = (&*c.expr, &*c.pat) {
                if let syn::Expr::Path(r) = &*m.receiver {
                    if let (Some(i), true) = (r.path.get_ident(), m.method == "next" && p.path.is_ident("Some")) {
                        self.iters.push((self.loops, i.to_string()));
                    }
                }
            }
        }
        self.loops += 1;
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.loops += 1;
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        self.names.push(format!("{}!", m.path.segments.last().unwrap().ident));
        if let Ok(args) = Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()) {
            let v: Vec<syn::Expr> = args.into_iter().collect();
            let mut sub = Calls::default();
            for e in &v { sub.visit_expr(e); }
            self.names.extend(sub.names);
        }
    }
}

struct V<'a, 'b> {
    cx: &'a mut Ctx<'b>,
    ed: &'a mut Edits,
    src: &'a str,
    c: &'a FnC,
    loop_no: usize,
    mut_self: bool,
    closure_no: usize,
    tmp: usize,
    err: Option<String>,
    /// enclosing statements (ranges), innermost last
    stmts: Vec<(usize, usize)>,
    /// call name -> enclosing statements of its occurrences
    call_stmts: Vec<(String, (usize, usize))>,
    /// the let statements around the current one: statement, variable
    lets: Vec<((usize, usize), String)>,
    /// the let statements whose initial value contains a substituted helper with this call: call statement, let statement, variable
    helper_lets: Vec<((usize, usize), (usize, usize), String)>,
    /// expressions among the statements: bodies of match arms, and values of blocks
    arms: std::collections::HashSet<(usize, usize)>,
    tails: std::collections::HashSet<(usize, usize)>,
    loops_at: Vec<LoopAt>,
    loop_stack: Vec<usize>,
    returns: Vec<(usize, usize)>,
    used_closures: usize,
    /// closures that are arguments of a method
    closure_of: std::collections::HashMap<(usize, usize), String>,
}

struct LoopAt { body: (usize, usize), stmt: (usize, usize) }

fn rw(cx: &mut Ctx, n: &str) {
    *cx.rewrites.entry(n.to_string()).or_default() += 1;
}

/// Renders the expression pieces of a byte string literal as a spec sequence
fn lit_seq(s: &str) -> String {
    let v: Vec<String> = s.bytes().map(|b| format!("{}u8", b)).collect();
    format!("seq![{}]", v.join(", "))
}

enum FmtPart { Lit(String), Arg { idx: usize, spec: String }, Named { name: String, spec: String } }

fn parse_fmt(s: &str) -> Result<Vec<FmtPart>, String> {
    let mut out = Vec::new();
    let mut lit = String::new();
    let mut next = 0;
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '{' if it.peek() == Some(&'{') => { it.next(); lit.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); lit.push('}'); }
            '{' => {
                let mut body = String::new();
                loop {
                    match it.next() { Some('}') => break, Some(c) => body.push(c), None => return Err("format string".into()) }
                }
                if !lit.is_empty() { out.push(FmtPart::Lit(std::mem::take(&mut lit))); }
                let (name, spec) = body.split_once(':').unwrap_or((&body, ""));
                let (name, spec) = (name.trim().to_string(), spec.trim().to_string());
                if name.is_empty() { out.push(FmtPart::Arg { idx: next, spec }); next += 1; }
                else if let Ok(i) = name.parse::<usize>() { out.push(FmtPart::Arg { idx: i, spec }); }
                else { out.push(FmtPart::Named { name, spec }); }
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { out.push(FmtPart::Lit(lit)); }
    Ok(out)
}

/// Strips reference patterns and `ref` bindings; returns the edits' effect as
/// names that have to be dereferenced at the start of the body.
fn pat_edits(p: &syn::Pat, ed: &mut Edits, inside_ref: bool, deref: &mut Vec<String>, changed: &mut bool) {
    match p {
        syn::Pat::Reference(r) => {
            let (s, _) = br(p);
            let (is, _) = br(&*r.pat);
            ed.replace(s, is, String::new());
            *changed = true;
            pat_edits(&r.pat, ed, true, deref, changed);
        }
        syn::Pat::Ident(i) => {
            if i.by_ref.is_some() {
                if inside_ref {
                    let (s, _) = br(&i.by_ref);
                    let e = br(&i.ident).0;
                    ed.replace(s, e, String::new());
                    *changed = true;
                }
            } else if inside_ref && i.subpat.is_none() {
                let n = i.ident.to_string();
                if !n.chars().next().unwrap().is_uppercase() {
                    deref.push(n);
                }
            }
        }
        syn::Pat::Tuple(t) => for q in &t.elems { pat_edits(q, ed, inside_ref, deref, changed) },
        syn::Pat::TupleStruct(t) => for q in &t.elems { pat_edits(q, ed, inside_ref, deref, changed) },
        syn::Pat::Struct(t) => for q in &t.fields { pat_edits(&q.pat, ed, inside_ref, deref, changed) },
        syn::Pat::Or(t) => for q in &t.cases { pat_edits(q, ed, inside_ref, deref, changed) },
        syn::Pat::Paren(t) => pat_edits(&t.pat, ed, inside_ref, deref, changed),
        _ => {}
    }
}

fn has_ref_pat(p: &syn::Pat) -> bool {
    struct F(bool);
    impl<'a> Visit<'a> for F {
        fn visit_pat_reference(&mut self, _: &'a syn::PatReference) { self.0 = true; }
    }
    let mut f = F(false);
    f.visit_pat(p);
    f.0
}

fn deref_lets(v: &[String]) -> String {
    v.iter().map(|n| format!(" let {0} = *{0};", n)).collect()
}

impl<'a, 'b> V<'a, 'b> {
    fn fail(&mut self, m: String) { if self.err.is_none() { self.err = Some(m); } }
    fn panic(&self) -> String {
        match self.c.opts.get("panic") {
            Some(c) => format!("proof {{ assert({}); }} vp_may_panic()", c),
            None => "vp_panic()".into(),
        }
    }
    fn fresh(&mut self) -> usize { self.tmp += 1; self.tmp }

    fn loop_spec(&mut self) -> (usize, String) {
        let k = self.loop_no;
        self.loop_no += 1;
        match self.c.loops.get(&k) {
            Some(s) => (k, s.clone()),
            None => { self.fail(format!("no invariant for loop {}", k)); (k, String::new()) }
        }
    }

    fn is_bool(&self, e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => self.cx.bool_fns.contains(&p.path.segments.last().unwrap().ident.to_string()),
                _ => false,
            },
            syn::Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("is_") || n == "contains" || n == "starts_with" }
            syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
            syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Lt(_) | syn::BinOp::Le(_)
                | syn::BinOp::Gt(_) | syn::BinOp::Ge(_) | syn::BinOp::And(_) | syn::BinOp::Or(_)),
            syn::Expr::Paren(p) => self.is_bool(&p.expr),
            syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && self.is_bool(&u.expr),
            _ => false,
        }
    }

    fn note_call(&mut self, name: String) {
        if let Some(s) = self.stmts.last() {
            self.call_stmts.push((name, *s));
            if let Some(h) = self.lets.iter().rposition(|l| l.1 == "vp_hr") {
                for l in self.lets[..h].iter().rev() { self.helper_lets.push((*s, l.0, l.1.clone())); }
            }
        }
    }

    fn call_wrapper(&self, name: &str) -> Option<String> {
        self.c.calls.get(name).or_else(|| self.cx.contracts.calls.get(name)).cloned()
    }

    /// `F(v)` as text pieces for a function value F applied to the variable `v`
    fn apply(&mut self, f: &syn::Expr, v: &str) -> Vec<Piece> {
        match f {
            syn::Expr::Closure(cl) if cl.inputs.len() == 1 => {
                let (bs, be) = br(&*cl.body);
                let (ps, pe) = br(&cl.inputs[0]);
                let pat = &self.src[ps..pe];
                let bind = if pat == "_" { String::new() } else { format!("let {} = {}; ", pat, v) };
                vec![Piece::Text(format!("{{ {}", bind)), Piece::Src(bs, be), Piece::Text(" }".into())]
            }
            _ => {
                let (s, e) = br(f);
                vec![Piece::Src(s, e), Piece::Text(format!("({})", v))]
            }
        }
    }

    fn do_macro(&mut self, m: &syn::Macro, range: (usize, usize), semi: bool) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let parse = || -> Result<Vec<syn::Expr>, String> {
            Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone())
                .map(|p| p.into_iter().collect()).map_err(|e| e.to_string())
        };
        let tail = if semi { ";" } else { "" };
        self.note_call(format!("{}!", name));
        match name.as_str() {
            "vec" if m.tokens.is_empty() => {
                self.ed.replace(range.0, range.1, format!("Vec::new(){}", tail));
                rw(self.cx, "R3 vec![] to Vec::new()");
            }
            "vec" => {
                let rep = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> {
                    let x = i.parse()?;
                    i.parse::<syn::Token![;]>()?;
                    Ok((x, i.parse()?))
                };
                if let Ok((x, n)) = rep.parse2(m.tokens.clone()) {
                    let ((a, b), (c, d)) = (br(&x), br(&n));
                    self.visit_expr(&x);
                    self.visit_expr(&n);
                    self.ed.replace_p(range.0, range.1, vec![Piece::Text("vp_from_elem(".into()), Piece::Src(a, b),
                        Piece::Text(", ".into()), Piece::Src(c, d), Piece::Text(format!("){}", tail))]);
                    rw(self.cx, "R3 vec![x; n] to vp_from_elem(x, n)");
                } else {
                    match parse() {
                        Ok(args) => {
                            let mut p = vec![Piece::Text("{ let mut vp_v = Vec::new(); ".into())];
                            for a in &args {
                                let (s, e) = br(a);
                                p.push(Piece::Text("vp_v.push(".into()));
                                p.push(Piece::Src(s, e));
                                p.push(Piece::Text("); ".into()));
                                self.visit_expr(a);
                            }
                            p.push(Piece::Text(format!("vp_v }}{}", tail)));
                            self.ed.replace_p(range.0, range.1, p);
                            rw(self.cx, "R3 vec![..] to its pushes");
                        }
                        Err(e) => self.fail(format!("{}!: {}", name, e)),
                    }
                }
            }
            "matches" => {
                let one = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                    let x = i.parse()?;
                    i.parse::<syn::Token![,]>()?;
                    let pat = syn::Pat::parse_multi_with_leading_vert(i)?;
                    let g = if i.peek(syn::Token![if]) { i.parse::<syn::Token![if]>()?; Some(i.parse()?) } else { None };
                    if !i.is_empty() { i.parse::<syn::Token![,]>()?; }
                    Ok((x, pat, g))
                };
                match one.parse2(m.tokens.clone()) {
                    Ok((x, pat, g)) => {
                        let ((a, b), (c, d)) = (br(&x), br(&pat));
                        self.visit_expr(&x);
                        self.visit_pat(&pat);
                        let mut p = vec![Piece::Text("(match ".into()), Piece::Src(a, b), Piece::Text(" { ".into()), Piece::Src(c, d)];
                        if let Some(g) = &g {
                            let (s, e) = br(g);
                            p.push(Piece::Text(" if ".into()));
                            p.push(Piece::Src(s, e));
                            self.visit_expr(g);
                        }
                        p.push(Piece::Text(format!(" => true, _ => false }}){}", tail)));
                        self.ed.replace_p(range.0, range.1, p);
                        rw(self.cx, "R3 matches! to the match it expands to");
                    }
                    Err(e) => self.fail(format!("{}!: {}", name, e)),
                }
            }
            "format" | "warn" | "error" | "info" | "debug" | "trace" => {
                match parse() {
                    Ok(args) => {
                        let mut p = vec![Piece::Text("{ ".into())];
                        for a in args.iter().skip(1) {
                            let (s, e) = br(a);
                            p.push(Piece::Text("vp_ignore(&(".into()));
                            p.push(Piece::Src(s, e));
                            p.push(Piece::Text(")); ".into()));
                            self.visit_expr(a);
                        }
                        p.push(Piece::Text(if name == "format" { format!("vp_any_string() }}{}", tail) } else { format!("}}{}", tail) }));
                        self.ed.replace_p(range.0, range.1, p);
                        rw(self.cx, if name == "format" { "R3 format! to an unspecified string" } else { "R3 log macro to evaluation of its arguments" });
                    }
                    Err(e) => self.fail(format!("{}!: {}", name, e)),
                }
            }
            "assert" | "debug_assert" | "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                match parse() {
                    Ok(args) => {
                        let mut p = vec![Piece::Text("if !(".into())];
                        let (s, e) = br(&args[0]);
                        p.push(Piece::Src(s, e));
                        self.visit_expr(&args[0]);
                        if name.ends_with("_eq") || name.ends_with("_ne") {
                            let (s, e) = br(&args[1]);
                            p.push(Piece::Text(if name.ends_with("_eq") { " == ".into() } else { " != ".into() }));
                            p.push(Piece::Src(s, e));
                            self.visit_expr(&args[1]);
                        }
                        p.push(Piece::Text(format!(") {{ {}; }}", self.panic())));
                        self.ed.replace_p(range.0, range.1, p);
                        rw(self.cx, "R3 assert! to an unreachable panic");
                    }
                    Err(e) => self.fail(format!("{}!: {}", name, e)),
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                let pn = self.panic();
                self.ed.replace(range.0, range.1, format!("{{ {} }}{}", pn, tail));
                rw(self.cx, "R3 panic! to an unreachable panic");
            }
            "write" | "writeln" => match parse() {
                Ok(args) => self.do_write(&args, name == "writeln", range, tail),
                Err(e) => self.fail(format!("{}!: {}", name, e)),
            },
            _ => self.fail(format!("macro {}! is not supported", name)),
        }
    }

    fn do_write(&mut self, args: &[syn::Expr], nl: bool, range: (usize, usize), tail: &str) {
        let kind = self.c.opts.get("write").cloned().unwrap_or_else(|| "io".into());
        let mut parts = if args.len() > 1 {
            match &args[1] {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => match parse_fmt(&s.value()) {
                    Ok(p) => p,
                    Err(e) => return self.fail(e),
                },
                _ => return self.fail("format string is not a literal".into()),
            }
        } else { vec![] };
        if nl {
            match parts.last_mut() {
                Some(FmtPart::Lit(s)) => s.push('\n'),
                _ => parts.push(FmtPart::Lit("\n".into())),
            }
        }
        let vals = &args[2.min(args.len())..];
        let base = self.fresh();
        let mut pieces = vec![Piece::Text("{ ".into())];
        if !vals.is_empty() {
            // a match keeps the temporaries of the arguments alive, as format_args! does
            pieces.push(Piece::Text("match (".into()));
            for a in vals {
                let (s, e) = br(a);
                pieces.push(Piece::Text("&(".into()));
                pieces.push(Piece::Src(s, e));
                pieces.push(Piece::Text("), ".into()));
                self.visit_expr(a);
            }
            let names: Vec<String> = (0..vals.len()).map(|i| format!("vp_a{}_{}, ", base, i)).collect();
            pieces.push(Piece::Text(format!(") {{ ({}) => {{ ", names.concat())));
        }
        let mut seq: Vec<String> = Vec::new();
        for p in parts {
            match p {
                FmtPart::Lit(s) => seq.push(lit_seq(&s)),
                FmtPart::Arg { idx, spec } => {
                    if idx >= vals.len() { return self.fail("format arguments".into()); }
                    let v = format!("vp_a{}_{}", base, idx);
                    match spec.as_str() {
                        "" => seq.push(format!("vp_disp({})", v)),
                        "x" => seq.push(format!("vp_hex({})", v)),
                        "02x" => seq.push(format!("vp_hex02({})", v)),
                        o => seq.push(format!("vp_fmt_other({}, {})", v, lit_seq(o))),
                    }
                }
                FmtPart::Named { name, spec } => match spec.as_str() {
                    "" => seq.push(format!("vp_disp(&{})", name)),
                    "x" => seq.push(format!("vp_hex(&{})", name)),
                    "02x" => seq.push(format!("vp_hex02(&{})", name)),
                    o => seq.push(format!("vp_fmt_other(&{}, {})", name, lit_seq(o))),
                },
            }
        }
        let ghost = if seq.is_empty() { "Seq::<u8>::empty()".to_string() } else { seq.join(" + ") };
        let f = match kind.as_str() {
            "io" => "vp_io_write_fmt",
            "fmt" => "vp_fmt_write_fmt",
            "string" => "vp_string_write_fmt",
            _ => return self.fail("@opt write".into()),
        };
        pieces.push(Piece::Text(format!("let ghost vp_g{}: Seq<u8> = {}; {}(", base, ghost, f)));
        let d = &args[0];
        let (s, e) = br(d);
        let by_ref = !matches!(d, syn::Expr::Reference(_) | syn::Expr::Path(_));
        if by_ref { pieces.push(Piece::Text("&mut (".into())); }
        pieces.push(Piece::Src(s, e));
        if by_ref { pieces.push(Piece::Text(")".into())); }
        self.visit_expr(d);
        pieces.push(Piece::Text(format!(", Ghost(vp_g{})) {}}}{}", base, if vals.is_empty() { "" } else { "} } " }, tail)));
        self.ed.replace_p(range.0, range.1, pieces);
        rw(self.cx, "R3 write!/writeln! to the sequence of its pieces");
    }

    fn do_for(&mut self, f: &syn::ExprForLoop) {
        let (k, spec) = self.loop_spec();
        let whole = br(f);
        self.loops_at.push(LoopAt { body: br(&f.body), stmt: *self.stmts.last().unwrap_or(&whole) });
        let (es, ee) = br(&*f.expr);
        let (ps, pe) = br(&*f.pat);
        let (bs, be) = br(&f.body);
        // R2 on the pattern
        let mut deref = vec![];
        let mut ch = false;
        pat_edits(&f.pat, self.ed, false, &mut deref, &mut ch);
        let lets = deref_lets(&deref);
        let label = f.label.as_ref().map(|l| { let (s, e) = br(l); self.src[s..e].to_string() + " " }).unwrap_or_default();
        let into = match self.c.opts.get(&format!("iter{}", k)) {
            Some(w) => w.clone(),
            None => "core::iter::IntoIterator::into_iter".to_string(),
        };
        let k_tail = self.at_text(&format!("loop {} tail", k));
        let k_head = self.at_text(&format!("loop {} head", k));
        let k_enter = self.at_text(&format!("loop {} enter", k));
        let k_exit = self.at_text(&format!("loop {} exit", k));
        let k_next = self.at_text(&format!("loop {} next", k));
        let mut p = vec![Piece::Text(format!("{{ let mut vp_it{} = {}(", k, into)), Piece::Src(es, ee),
            Piece::Text(format!("); {} {}loop\n{}\n {{ {} match vp_it{}.next() {{ Some(", k_enter, label, spec, k_next, k)),
            Piece::Src(ps, pe), Piece::Text(format!(") => {{ {} {}", lets, k_head)),
            Piece::Src(bs, be), Piece::Text(format!(" {} }} None => {{ {} break; }} }} }} }}", k_tail, k_exit))];
        let _ = &mut p;
        self.ed.replace_p(whole.0, whole.1, p);
        rw(self.cx, "R1 for loop to loop over IntoIterator::into_iter and next");
        self.visit_expr(&f.expr);
        self.loop_stack.push(k);
        self.visit_block(&f.body);
        self.loop_stack.pop();
    }

    fn at_text(&self, anchor: &str) -> String {
        let mut t = String::new();
        for (a, b) in &self.c.at {
            if a == anchor { t.push_str("\n"); t.push_str(b); }
        }
        if let Some(x) = smoke() { if anchor.ends_with(&format!(" {}", x)) { t.push_str(SMOKE); } }
        t
    }

    fn loop_inner(&mut self, k: usize, body: &syn::Block) {
        let head = self.at_text(&format!("loop {} head", k));
        let tail = self.at_text(&format!("loop {} tail", k));
        let (s, e) = br(body);
        if !head.is_empty() { self.ed.insert(s + 1, 100, head); }
        if !tail.is_empty() { self.ed.insert(e - 1, 100, tail); }
    }
}

impl<'a, 'b, 'ast> Visit<'ast> for V<'a, 'b> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = br(s);
        self.stmts.push(r);
        if let syn::Stmt::Expr(e, None) = s {
            if !matches!(e, syn::Expr::If(_) | syn::Expr::Match(_) | syn::Expr::Block(_) | syn::Expr::Unsafe(_) | syn::Expr::Loop(_)
                | syn::Expr::While(_) | syn::Expr::ForLoop(_) | syn::Expr::Return(_) | syn::Expr::Break(_) | syn::Expr::Continue(_)) {
                self.tails.insert(r);
            }
        }
        match s {
            syn::Stmt::Macro(m) => self.do_macro(&m.mac, r, m.semi_token.is_some()),
            syn::Stmt::Item(syn::Item::Use(_)) => {
                let t = &self.src[r.0..r.1];
                if t.contains("fmt::Write") || t.contains("HashTypeEnum") && false { self.ed.replace(r.0, r.1, String::new()); }
            }
            syn::Stmt::Local(l) => {
                // R2: let ref mut x = e;
                if let syn::Pat::Ident(i) = &l.pat {
                    if let (Some(_), Some(init)) = (&i.by_ref, &l.init) {
                        let (a, b) = br(&i.by_ref);
                        let e = br(&i.ident).0;
                        let _ = b;
                        let m = i.mutability.is_some();
                        self.ed.replace(a, e, String::new());
                        self.ed.insert(br(&*init.expr).0, 1, if m { "&mut ".into() } else { "&".into() });
                        rw(self.cx, "R2 let ref to a borrow");
                    }
                }
                let name = match &l.pat {
                    syn::Pat::Ident(i) => i.ident.to_string(),
                    syn::Pat::Type(t) => match &*t.pat { syn::Pat::Ident(i) => i.ident.to_string(), _ => String::new() },
                    _ => String::new(),
                };
                self.lets.push((r, name));
                syn::visit::visit_stmt(self, s);
                self.lets.pop();
            }
            _ => syn::visit::visit_stmt(self, s),
        }
        self.stmts.pop();
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        let block = matches!(&*a.body, syn::Expr::Block(b) if b.label.is_none());
        if !block {
            let r = br(&*a.body);
            self.stmts.push(r);
            self.arms.insert(r);
        }
        syn::visit::visit_arm(self, a);
        if !block { self.stmts.pop(); }
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        let r = br(m);
        self.do_macro(&m.mac, r, false);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        if let Some(s) = self.stmts.last() { self.returns.push(*s); }
        syn::visit::visit_expr_return(self, r);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) { self.do_for(f); }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let (k, spec) = self.loop_spec();
        self.loops_at.push(LoopAt { body: br(&l.body), stmt: *self.stmts.last().unwrap() });
        self.ed.insert(br(&l.body).0, 20, format!("\n{}\n", spec));
        self.loop_inner(k, &l.body);
        self.loop_stack.push(k);
        syn::visit::visit_expr_loop(self, l);
        self.loop_stack.pop();
    }
    fn visit_expr_while(&mut self, w: &'ast syn::ExprWhile) {
        let (k, spec) = self.loop_spec();
        self.loops_at.push(LoopAt { body: br(&w.body), stmt: *self.stmts.last().unwrap() });
        if let syn::Expr::Let(l) = &*w.cond {
            let whole = br(w);
            let mut deref = vec![];
            let mut ch = false;
            pat_edits(&l.pat, self.ed, false, &mut deref, &mut ch);
            let (ps, pe) = br(&*l.pat);
            let (es, ee) = br(&*l.expr);
            let (bs, be) = br(&w.body);
            let head = self.at_text(&format!("loop {} head", k));
            let tail = self.at_text(&format!("loop {} tail", k));
            let next = self.at_text(&format!("loop {} next", k));
            let enter = self.at_text(&format!("loop {} enter", k));
            let exit = self.at_text(&format!("loop {} exit", k));
            let (open, close) = if enter.is_empty() { ("", "") } else { ("{ ", " }") };
            let label = w.label.as_ref().map(|l| { let (s, e) = br(l); self.src[s..e].to_string() + " " }).unwrap_or_default();
            self.ed.replace_p(whole.0, whole.1, vec![Piece::Text(format!("{}{} {}loop\n{}\n {{ {} match ", open, enter, label, spec, next)),
                Piece::Src(es, ee), Piece::Text(" { ".into()), Piece::Src(ps, pe),
                Piece::Text(format!(" => {{ {}{}", deref_lets(&deref), head)), Piece::Src(bs, be),
                Piece::Text(format!(" {} }} _ => {{ {} break; }} }} }}{}", tail, exit, close))]);
            rw(self.cx, "R1 while let to loop and match");
            self.visit_expr(&l.expr);
            self.loop_stack.push(k);
            self.visit_block(&w.body);
            self.loop_stack.pop();
        } else {
            self.ed.insert(br(&w.body).0, 20, format!("\n{}\n", spec));
            self.loop_inner(k, &w.body);
            self.loop_stack.push(k);
            syn::visit::visit_expr_while(self, w);
            self.loop_stack.pop();
        }
    }
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        // the ghost steps at the end of the body belong before a `continue` too
        if let (None, Some(k)) = (&c.label, self.loop_stack.last()) {
            let t = self.at_text(&format!("loop {} tail", k));
            if !t.is_empty() {
                let (s, e) = br(c);
                self.ed.insert(s, 1, format!("{{ {} ", t));
                self.ed.insert(e, 1, " }".into());
            }
        }
    }
    fn visit_expr_closure(&mut self, cl: &'ast syn::ExprClosure) {
        let k = self.closure_no;
        self.closure_no += 1;
        let special = self.closure_of.get(&br(cl)).and_then(|m| self.c.closures_in.get(&(k, m.clone()))).cloned();
        if let Some((params, spec)) = special.or_else(|| self.c.closures.get(&k).cloned()) {
            self.used_closures += 1;
            let whole = br(cl);
            let (bs, be) = br(&*cl.body);
            let body_txt = self.src[bs..be].to_string();
            let spec = spec.replace("$BODY", &body_txt);
            let mv = if cl.capture.is_some() { "move " } else { "" };
            let (ps, _) = whole;
            let _ = ps;
            let is_block = matches!(&*cl.body, syn::Expr::Block(_));
            let mut p = vec![Piece::Text(format!("{}{} {}", mv, params, spec))];
            // the parameters' patterns are matched inside the body
            let mut binds: Vec<Piece> = vec![];
            for (i, q) in cl.inputs.iter().enumerate() {
                if params.contains(&format!("vp_p{}:", i)) {
                    let q = match q { syn::Pat::Type(t) => &*t.pat, q => q };
                    if matches!(q, syn::Pat::Wild(_)) { continue; }
                    let mut deref = vec![];
                    let mut ch = false;
                    pat_edits(q, self.ed, false, &mut deref, &mut ch);
                    let (qs, qe) = br(q);
                    binds.push(Piece::Text(" let ".into()));
                    binds.push(Piece::Src(qs, qe));
                    binds.push(Piece::Text(format!(" = vp_p{}; {}", i, deref_lets(&deref))));
                }
            }
            let is_block = is_block && binds.is_empty();
            if !is_block { p.push(Piece::Text("{ ".into())); p.extend(binds); }
            if let (Some(own), true, true) = (self.c.opts.get("own"), is_block, cl.capture.is_some()) {
                // R15: what a move closure changes is a variable of its own
                let lets: String = own.split_whitespace().map(|x| format!(" let mut {0} = {0}; ", x)).collect();
                self.ed.insert(bs + 1, 1, lets);
                rw(self.cx, "R15 captured variable moved into the closure");
            }
            p.push(Piece::Src(bs, be));
            if !is_block { p.push(Piece::Text(" }".into())); }
            self.ed.replace_p(whole.0, whole.1, p);
            rw(self.cx, "R7 closure given types and a contract");
        }
        syn::visit::visit_expr_closure(self, cl);
    }
    fn visit_pat(&mut self, _: &'ast syn::Pat) {}
    fn visit_expr_lit(&mut self, l: &'ast syn::ExprLit) {
        if let syn::Lit::ByteStr(b) = &l.lit {
            let (s, e) = br(l);
            let v: Vec<String> = b.value().iter().map(|x| format!("{}u8", x)).collect();
            self.ed.replace(s, e, format!("(&[{}])", v.join(", ")));
            rw(self.cx, "R11 byte string literal to an array literal");
        }
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        for arm in &m.arms {
            if has_ref_pat(&arm.pat) {
                let mut deref = vec![];
                let mut ch = false;
                pat_edits(&arm.pat, self.ed, false, &mut deref, &mut ch);
                if ch { rw(self.cx, "R2 reference pattern to a binding mode"); }
                if !deref.is_empty() {
                    let (s, e) = br(&*arm.body);
                    self.ed.insert(s, 100, format!("{{{} ", deref_lets(&deref)));
                    self.ed.insert(e, 105, " }".into());
                }
            }
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        let (ts, te) = br(&*c.ty);
        let ty = &self.src[ts..te];
        if ty.contains("dyn ") {
            let (s, e) = br(c);
            let (es, ee) = br(&*c.expr);
            let _ = es;
            self.ed.insert(s, 1, format!("{{ let vp_b: {} = ", ty.split_whitespace().collect::<Vec<_>>().join(" ")));
            let nl = self.src[ee..e].matches('\n').count();
            self.ed.replace(ee, e, format!("; vp_b }}{}", "\n".repeat(nl)));
            rw(self.cx, "R18 cast to a trait object to a coercion");
            syn::visit::visit_expr(self, &c.expr);
            return;
        }
        syn::visit::visit_expr_cast(self, c);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        if has_ref_pat(&l.pat) {
            let mut deref = vec![];
            let mut ch = false;
            pat_edits(&l.pat, self.ed, false, &mut deref, &mut ch);
            if !deref.is_empty() { self.fail("reference pattern in if let".into()); }
        }
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        let n = p.path.segments.len();
        if n >= 2 && p.path.segments[n - 2].ident == "ErrorKind" && p.path.segments[n - 1].arguments.is_none() {
            let (s, t) = br(p);
            self.ed.replace(s, t, "vp_error_kind()".into());
            rw(self.cx, "R17 the kind of an I/O error is not specified");
        }
        if self.mut_self && p.path.is_ident("self") {
            let (s, e) = br(p);
            self.ed.replace(s, e, "vp_self".into());
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        if self.is_bool(&b.left) && self.is_bool(&b.right) {
            let rep = match b.op { syn::BinOp::BitAnd(_) => "&&", syn::BinOp::BitOr(_) => "||", _ => "" };
            if !rep.is_empty() {
                let (s, e) = br(&b.op);
                self.ed.replace(s, e, rep.into());
                rw(self.cx, "R5 & on bool to &&");
            }
        }
        if self.c.opts.get("bits").is_some() && matches!(b.op, syn::BinOp::BitAnd(_) | syn::BinOp::BitOr(_) | syn::BinOp::Shl(_) | syn::BinOp::Shr(_)) {
            // R13: a byte, or a reference to it, as the left operand
            if let syn::Expr::Path(p) = &*b.left {
                let (s, e) = br(p);
                let n = self.src[s..e].to_string();
                self.ed.replace(s, e, format!("vp_byte({})", n));
                rw(self.cx, "R13 operand of a bit operation dereferenced");
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        if let syn::Expr::MethodCall(m) = &*t.expr {
            let n = m.method.to_string();
            if (n == "map_err" || n == "context") && m.args.len() == 1 {
                let whole = br(t);
                let (rs, re) = br(&*m.receiver);
                let k = self.fresh();
                let mut p = vec![Piece::Text("(match ".into()), Piece::Src(rs, re),
                    Piece::Text(format!(" {{ Ok(vp_v{0}) => vp_v{0}, Err(vp_e{0}) => return Err(core::convert::From::from(", k))];
                if n == "map_err" {
                    p.extend(self.apply(&m.args[0], &format!("vp_e{}", k)));
                } else {
                    let (s, e) = br(&m.args[0]);
                    p.push(Piece::Text(format!("vp_context(vp_e{}, ", k)));
                    p.push(Piece::Src(s, e));
                    p.push(Piece::Text(")".into()));
                }
                p.push(Piece::Text(")) })".into()));
                self.ed.replace_p(whole.0, whole.1, p);
                rw(self.cx, "R9 map_err/context with ? to match");
                self.note_call(format!(".{}", n));
                self.visit_expr(&m.receiver);
                match &m.args[0] {
                    syn::Expr::Closure(c) => self.visit_expr(&c.body),
                    a => self.visit_expr(a),
                }
                return;
            }
        }
        if self.c.opts.get("try").map(|v| v == "match") == Some(true) {
            // R9: what `?` does for a Result
            let whole = br(t);
            let (rs, re) = br(&*t.expr);
            let k = self.fresh();
            self.ed.replace_p(whole.0, whole.1, vec![Piece::Text("(match ".into()), Piece::Src(rs, re),
                Piece::Text(format!(" {{ Ok(vp_v{0}) => vp_v{0}, Err(vp_e{0}) => return Err(core::convert::From::from(vp_e{0})) }})", k))]);
            rw(self.cx, "R9 ? on a Result to match");
            self.visit_expr(&t.expr);
            return;
        }
        syn::visit::visit_expr_try(self, t);
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let n = m.method.to_string();
        self.note_call(format!(".{}", n));
        for a in m.args.iter() {
            if let syn::Expr::Closure(cl) = a { self.closure_of.insert(br(cl), n.clone()); }
        }
        let whole = br(m);
        if n == "map_err" && m.args.len() == 1 {
            let (rs, re) = br(&*m.receiver);
            let k = self.fresh();
            let mut p = vec![Piece::Text("(match ".into()), Piece::Src(rs, re),
                Piece::Text(format!(" {{ Ok(vp_v{0}) => Ok(vp_v{0}), Err(vp_e{0}) => Err(", k))];
            p.extend(self.apply(&m.args[0], &format!("vp_e{}", k)));
            p.push(Piece::Text(") })".into()));
            self.ed.replace_p(whole.0, whole.1, p);
            rw(self.cx, "R9 map_err to match");
            self.visit_expr(&m.receiver);
            match &m.args[0] {
                syn::Expr::Closure(c) => self.visit_expr(&c.body),
                a => self.visit_expr(a),
            }
            return;
        }
        // R20: what `parse` of an integer is
        if n == "parse" && m.args.is_empty() {
            let t = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default();
            if ["u8", "u16", "u32", "u64", "usize"].contains(&t.as_str()) {
                let (rs, re) = br(&*m.receiver);
                self.ed.replace_p(whole.0, whole.1, vec![Piece::Text(format!("{}::from_str_radix(&(", t)), Piece::Src(rs, re), Piece::Text("), 10)".into())]);
                rw(self.cx, "R20 parse of an integer to from_str_radix");
                self.visit_expr(&m.receiver);
                return;
            }
        }
        // R16: Option::map and Option::and_then to a match
        if (n == "map" || n == "and_then") && m.args.len() == 1 && self.c.opts.get("map").map(|x| x.as_str()) == Some("option") {
            let (rs, re) = br(&*m.receiver);
            let k = self.fresh();
            let mut p = vec![Piece::Text("(match ".into()), Piece::Src(rs, re),
                Piece::Text(format!(" {{ Some(vp_v{0}) => {1}(", k, if n == "map" { "Some" } else { "" }))];
            p.extend(self.apply(&m.args[0], &format!("vp_v{}", k)));
            p.push(Piece::Text("), None => None })".into()));
            self.ed.replace_p(whole.0, whole.1, p);
            rw(self.cx, "R16 Option::map/and_then to match");
            self.visit_expr(&m.receiver);
            match &m.args[0] {
                syn::Expr::Closure(c) => self.visit_expr(&c.body),
                a => self.visit_expr(a),
            }
            return;
        }
        // R20: what these functions of Option, bool and Ordering do with a closure
        let cl0 = match m.args.last() {
            Some(syn::Expr::Closure(c)) if crate::inline::stays_inside(&c.body) => Some(c),
            _ => None,
        };
        if let (Some(cl), 1) = (cl0, m.args.len()) {
            let k = self.fresh();
            let arms = match (n.as_str(), cl.inputs.len()) {
                ("then_with", 0) => Some(("core::cmp::Ordering::Equal => {".into(), format!("}}, vp_o{0} => vp_o{0}", k))),
                ("ok_or_else", 0) => Some((format!("Some(vp_v{0}) => Ok(vp_v{0}), None => Err({{", k), "})".to_string())),
                ("unwrap_or_else", 0) => Some((format!("Some(vp_v{0}) => vp_v{0}, None => {{", k), "}".into())),
                ("or_else", 0) => Some((format!("Some(vp_v{0}) => Some(vp_v{0}), None => {{", k), "}".into())),
                ("then", 0) => Some(("false => None, true => Some({".to_string(), "})".into())),
                ("is_some_and", 1) => Some(("None => false, ".to_string(), String::new())),
                ("is_none_or", 1) => Some(("None => true, ".to_string(), String::new())),
                _ => None,
            };
            if let Some((a, b)) = arms {
                let (rs, re) = br(&*m.receiver);
                let mut p = vec![Piece::Text("(match ".into()), Piece::Src(rs, re), Piece::Text(format!(" {{ {}", a))];
                if cl.inputs.is_empty() {
                    let (s, e) = br(&*cl.body);
                    p.push(Piece::Src(s, e));
                } else {
                    p.push(Piece::Text(format!("Some(vp_v{}) => ", k)));
                    p.extend(self.apply(&m.args[0], &format!("vp_v{}", k)));
                }
                p.push(Piece::Text(format!("{} }})", b)));
                self.ed.replace_p(whole.0, whole.1, p);
                rw(self.cx, &format!("R20 .{} to match", n));
                self.visit_expr(&m.receiver);
                self.visit_expr(&cl.body);
                return;
            }
        }
        if (n == "expect" || n == "unwrap") && self.c.opts.contains_key("panic") {
            let (rs, re) = br(&*m.receiver);
            let pn = self.panic();
            self.ed.replace_p(whole.0, whole.1, vec![Piece::Text("(match ".into()), Piece::Src(rs, re),
                Piece::Text(format!(" {{ Some(vp_v) => vp_v, None => {{ {} }} }})", pn))]);
            rw(self.cx, "R3 expect/unwrap to a match with a conditional panic");
            self.visit_expr(&m.receiver);
            return;
        }
        // R12: the callee calls its closure once, with the digest
        if n == "finalize_variable_reset" && m.args.len() == 1 {
            if let syn::Expr::Closure(cl) = &m.args[0] {
                if cl.inputs.len() == 1 {
                    let (rs, re) = br(&*m.receiver);
                    let (ps, pe) = br(&cl.inputs[0]);
                    let (bs, be) = br(&*cl.body);
                    let pre = if matches!(&*m.receiver, syn::Expr::Path(_)) { "" } else { "&mut " };
                    self.ed.replace_p(whole.0, whole.1, vec![
                        Piece::Text(format!("{{ let vp_d = vp_finalize_variable_reset({}", pre)), Piece::Src(rs, re),
                        Piece::Text("); let ".into()), Piece::Src(ps, pe), Piece::Text(": &[u8] = &vp_d; ".into()),
                        Piece::Src(bs, be), Piece::Text(" }".into())]);
                    rw(self.cx, "R12 finalize_variable_reset(|d| e) to let d = finalize_variable_reset(); e");
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&cl.body);
                    return;
                }
            }
        }
        if let Some(w) = self.call_wrapper(&format!(".{}", n)) {
            if let Some(w) = w.strip_prefix('.') {
                let (is, ie) = br(&m.method);
                self.ed.replace(is, ie, w.to_string());
                rw(self.cx, &format!("R4 .{} to .{}", n, w));
                syn::visit::visit_expr_method_call(self, m);
                return;
            }
            let (rs, re) = br(&*m.receiver);
            let w2 = w.trim_start_matches("&mut ").trim_start_matches('&').to_string();
            let pre = if w.starts_with("&mut ") { "&mut " } else if w.starts_with('&') { "&" } else { "" };
            let mut p = vec![Piece::Text(format!("{}({}", w2, pre)), Piece::Src(rs, re)];
            for a in &m.args {
                let (s, e) = br(a);
                p.push(Piece::Text(", ".into()));
                p.push(Piece::Src(s, e));
            }
            p.push(Piece::Text(")".into()));
            self.ed.replace_p(whole.0, whole.1, p);
            rw(self.cx, &format!("R4 .{} to {}", n, w2));
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let full = full.join("::");
            self.note_call(full.clone());
            // io::copy(&mut R.take(N), W)
            if full.ends_with("io::copy") && c.args.len() == 2 {
                if let syn::Expr::Reference(r) = &c.args[0] {
                    if let syn::Expr::MethodCall(t) = &*r.expr {
                        if t.method == "take" && t.args.len() == 1 {
                            let whole = br(c);
                            let (rs, re) = br(&*t.receiver);
                            let (ns, ne) = br(&t.args[0]);
                            let (ws, we) = br(&c.args[1]);
                            self.ed.replace_p(whole.0, whole.1, vec![Piece::Text("vp_copy_take(".into()),
                                Piece::Src(rs, re), Piece::Text(", ".into()), Piece::Src(ns, ne),
                                Piece::Text(", ".into()), Piece::Src(ws, we), Piece::Text(")".into())]);
                            rw(self.cx, "R4 io::copy(&mut r.take(n), w) to vp_copy_take(r, n, w)");
                            self.visit_expr(&t.receiver);
                            self.visit_expr(&t.args[0]);
                            self.visit_expr(&c.args[1]);
                            return;
                        }
                    }
                }
            }
            if let Some(w) = self.call_wrapper(&full) {
                let (s, e) = br(&*c.func);
                self.ed.replace(s, e, w.clone());
                rw(self.cx, &format!("R4 {} to {}", full, w));
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
}

/// "plain": nothing happens in the value of the body; "call": something does
pub fn tail_kind(b: &syn::Block) -> &'static str {
    fn plain(e: &syn::Expr) -> bool {
        match e {
            syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
            syn::Expr::Tuple(t) => t.elems.iter().all(plain),
            syn::Expr::Paren(p) => plain(&p.expr),
            syn::Expr::Field(f) => plain(&f.base),
            syn::Expr::Call(c) => matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident("Ok") || p.path.is_ident("Some")) && c.args.iter().all(plain),
            _ => false,
        }
    }
    match b.stmts.last() {
        Some(syn::Stmt::Expr(e, None)) => if plain(e) { "plain" } else { "call" },
        _ => "none",
    }
}
fn returns_result(sig: &syn::Signature) -> bool {
    matches!(&sig.output, syn::ReturnType::Type(_, t) if matches!(&**t, syn::Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Result").unwrap_or(false)))
}

pub fn body(cx: &mut Ctx, ed: &mut Edits, src: &str, key: &str, sig: &syn::Signature, b: &syn::Block, c: &FnC)
    -> Result<(), String>
{
    let known_tail: Option<String> = cx.known.as_ref().and_then(|k| k.get(key)?.get("tail")?.as_str().map(|s| s.to_string()));
    let known_tail = known_tail.as_deref();
    let mut_self = matches!(sig.receiver(), Some(r) if r.reference.is_none() && r.mutability.is_some());
    let mut v = V {
        mut_self, cx, ed, src, c, loop_no: 0, closure_no: 0, tmp: 0, err: None, stmts: vec![], call_stmts: vec![], lets: vec![], helper_lets: vec![],
        arms: Default::default(), tails: Default::default(),
        loops_at: vec![], loop_stack: vec![], returns: vec![], used_closures: 0,
        closure_of: Default::default(),
    };
    v.visit_block(b);
    if let Some(e) = v.err { return Err(e); }
    if v.loop_no != c.loops.len() {
        return Err(format!("{} loops, {} under contract", v.loop_no, c.loops.len()));
    }
    if v.used_closures != c.closures.len() {
        return Err("closures under contract are missing".into());
    }
    let V { call_stmts, helper_lets, arms, tails, loops_at, returns, ed, .. } = v;
    let place = |ed: &mut Edits, s: (usize, usize), after: bool, t: String| {
        if after && (arms.contains(&s) || tails.contains(&s)) {
            ed.insert(s.0, 101, "{ let vp_c = ".into());
            ed.insert(s.1, 101, format!("; {} vp_c }}", t));
        } else if after {
            ed.insert(s.1, 100, t);
        } else if arms.contains(&s) {
            ed.insert(s.0, 100, format!("{{ {}", t));
            ed.insert(s.1, 102, " }".into());
        } else {
            ed.insert(s.0, 100, t);
        }
    };
    let (bs, be) = br(b);
    if smoke().as_deref() == Some("start") { ed.insert(bs + 1, 100, SMOKE.into()); }
    if smoke().as_deref() == Some("end") {
        match b.stmts.last() {
            Some(s @ syn::Stmt::Expr(_, None)) | Some(s @ syn::Stmt::Expr(syn::Expr::Return(_), _)) => ed.insert(br(s).0, 101, SMOKE.into()),
            _ => ed.insert(be - 1, 101, SMOKE.into()),
        }
    }
    if mut_self { ed.insert(bs + 1, 1, " let mut vp_self = self; ".into()); }
    for (a, t) in &c.at {
        let w: Vec<&str> = a.split_whitespace().collect();
        let t = format!("\n{}\n", t);
        match w.as_slice() {
            ["start"] => ed.insert(bs + 1, 100, t),
            ["end"] => {
                match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if known_tail == Some("plain") && tail_kind(b) == "call" && returns_result(sig) => {
                        let (s0, e0) = br(e);
                        ed.insert(s0, 101, "(match ".into());
                        ed.insert(e0, 101, format!(" {{ Ok(vp_ok) => {{ {} Ok(vp_ok) }} Err(vp_er) => Err(vp_er) }})", t));
                    }
                    Some(s @ syn::Stmt::Expr(_, None)) | Some(s @ syn::Stmt::Expr(syn::Expr::Return(_), _)) => ed.insert(br(s).0, 101, t),
                    _ => ed.insert(be - 1, 101, t),
                }
            }
            ["tail"] => {
                match b.stmts.last() {
                    Some(s @ syn::Stmt::Expr(_, None)) => {
                        let (s0, e0) = br(s);
                        ed.insert(s0, 102, "let vp_r = ".into());
                        ed.insert(e0, 102, format!("; {} vp_r", t));
                    }
                    Some(s @ syn::Stmt::Macro(m)) if m.semi_token.is_none() => {
                        let (s0, e0) = br(s);
                        ed.insert(s0, 102, "let vp_r = ".into());
                        ed.insert(e0, 102, format!("; {} vp_r", t));
                    }
                    _ => return Err("no tail expression".into()),
                }
            }
            ["loop", _, "head"] | ["loop", _, "tail"] | ["loop", _, "enter"] | ["loop", _, "exit"] | ["loop", _, "next"] => {}
            ["loop", k, "before"] | ["loop", k, "after"] => {
                let k: usize = k.parse().map_err(|_| "anchor")?;
                let l = loops_at.get(k).ok_or("lost loop anchor")?;
                let _ = l.body;
                place(ed, l.stmt, w[2] == "after", t)
            }
            ["return", k] => {
                let k: usize = k.parse().map_err(|_| "anchor")?;
                let r = returns.get(k).ok_or("lost return anchor")?;
                place(ed, *r, false, t);
            }
            ["call", n, w] => {
                let (n, k) = n.split_once('#').unwrap_or((n, "0"));
                let k: usize = k.parse().map_err(|_| "anchor")?;
                let ns: Vec<&str> = n.split('|').collect();
                let s = call_stmts.iter().filter(|x| ns.contains(&x.0.as_str())).nth(k).ok_or(format!("lost anchor: call {}#{}", n, k))?;
                // inside a substituted helper, but about the variable that holds its result
                let words: Vec<&str> = t.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
                let s = match helper_lets.iter().filter(|h| h.0 == s.1 && *w == "after" && !h.2.is_empty() && words.contains(&h.2.as_str())).last() {
                    Some(h) => (s.0.clone(), h.1),
                    None => s.clone(),
                };
                match *w { "before" | "after" => place(ed, s.1, *w == "after", t), _ => return Err("anchor".into()) }
            }
            _ => return Err(format!("unknown anchor {}", a)),
        }
    }
    Ok(())
}

/// quick_error! { pub enum Name [wraps Wrapper] { Variant(x: T, ..) { .. } .. } }
pub fn quick_error(m: &syn::Macro) -> Result<String, String> {
    use proc_macro2::{Delimiter, TokenTree};
    let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    let mut i = 0;
    let mut name = None;
    while i < toks.len() {
        if let TokenTree::Ident(id) = &toks[i] {
            if id == "enum" {
                if let Some(TokenTree::Ident(n)) = toks.get(i + 1) { name = Some(n.to_string()); i += 2; break; }
            }
        }
        i += 1;
    }
    let outer = name.ok_or("no enum")?;
    let mut inner = outer.clone();
    let mut wraps = false;
    if let Some(TokenTree::Ident(id)) = toks.get(i) {
        if id == "wraps" {
            if let Some(TokenTree::Ident(n)) = toks.get(i + 1) { inner = n.to_string(); wraps = true; i += 2; }
        }
    }
    let body = match toks.get(i) {
        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace => g.stream(),
        _ => return Err("no body".into()),
    };
    let t: Vec<TokenTree> = body.into_iter().collect();
    let mut out = format!("pub enum {} {{\n", inner);
    let mut impls = String::new();
    let mut j = 0;
    while j < t.len() {
        match &t[j] {
            TokenTree::Punct(p) if p.as_char() == '#' => { j += 2; continue; }
            TokenTree::Punct(_) => { j += 1; continue; }
            TokenTree::Ident(v) => {
                let vname = v.to_string();
                j += 1;
                let mut fields: Vec<(String, String)> = vec![];
                if let Some(TokenTree::Group(g)) = t.get(j) {
                    if g.delimiter() == Delimiter::Parenthesis {
                        let parser = Punctuated::<syn::FnArg, syn::Token![,]>::parse_terminated;
                        let args = parser.parse2(g.stream()).map_err(|e| e.to_string())?;
                        for a in args {
                            if let syn::FnArg::Typed(pt) = a {
                                let n = quote::quote!(#pt).to_string();
                                let (n, ty) = n.split_once(':').ok_or("field")?;
                                // keep paths such as std :: num :: X together
                                fields.push((n.trim().to_string(), ty.replace(" :: ", "::").trim().to_string()));
                            }
                        }
                        j += 1;
                    }
                }
                if fields.is_empty() { out.push_str(&format!("{},\n", vname)); }
                else { out.push_str(&format!("{}({}),\n", vname, fields.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join(", "))); }
                if let Some(TokenTree::Group(g)) = t.get(j) {
                    if g.delimiter() == Delimiter::Brace {
                        let bt: Vec<TokenTree> = g.stream().into_iter().collect();
                        for (x, tk) in bt.iter().enumerate() {
                            if let TokenTree::Ident(id) = tk {
                                if id == "from" {
                                    if let Some(TokenTree::Group(a)) = bt.get(x + 1) {
                                        if !a.stream().is_empty() { return Err("from with arguments".into()); }
                                        let ty = &fields[0].1;
                                        impls.push_str(&from_impl(ty, &inner, &format!("{}::{}(e)", inner, vname)));
                                        if wraps {
                                            impls.push_str(&from_impl(ty, &outer, &format!("{}({}::{}(e))", outer, inner, vname)));
                                        }
                                    }
                                }
                                if id == "context" {
                                    // context(a: A, e: E) -> (x, y)
                                    let args = match bt.get(x + 1) { Some(TokenTree::Group(a)) => a.stream(), _ => return Err("context".into()) };
                                    let parser = Punctuated::<syn::FnArg, syn::Token![,]>::parse_terminated;
                                    let args = parser.parse2(args).map_err(|e| e.to_string())?;
                                    let mut ps = vec![];
                                    for a in args {
                                        if let syn::FnArg::Typed(pt) = a {
                                            let n = quote::quote!(#pt).to_string();
                                            let (n, ty) = n.split_once(':').ok_or("context argument")?;
                                            ps.push((n.trim().to_string(), ty.replace(" :: ", "::").trim().to_string()));
                                        }
                                    }
                                    if ps.len() != 2 { return Err("context with other than two arguments".into()); }
                                    let mut y = x + 2;
                                    while y < bt.len() && matches!(&bt[y], TokenTree::Punct(_)) { y += 1; }
                                    let vals = match bt.get(y) { Some(TokenTree::Group(a)) => a.stream().to_string(), _ => return Err("context result".into()) };
                                    let ty = format!("crate::vp::VpCtx<{}, {}>", ps[0].1, ps[1].1);
                                    let bind = |x: &str| format!("{{ let {} = e.0; let {} = e.1; {} }}", ps[0].0, ps[1].0, x);
                                    impls.push_str(&from_impl(&ty, &inner, &bind(&format!("{}::{}({})", inner, vname, vals))));
                                    if wraps { impls.push_str(&from_impl(&ty, &outer, &bind(&format!("{}({}::{}({}))", outer, inner, vname, vals)))); }
                                }
                            }
                        }
                        j += 1;
                    }
                }
            }
            _ => { j += 1; }
        }
    }
    out.push_str("}\n");
    if wraps {
        out.push_str(&format!("pub struct {}(pub {});\n", outer, inner));
        impls.push_str(&from_impl(&inner, &outer, &format!("{}(e)", outer)));
    }
    Ok(out + &impls)
}

fn from_impl(ty: &str, to: &str, expr: &str) -> String {
    format!("impl vstd::std_specs::convert::FromSpecImpl<{ty}> for {to} {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(e: {ty}) -> {to} {{ {x} }} }}\n\
        impl From<{ty}> for {to} {{ fn from(e: {ty}) -> (r: {to}) {{ {x} }} }}\n", ty = ty, to = to, x = expr)
}

/// R10: types of a library replaced by a type of the same representation
pub struct TypesAs<'a> {
    pub map: &'a std::collections::HashMap<String, String>,
    pub edits: Vec<(usize, usize, String)>,
}
impl<'a, 'ast> Visit<'ast> for TypesAs<'a> {
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if t.qself.is_none() {
            if let Some(r) = self.map.get(&t.path.segments.last().unwrap().ident.to_string()) {
                let (s, e) = br(t);
                self.edits.push((s, e, r.clone()));
                return;
            }
        }
        syn::visit::visit_type_path(self, t);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 2 {
            let f = &p.path.segments[0];
            if let Some(r) = self.map.get(&f.ident.to_string()) {
                let (s, e) = br(f);
                self.edits.push((s, e, format!("<{}>", r)));
                return;
            }
        }
        syn::visit::visit_expr_path(self, p);
    }
    fn visit_item_mod(&mut self, _: &'ast syn::ItemMod) {}
}

/// `Self::Item` of a trait in a method that leaves the trait impl (R11)
pub struct SelfAssoc { pub tr: String, pub edits: Vec<(usize, usize, String)> }
impl<'ast> Visit<'ast> for SelfAssoc {
    fn visit_type_path(&mut self, t: &'ast syn::TypePath) {
        if t.qself.is_none() && t.path.segments.len() == 2 && t.path.segments[0].ident == "Self" {
            let (s, e) = br(&t.path.segments[0]);
            self.edits.push((s, e, format!("<Self as {}>", self.tr)));
            return;
        }
        syn::visit::visit_type_path(self, t);
    }
}

/// vacuity test (tools/smoke.py): an assertion that has to fail in every function under contract
fn smoke() -> Option<String> { std::env::var("VPX_SMOKE").ok() }
const SMOKE: &str = "\nassert(1int == 2int);\n";
