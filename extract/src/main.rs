//! vpx: mechanical extraction of the functions under contract.
//!
//!   vpx --src /repo/src --contracts DIR --out DIR [--degrade KEY=LEVEL]... [--feature F]...
//!
//! Reads every module of the crate, splices the contracts of `*.vc` into the
//! unchanged source text (insertions and the rewrites listed in DESIGN.md, all
//! done on byte ranges of the original file), and writes a crate for Verus plus
//! `extract.json`, which says what happened to each item.
mod contracts;
mod inline;
mod rename;
mod render;
mod rewrite;

use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};

use contracts::{Contracts, FnC};
use render::Edits;
use serde_json::json;
use syn::spanned::Spanned;

pub struct Ctx<'a> {
    pub contracts: &'a Contracts,
    pub features: HashSet<String>,
    pub degrade: HashMap<String, u8>,
    pub bool_fns: HashSet<String>,
    pub fns: Vec<FnOut>,
    pub dropped: Vec<serde_json::Value>,
    pub rewrites: BTreeMap<String, usize>,
    pub used: HashSet<String>,
    pub known: Option<HashMap<String, serde_json::Value>>,
    pub inlined: HashMap<String, Vec<String>>,
}

pub struct FnOut {
    pub key: String,
    pub module: String,
    pub src_file: String,
    pub src: (usize, usize),
    pub range: (usize, usize),
    pub status: &'static str,
    pub reason: String,
    pub text_hash: String,
    pub loops: usize,
    pub calls: Vec<String>,
    pub binds: Vec<String>,
    pub tail: &'static str,
    pub renamed: Vec<String>,
    pub out_lines: (usize, usize),
}

pub fn hash(s: &str) -> String {
    // FNV-1a over the token text without white space
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes().filter(|b| !b.is_ascii_whitespace()) {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:016x}", h)
}

pub fn br<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn cfg_keep(attrs: &[syn::Attribute], feats: &HashSet<String>) -> Result<bool, String> {
    for a in attrs {
        if a.path().is_ident("test") {
            return Ok(false);
        }
        if a.path().is_ident("cfg") {
            let m: syn::Meta = a.parse_args().map_err(|e| e.to_string())?;
            if !cfg_eval(&m, feats)? {
                return Ok(false);
            }
        }
    }
    Ok(true)
}

fn cfg_eval(m: &syn::Meta, feats: &HashSet<String>) -> Result<bool, String> {
    match m {
        syn::Meta::Path(p) if p.is_ident("test") => Ok(false),
        syn::Meta::Path(p) if p.is_ident("unix") => Ok(true),
        syn::Meta::Path(p) if p.is_ident("debug_assertions") => Ok(true),
        syn::Meta::NameValue(nv) if nv.path.is_ident("feature") => {
            if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                return Ok(feats.contains(&s.value()));
            }
            Err("cfg".into())
        }
        syn::Meta::List(l) => {
            let parser = syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated;
            let subs = l.parse_args_with(parser).map_err(|e| e.to_string())?;
            let mut vals = Vec::new();
            for s in subs.iter() {
                vals.push(cfg_eval(s, feats)?);
            }
            if l.path.is_ident("not") {
                return Ok(!vals[0]);
            }
            if l.path.is_ident("all") {
                return Ok(vals.iter().all(|x| *x));
            }
            if l.path.is_ident("any") {
                return Ok(vals.iter().any(|x| *x));
            }
            Err("cfg".into())
        }
        _ => Err("unsupported cfg".into()),
    }
}

/// Last identifier of a type: `HashWriter<F, H>` -> HashWriter
fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "_".into(),
    }
}

fn impl_key(im: &syn::ItemImpl) -> String {
    let ty = type_name(&im.self_ty);
    match &im.trait_ {
        Some((_, p, _)) => {
            let seg = p.segments.last().unwrap();
            let mut tn = seg.ident.to_string();
            if tn == "From" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        tn = format!("From<{}>", type_name(t));
                    }
                }
            }
            format!("<{} as {}>", ty, tn)
        }
        None => ty,
    }
}

fn strip_attrs(ed: &mut Edits, attrs: &[syn::Attribute], derive: Option<&str>, src: &str) {
    let mut had = false;
    for a in attrs {
        let (s, e) = br(a);
        if a.path().is_ident("derive") {
            let mut keep = Vec::new();
            let _ = a.parse_nested_meta(|m| {
                if let Some(i) = m.path.get_ident() {
                    let i = i.to_string();
                    if ["Clone", "Copy", "PartialEq", "Eq"].contains(&i.as_str()) {
                        keep.push(i);
                    }
                }
                Ok(())
            });
            had = true;
            let txt = match derive {
                Some(d) if d.trim().is_empty() => String::new(),
                Some(d) => format!("#[derive({})]", d),
                None if keep.is_empty() => String::new(),
                None => format!("#[derive({})]", keep.join(", ")),
            };
            ed.replace(s, e, txt);
        } else {
            // keep line structure
            let nl = src[s..e].matches('\n').count();
            ed.replace(s, e, "\n".repeat(nl));
        }
    }
    let _ = had;
}

fn make_pub(ed: &mut Edits, vis: &syn::Visibility, at: usize) {
    match vis {
        syn::Visibility::Public(_) => {}
        syn::Visibility::Restricted(r) => {
            let (s, e) = br(r);
            ed.replace(s, e, "pub".into());
        }
        syn::Visibility::Inherited => ed.insert(at, 50, "pub ".into()),
    }
}

struct ModOut {
    text: String,
    subs: Vec<(String, PathBuf)>,
}

struct FnEnv<'x> {
    module: &'x str,
    file: &'x str,
    src: &'x str,
}

/// Process one function (free, inherent, trait impl, trait decl).
#[allow(clippy::too_many_arguments)]
fn do_fn(
    cx: &mut Ctx, ed: &mut Edits, env: &FnEnv, key: &str, whole: (usize, usize),
    attrs: &[syn::Attribute], vis: Option<(&syn::Visibility, usize)>, sig: &syn::Signature,
    block: Option<&syn::Block>, semi: Option<usize>, in_external_impl: bool,
) {
    strip_attrs(ed, attrs, None, env.src);
    let line = |p: usize| env.src[..p].matches('\n').count() + 1;
    let start = attrs.last().map(|a| br(a).1).unwrap_or(whole.0);
    let mut out = FnOut {
        key: key.to_string(), module: env.module.to_string(), src_file: env.file.to_string(),
        src: (line(whole.0), line(whole.1)), range: whole, status: "external", reason: String::new(),
        text_hash: hash(&env.src[br(sig).0..whole.1]), loops: 0, calls: vec![], binds: vec![], tail: "none", renamed: vec![], out_lines: (0, 0),
    };
    let mut iters = vec![];
    if let Some(b) = block {
        let mut cc = rewrite::Calls::default();
        for i in &sig.inputs { syn::visit::visit_fn_arg(&mut cc, i); }
        syn::visit::visit_block(&mut cc, b);
        out.calls = cc.names;
        out.loops = cc.loops;
        out.binds = cc.binds;
        iters = cc.iters;
        out.tail = rewrite::tail_kind(b);
    }
    let level = cx.degrade.get(key).copied().unwrap_or(0);
    let mut c: Option<FnC> = cx.contracts.fns.get(key).cloned();
    if let (Some(c), Some(k)) = (&mut c, cx.known.as_ref().and_then(|k| k.get(key))) {
        let old: Vec<String> = k["binds"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
        let mut map = rename::renames(&old, &out.binds);
        for (n, v) in &iters {
            let it = format!("vp_it{}", n);
            // a `for` became a `while let` over the same iterator
            if c.loops.get(n).map(|t| t.contains(&it)).unwrap_or(false) { map.insert(it, v.clone()); }
        }
        // a variable of the changed code has the name of a ghost variable
        for g in rename::ghosts(c) {
            if out.binds.contains(&g) && !old.contains(&g) { map.insert(g.clone(), format!("vp_g_{}", g)); }
        }
        if !map.is_empty() {
            out.renamed = map.iter().map(|(a, b)| format!("{} to {}", a, b)).collect();
            rename::apply(c, &map);
        }
    }
    if c.is_some() {
        cx.used.insert(key.to_string());
    }
    if in_external_impl {
        out.reason = "impl is external".into();
        if let Some(b) = block {
            let (s, e) = br(b);
            ed.replace(s, e, "{ unimplemented!() }".into());
        }
        cx.fns.push(out);
        return;
    }
    if block.is_none() && c.is_none() {
        // a trait method without a contract
        out.status = "declared";
        out.reason = "no contract".into();
        cx.fns.push(out);
        return;
    }
    if let Some((v, at)) = vis {
        make_pub(ed, v, at);
    }
    let c = match (c, level) {
        (None, _) | (_, 2..) => {
            out.reason = if level >= 2 { "degraded: contract does not fit".into() } else { "no contract".into() };
            out.status = "external";
            // `start` is after attributes
            // a member of a trait cannot be external alone
            ed.insert(start, 10, if vis.is_none() { " #[verifier::external_body] ".into() } else { " #[verifier::external] ".to_string() });
            if let Some(b) = block {
                let (s, e) = br(b);
                ed.replace(s, e, "{ unimplemented!() }".into());
            }
            cx.fns.push(out);
            return;
        }
        (Some(c), _) => c,
    };
    let mut attr_text = String::new();
    for a in &c.attrs {
        attr_text.push_str(a);
        attr_text.push(' ');
    }
    // signature
    if let Some(r) = &c.ret {
        match &sig.output {
            syn::ReturnType::Type(_, ty) => {
                let (s, e) = br(&**ty);
                ed.insert(s, 10, format!("({}: ", r));
                ed.insert(e, 10, ")".into());
            }
            syn::ReturnType::Default => {}
        }
    }
    if let (Some(r), Some(_)) = (sig.receiver(), block) {
        if let (None, Some(m)) = (&r.reference, &r.mutability) {
            // R14: `mut self` is a variable that holds `self`
            let (s, _) = br(m);
            let (e, _) = br(&r.self_token);
            ed.replace(s, e, String::new());
            *cx.rewrites.entry("R14 mut self to a variable".into()).or_default() += 1;
        }
    }
    let spec_at = block.map(|b| br(b).0).or(semi).unwrap();
    ed.insert(spec_at, 20, format!("\n{}\n", c.spec));
    let mut trusted = c.external_body || level == 1;
    let mut reason = if c.external_body { "contract assumed (trusted)".to_string() }
        else if level == 1 { "degraded".to_string() } else { String::new() };
    if let Some(b) = block {
        if !trusted {
            // build body edits in a scratch edit list so they can be dropped on a lost anchor
            let mut be = Edits::new();
            match rewrite::body(cx, &mut be, env.src, key, sig, b, &c) {
                Ok(()) => ed.absorb(be),
                Err(e) => {
                    trusted = true;
                    reason = format!("degraded: {}", e);
                }
            }
        }
        if trusted {
            attr_text.push_str("#[verifier::external_body] ");
            out.status = if c.external_body { "trusted" } else { "degraded" };
            let (s, e) = br(b);
            ed.replace(s, e, "{ unimplemented!() }".into());
        } else {
            out.status = "verified";
        }
    } else {
        out.status = "declared";
    }
    out.reason = reason;
    if !attr_text.is_empty() {
        ed.insert(start, 10, format!(" {} ", attr_text));
    }
    cx.fns.push(out);
}

fn do_module(cx: &mut Ctx, src_root: &Path, file: &Path, module: &str) -> Result<ModOut, String> {
    let src = std::fs::read_to_string(file).map_err(|e| format!("{}: {}", file.display(), e))?;
    let rel = file.strip_prefix(src_root).unwrap_or(file).display().to_string();
    let src = match &cx.known {
        None => src,
        Some(known) => {
            let (c, d) = (cx.contracts, &cx.degrade);
            let (src, notes) = inline::run(src, module, type_name, impl_key,
                &|k| !known.contains_key(k) && !c.fns.contains_key(k),
                &|k| c.fns.contains_key(k) && !d.contains_key(k));
            for v in notes.values() {
                *cx.rewrites.entry("R19 helper without contract substituted".into()).or_default() += v.len();
            }
            cx.inlined.extend(notes);
            src
        }
    };
    let ast = syn::parse_file(&src).map_err(|e| format!("{}: {}", rel, e))?;
    let mut ed = Edits::new();
    let mut subs = Vec::new();
    let mc = cx.contracts.modules.get(module).cloned().unwrap_or_default();
    strip_attrs(&mut ed, &ast.attrs, None, &src);
    let env = FnEnv { module, file: &rel, src: &src };
    {
        let mut ta = rewrite::TypesAs { map: &cx.contracts.types_as, edits: vec![] };
        syn::visit::visit_file(&mut ta, &ast);
        for (s, e, t) in ta.edits {
            *cx.rewrites.entry(format!("R10 library type to {}", t)).or_default() += 1;
            ed.replace(s, e, t);
        }
    }
    let line = |p: usize| src[..p].matches('\n').count() + 1;
    for item in &ast.items {
        let (s, e) = br(item);
        let kill = |ed: &mut Edits| {
            let nl = src[s..e].matches('\n').count();
            ed.replace(s, e, "\n".repeat(nl));
        };
        let attrs: &[syn::Attribute] = match item {
            syn::Item::Fn(i) => &i.attrs,
            syn::Item::Mod(i) => &i.attrs,
            syn::Item::Struct(i) => &i.attrs,
            syn::Item::Enum(i) => &i.attrs,
            syn::Item::Impl(i) => &i.attrs,
            syn::Item::Trait(i) => &i.attrs,
            syn::Item::Use(i) => &i.attrs,
            syn::Item::Const(i) => &i.attrs,
            syn::Item::Static(i) => &i.attrs,
            syn::Item::Type(i) => &i.attrs,
            syn::Item::Macro(i) => &i.attrs,
            syn::Item::ExternCrate(i) => &i.attrs,
            _ => &[],
        };
        if !cfg_keep(attrs, &cx.features).unwrap_or(false) {
            kill(&mut ed);
            continue;
        }
        let q = |n: &str| if module.is_empty() { n.to_string() } else { format!("{}::{}", module, n) };
        match item {
            syn::Item::ExternCrate(_) => kill(&mut ed),
            syn::Item::Use(u) => {
                let t = &src[s..e];
                if t.contains("quick_error") {
                    kill(&mut ed);
                } else {
                    strip_attrs(&mut ed, &u.attrs, None, &src);
                }
            }
            syn::Item::Mod(m) => {
                if m.content.is_some() {
                    // inline modules are not extracted
                    cx.dropped.push(json!({"item": q(&m.ident.to_string()), "why": "inline module"}));
                    kill(&mut ed);
                } else {
                    let n = m.ident.to_string();
                    let dir = file.parent().unwrap();
                    let stem = file.file_stem().unwrap().to_str().unwrap();
                    let base = if stem == "lib" || stem == "mod" { dir.to_path_buf() } else { dir.join(stem) };
                    let p1 = base.join(format!("{}.rs", n));
                    let p2 = base.join(&n).join("mod.rs");
                    subs.push((q(&n), if p1.exists() { p1 } else { p2 }));
                    strip_attrs(&mut ed, &m.attrs, None, &src);
                    make_pub(&mut ed, &m.vis, br(&m.mod_token).0);
                }
            }
            syn::Item::Const(c) => {
                strip_attrs(&mut ed, &c.attrs, None, &src);
                make_pub(&mut ed, &c.vis, br(&c.const_token).0);
            }
            syn::Item::Static(c) => {
                if let Some(rep) = cx.contracts.items.get(&q(&c.ident.to_string())).cloned() {
                    let full = br(&c.expr);
                    let mut expr_txt = src[full.0..full.1].to_string();
                    if let syn::Expr::Lit(l) = &*c.expr {
                        if let syn::Lit::ByteStr(b) = &l.lit {
                            // R3: byte string literal as an array
                            expr_txt = format!("&[{}]", b.value().iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "));
                        }
                    }
                    ed.replace(s, e, rep.replace("$EXPR", &expr_txt));
                } else {
                    strip_attrs(&mut ed, &c.attrs, None, &src);
                    make_pub(&mut ed, &c.vis, br(&c.static_token).0);
                    let at0 = c.attrs.last().map(|a| br(a).1).unwrap_or(s);
                    ed.insert(at0, 5, " #[verifier::external] ".into());
                }
            }
            syn::Item::Struct(st) => {
                let key = q(&st.ident.to_string());
                let tc = cx.contracts.types.get(&key).cloned().unwrap_or_default();
                strip_attrs(&mut ed, &st.attrs, tc.derive.as_deref(), &src);
                let at = br(&st.struct_token).0;
                make_pub(&mut ed, &st.vis, at);
                if !tc.attrs.is_empty() {
                    let at0 = st.attrs.last().map(|a| br(a).1).unwrap_or(s);
                    ed.insert(at0, 10, format!(" {} ", tc.attrs.join(" ")));
                }
                for f in st.fields.iter() {
                    strip_attrs(&mut ed, &f.attrs, None, &src);
                    let at = f.ident.as_ref().map(|i| br(i).0).unwrap_or(br(&f.ty).0);
                    if !tc.private { make_pub(&mut ed, &f.vis, at); }
                }
            }
            syn::Item::Enum(en) => {
                let key = q(&en.ident.to_string());
                let tc = cx.contracts.types.get(&key).cloned().unwrap_or_default();
                strip_attrs(&mut ed, &en.attrs, tc.derive.as_deref(), &src);
                make_pub(&mut ed, &en.vis, br(&en.enum_token).0);
                if !tc.attrs.is_empty() {
                    let at0 = en.attrs.last().map(|a| br(a).1).unwrap_or(s);
                    ed.insert(at0, 10, format!(" {} ", tc.attrs.join(" ")));
                }
                for v in en.variants.iter() {
                    strip_attrs(&mut ed, &v.attrs, None, &src);
                    for f in v.fields.iter() {
                        strip_attrs(&mut ed, &f.attrs, None, &src);
                    }
                }
            }
            syn::Item::Type(t) => {
                strip_attrs(&mut ed, &t.attrs, None, &src);
                make_pub(&mut ed, &t.vis, br(&t.type_token).0);
            }
            syn::Item::Fn(f) => {
                let key = q(&f.sig.ident.to_string());
                let at = br(&f.sig).0;
                do_fn(cx, &mut ed, &env, &key, (s, e), &f.attrs, Some((&f.vis, at)), &f.sig,
                    Some(&f.block), None, false);
            }
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                let key = q(&name);
                strip_attrs(&mut ed, &t.attrs, None, &src);
                make_pub(&mut ed, &t.vis, br(&t.trait_token).0);
                let tc = cx.contracts.types.get(&key).cloned().unwrap_or_default();
                if let Some(items) = &tc.items {
                    let b = t.brace_token.span.open().byte_range().end;
                    ed.insert(b, 10, format!("\n{}\n", items));
                }
                if !tc.attrs.is_empty() {
                    let at0 = t.attrs.last().map(|a| br(a).1).unwrap_or(s);
                    ed.insert(at0, 10, format!(" {} ", tc.attrs.join(" ")));
                }
                let any = t.items.iter().any(|it| match it {
                    syn::TraitItem::Fn(f) => cx.contracts.fns.contains_key(&format!("{}::{}", key, f.sig.ident)),
                    _ => false,
                });
                let ext = tc.external || (!any && tc.items.is_none());
                if ext {
                    let at0 = t.attrs.last().map(|a| br(a).1).unwrap_or(s);
                    ed.insert(at0, 9, " #[verifier::external] ".into());
                }
                for it in &t.items {
                    match it {
                        syn::TraitItem::Fn(f) => {
                            let key = format!("{}::{}", key, f.sig.ident);
                            let whole = br(f);
                            let semi = f.semi_token.as_ref().map(|x| br(x).0);
                            do_fn(cx, &mut ed, &env, &key, whole, &f.attrs, None, &f.sig,
                                f.default.as_ref(), semi, ext);
                        }
                        syn::TraitItem::Type(t) => strip_attrs(&mut ed, &t.attrs, None, &src),
                        _ => {}
                    }
                }
            }
            syn::Item::Impl(im) => {
                let key = q(&impl_key(im));
                strip_attrs(&mut ed, &im.attrs, None, &src);
                let tc = cx.contracts.types.get(&format!("impl {}", key)).cloned().unwrap_or_default();
                let is_trait = im.trait_.is_some();
                let any = im.items.iter().any(|it| match it {
                    syn::ImplItem::Fn(f) => cx.contracts.fns.contains_key(&format!("{}::{}", key, f.sig.ident)),
                    _ => false,
                });
                if tc.drop {
                    cx.dropped.push(json!({"item": format!("impl {}", key), "why": "dropped by contract file"}));
                    kill(&mut ed);
                    continue;
                }
                let external = (is_trait && !any && tc.items.is_none()) || tc.external;
                if external {
                    ed.insert(br(&im.impl_token).0, 5, " #[verifier::external] ".into());
                }
                if let Some(items) = &tc.items {
                    let b = im.brace_token.span.open().byte_range().end;
                    ed.insert(b, 10, format!("\n{}\n", items));
                }
                for a in &tc.attrs {
                    ed.insert(br(&im.impl_token).0, 4, format!(" {} ", a));
                }
                for it in &im.items {
                    match it {
                        syn::ImplItem::Fn(f) => {
                            let fkey = format!("{}::{}", key, f.sig.ident);
                            if !cfg_keep(&f.attrs, &cx.features).unwrap_or(false) {
                                let (s, e) = br(f);
                                let nl = src[s..e].matches('\n').count();
                                ed.replace(s, e, "\n".repeat(nl));
                                continue;
                            }
                            let at = f.defaultness.as_ref().map(|d| br(d).0).unwrap_or(br(&f.sig).0);
                            let split = cx.contracts.fns.get(&fkey).and_then(|c| c.opts.get("inherent").cloned());
                            if let (Some(_), false, Some((_, tr, _))) = (&split, external, &im.trait_) {
                                // R11: the only method of a trait impl is verified as an inherent method
                                if im.items.iter().filter(|i| matches!(i, syn::ImplItem::Fn(_))).count() != 1
                                    || !matches!(im.items.last(), Some(syn::ImplItem::Fn(_))) {
                                    return Err(format!("{}: the impl has other methods", fkey));
                                }
                                let (fs, _) = br(f);
                                let txt = |r: (usize, usize)| src[r.0..r.1].to_string();
                                let gen = if im.generics.params.is_empty() { String::new() } else { txt(br(&im.generics)) };
                                let wh = im.generics.where_clause.as_ref().map(|w| txt(br(w))).unwrap_or_default();
                                let args: Vec<String> = f.sig.inputs.iter().filter_map(|a| match a {
                                    syn::FnArg::Typed(t) => Some(txt(br(&*t.pat))), _ => None }).collect();
                                ed.insert(fs, 1, format!("#[verifier::external_body] {} {{ {}vp_{}({}) }} }} impl{} {} {} {{ ",
                                    txt(br(&f.sig)), if f.sig.receiver().is_some() { "self." } else { "Self::" }, f.sig.ident, args.join(", "), gen, txt(br(&*im.self_ty)), wh));
                                let (is, ie) = br(&f.sig.ident);
                                ed.replace(is, ie, format!("vp_{}", f.sig.ident));
                                if let syn::ReturnType::Type(_, ty) = &f.sig.output {
                                    let mut sa = rewrite::SelfAssoc { tr: txt(br(tr)), edits: vec![] };
                                    syn::visit::visit_type(&mut sa, ty);
                                    for (s, e, t) in sa.edits { ed.replace(s, e, t); }
                                }
                                *cx.rewrites.entry("R11 trait method verified as an inherent method".into()).or_default() += 1;
                                let vis = syn::Visibility::Inherited;
                                do_fn(cx, &mut ed, &env, &fkey, br(f), &f.attrs, Some((&vis, at)), &f.sig, Some(&f.block), None, false);
                                continue;
                            }
                            do_fn(cx, &mut ed, &env, &fkey, br(f), &f.attrs,
                                if is_trait { None } else { Some((&f.vis, at)) }, &f.sig, Some(&f.block), None, external);
                        }
                        syn::ImplItem::Type(t) => strip_attrs(&mut ed, &t.attrs, None, &src),
                        _ => {}
                    }
                }
            }
            syn::Item::Macro(m) => {
                if m.mac.path.is_ident("quick_error") {
                    match rewrite::quick_error(&m.mac) {
                        Ok(t) => {
                            *cx.rewrites.entry("R6 quick_error! to enum".into()).or_default() += 1;
                            // keep the number of lines
                            let nl = src[s..e].matches('\n').count();
                            let mut t = t.replace('\n', " ");
                            t.push_str(&"\n".repeat(nl));
                            ed.replace(s, e, t);
                        }
                        Err(err) => return Err(format!("{}: quick_error: {}", rel, err)),
                    }
                } else {
                    cx.dropped.push(json!({"item": format!("{}: macro at line {}", rel, line(s)), "why": "unknown macro"}));
                    kill(&mut ed);
                }
            }
            _ => {
                cx.dropped.push(json!({"item": format!("{}: item at line {}", rel, line(s)), "why": "unsupported item"}));
                kill(&mut ed);
            }
        }
    }
    let (body, map) = ed.render_all(&src);
    // header and function positions
    let mut head = String::new();
    if module.is_empty() {
        head.push_str(&cx.contracts.crate_head);
    }
    head.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n");
    head.push_str(&mc.uses);
    head.push_str("\nverus! {\n");
    let mut text = head.clone();
    let off = text.len();
    text.push_str(&body);
    text.push_str("\n// ---- ghost items from the contract file ----\n");
    text.push_str(&mc.ghost);
    text.push_str("\n} // verus!\n");
    for f in cx.fns.iter_mut().filter(|f| f.module == module) {
        let a = map(f.range.0) + off;
        let b = map(f.range.1) + off;
        f.out_lines = (text[..a].matches('\n').count() + 1, text[..b].matches('\n').count() + 1);
    }
    Ok(ModOut { text, subs })
}

fn collect_bool_fns(dir: &Path, set: &mut HashSet<String>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                collect_bool_fns(&p, set);
            } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                if let Ok(ast) = std::fs::read_to_string(&p).map_err(|_| ()).and_then(|s| syn::parse_file(&s).map_err(|_| ())) {
                    for it in ast.items {
                        if let syn::Item::Fn(f) = it {
                            if let syn::ReturnType::Type(_, t) = &f.sig.output {
                                if type_name(t) == "bool" {
                                    set.insert(f.sig.ident.to_string());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

fn run() -> Result<(), String> {
    let mut args = std::env::args().skip(1);
    let (mut src, mut con, mut out) = (PathBuf::new(), PathBuf::new(), PathBuf::new());
    let mut degrade = HashMap::new();
    let mut known = None;
    let mut features = HashSet::new();
    while let Some(a) = args.next() {
        let mut v = || args.next().ok_or("missing argument".to_string());
        match a.as_str() {
            "--src" => src = v()?.into(),
            "--contracts" => con = v()?.into(),
            "--out" => out = v()?.into(),
            "--known" => {
                // the functions of the baseline: other helpers may be substituted (R19)
                let t = std::fs::read_to_string(v()?).map_err(|e| e.to_string())?;
                let j: serde_json::Value = serde_json::from_str(&t).map_err(|e| e.to_string())?;
                known = j.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<HashMap<_, _>>());
            }
            "--feature" => { features.insert(v()?); }
            "--degrade" => {
                let x = v()?;
                let (k, l) = x.rsplit_once('=').ok_or("--degrade KEY=LEVEL")?;
                degrade.insert(k.to_string(), l.parse::<u8>().map_err(|e| e.to_string())?);
            }
            _ => return Err(format!("unknown argument {}", a)),
        }
    }
    let contracts = contracts::load(&con)?;
    let mut bool_fns = HashSet::new();
    collect_bool_fns(&src, &mut bool_fns);
    let mut cx = Ctx {
        contracts: &contracts, features, degrade, bool_fns, fns: vec![], dropped: vec![],
        rewrites: BTreeMap::new(), used: HashSet::new(), known, inlined: HashMap::new(),
    };
    std::fs::create_dir_all(&out).map_err(|e| e.to_string())?;
    let mut todo = vec![(String::new(), src.join("lib.rs"))];
    let mut files = Vec::new();
    while let Some((m, f)) = todo.pop() {
        let mo = do_module(&mut cx, &src, &f, &m)?;
        let rel = f.strip_prefix(&src).unwrap().to_path_buf();
        let dst = out.join(&rel);
        std::fs::create_dir_all(dst.parent().unwrap()).map_err(|e| e.to_string())?;
        std::fs::write(&dst, &mo.text).map_err(|e| e.to_string())?;
        files.push(rel.display().to_string());
        todo.extend(mo.subs);
    }
    for (n, t) in &contracts.prelude {
        std::fs::write(out.join(n), t).map_err(|e| e.to_string())?;
    }
    let missing: Vec<&String> = contracts.fns.keys().filter(|k| !cx.used.contains(*k)).collect();
    let fns: Vec<_> = cx.fns.iter().map(|f| json!({
        "key": f.key, "module": f.module, "file": f.src_file, "src_lines": [f.src.0, f.src.1],
        "out_lines": [f.out_lines.0, f.out_lines.1], "status": f.status, "reason": f.reason,
        "hash": f.text_hash, "inlined": cx.inlined.get(&f.key).cloned().unwrap_or_default(), "loops": f.loops, "calls": f.calls, "binds": f.binds, "tail": f.tail, "renamed": f.renamed,
    })).collect();
    let rep = json!({"functions": fns, "missing": missing, "dropped": cx.dropped,
        "rewrites": cx.rewrites, "files": files});
    std::fs::write(out.join("extract.json"), serde_json::to_string_pretty(&rep).unwrap())
        .map_err(|e| e.to_string())
}

fn main() {
    if let Err(e) = run() {
        eprintln!("vpx: {}", e);
        std::process::exit(2);
    }
}
