//! The contract files (`*.vc`) and the prelude (`*.rs` next to them).
use std::collections::HashMap;
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnC {
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: Vec<String>,
    pub external_body: bool,
    pub loops: HashMap<usize, String>,
    pub at: Vec<(String, String)>,
    pub closures: HashMap<usize, (String, String)>,
    /// the same for a closure given to a certain method: `@closure 0.any |..|`
    pub closures_in: HashMap<(usize, String), (String, String)>,
    pub opts: HashMap<String, String>,
    /// method or function name -> wrapper
    pub calls: HashMap<String, String>,
}

#[derive(Default, Clone, Debug)]
pub struct TypeC {
    pub attrs: Vec<String>,
    pub derive: Option<String>,
    pub items: Option<String>,
    pub external: bool,
    pub drop: bool,
    /// fields keep their visibility (needed for a type invariant)
    pub private: bool,
}

#[derive(Default, Clone, Debug)]
pub struct ModC {
    pub uses: String,
    pub ghost: String,
}

#[derive(Default)]
pub struct Contracts {
    pub crate_head: String,
    pub modules: HashMap<String, ModC>,
    pub fns: HashMap<String, FnC>,
    pub types: HashMap<String, TypeC>,
    pub items: HashMap<String, String>,
    pub calls: HashMap<String, String>,
    /// type name -> type standing for it (R10)
    pub types_as: HashMap<String, String>,
    pub prelude: Vec<(String, String)>,
}

enum Cur { None, Module(String), Fn(String), Type(String), Item(String), Global }

pub fn load(dir: &Path) -> Result<Contracts, String> {
    let mut c = Contracts::default();
    let mut names: Vec<_> = std::fs::read_dir(dir).map_err(|e| e.to_string())?
        .flatten().map(|e| e.path()).collect();
    names.sort();
    for p in names {
        let text = std::fs::read_to_string(&p).map_err(|e| e.to_string())?;
        match p.extension().and_then(|x| x.to_str()) {
            Some("rs") => c.prelude.push((p.file_name().unwrap().to_str().unwrap().to_string(), text)),
            Some("vc") => parse(&mut c, &text).map_err(|e| format!("{}: {}", p.display(), e))?,
            _ => {}
        }
    }
    Ok(c)
}

fn parse(c: &mut Contracts, text: &str) -> Result<(), String> {
    let mut cur = Cur::None;
    // (directive, argument, body lines)
    let mut dir: Option<(String, String)> = None;
    let mut body = String::new();
    let flush = |c: &mut Contracts, cur: &Cur, dir: &Option<(String, String)>, body: &str| -> Result<(), String> {
        let (d, a) = match dir { Some(x) => (x.0.as_str(), x.1.trim()), None => {
            if let Cur::Item(k) = cur { c.items.entry(k.clone()).or_default().push_str(body); }
            return Ok(());
        } };
        match cur {
            Cur::Global => match d {
                "head" => c.crate_head.push_str(body),
                "call" => { let (k, v) = a.split_once("=>").ok_or("call A => B")?; c.calls.insert(k.trim().into(), v.trim().into()); }
                "type" => { let (k, v) = a.split_once("=>").ok_or("type A => B")?; c.types_as.insert(k.trim().into(), v.trim().into()); }
                _ => return Err(format!("unknown @{}", d)),
            },
            Cur::Module(m) => {
                let e = c.modules.entry(m.clone()).or_default();
                match d {
                    "use" => e.uses.push_str(body),
                    "ghost" => e.ghost.push_str(body),
                    _ => return Err(format!("unknown @{}", d)),
                }
            }
            Cur::Fn(k) => {
                let e = c.fns.entry(k.clone()).or_default();
                match d {
                    "ret" => e.ret = Some(a.into()),
                    "spec" => e.spec.push_str(body),
                    "attr" => e.attrs.push(a.into()),
                    "trusted" => e.external_body = true,
                    "loop" => { e.loops.insert(a.parse().map_err(|_| format!("@loop {}", a))?, body.into()); }
                    "at" => e.at.push((a.into(), body.into())),
                    "closure" => {
                        let (n, params) = a.split_once(' ').ok_or("@closure N params")?;
                        if let Some((n, m)) = n.split_once('.') {
                            e.closures_in.insert((n.parse().map_err(|_| "closure number")?, m.into()), (params.into(), body.into()));
                            return Ok(());
                        }
                        e.closures.insert(n.parse().map_err(|_| "closure number")?, (params.into(), body.into()));
                    }
                    "opt" => { let (k, v) = a.split_once('=').ok_or("@opt k=v")?; e.opts.insert(k.trim().into(), v.trim().into()); }
                    "call" => { let (k, v) = a.split_once("=>").ok_or("call A => B")?; e.calls.insert(k.trim().into(), v.trim().into()); }
                    _ => return Err(format!("unknown @{} in {}", d, k)),
                }
            }
            Cur::Type(k) => {
                let e = c.types.entry(k.clone()).or_default();
                match d {
                    "attr" => e.attrs.push(a.into()),
                    "derive" => e.derive = Some(a.into()),
                    "items" => e.items.get_or_insert_with(String::new).push_str(body),
                    "external" => e.external = true,
                    "drop" => e.drop = true,
                    "private" => e.private = true,
                    _ => return Err(format!("unknown @{} in {}", d, k)),
                }
            }
            _ => return Err(format!("@{} outside a section", d)),
        }
        Ok(())
    };
    for line in text.lines() {
        if let Some(r) = line.strip_prefix("@@") {
            flush(c, &cur, &dir, &body)?;
            body.clear();
            dir = None;
            let (k, a) = r.split_once(' ').unwrap_or((r, ""));
            let a = a.trim().to_string();
            cur = match k {
                "module" => Cur::Module(a),
                "fn" => { c.fns.entry(a.clone()).or_default(); Cur::Fn(a) }
                "type" => Cur::Type(a),
                "item" => Cur::Item(a),
                "global" => Cur::Global,
                "rem" => Cur::None,
                _ => return Err(format!("unknown @@{}", k)),
            };
        } else if let Some(r) = line.strip_prefix('@') {
            flush(c, &cur, &dir, &body)?;
            body.clear();
            let (k, a) = r.split_once(' ').unwrap_or((r, ""));
            dir = Some((k.to_string(), a.to_string()));
        } else if matches!(cur, Cur::None) {
        } else {
            body.push_str(line);
            body.push('\n');
        }
    }
    flush(c, &cur, &dir, &body)
}
