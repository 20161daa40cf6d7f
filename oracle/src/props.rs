//! One generator and oracle per property. Ok lists the known findings met.
use crate::fs::*;
use crate::gen::*;
use crate::model::*;
use dir_signature::v1::merge::{FileMergeBuilder, MergeError, MergedSignatures};
use dir_signature::v1::{self, Emitter, Entry, EntryKind, Hashes, Parser};
use dir_signature::{get_hash, HashType, ScannerConfig};
use std::ffi::OsStr;
use std::io::{Cursor, Write};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};
use std::str::FromStr;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Mutex;

pub static PANIC_AT: Mutex<String> = Mutex::new(String::new());
/// description of the input of the current case
pub static LAST: Mutex<String> = Mutex::new(String::new());
type Res = Result<Vec<String>, String>;
fn note(s: String) { *LAST.lock().unwrap() = s; }
fn show(b: &[u8]) -> String { let s = String::from_utf8_lossy(&b[..b.len().min(3000)]).into_owned(); format!("{:?}", s) }
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }

fn p(b: &[u8]) -> PathBuf { PathBuf::from(OsStr::from_bytes(b)) }
fn conv(e: &Entry, ht: Ht, bs: u64) -> Result<Ent, String> {
    Ok(match e {
        Entry::Dir(p) => Ent::Dir(p.as_os_str().as_bytes().to_vec()),
        Entry::Link(p, d) => Ent::Link(p.as_os_str().as_bytes().to_vec(), d.as_os_str().as_bytes().to_vec()),
        Entry::File { path, exe, size, hashes } => {
            ck!(hashes.hash_type() == ht.real() && hashes.block_size() == bs, "hash type or block size of {:?}", e);
            let h: Vec<u8> = hashes.iter().flat_map(|x| x.to_vec()).collect();
            Ent::File { path: path.as_os_str().as_bytes().to_vec(), exe: *exe, size: *size, hashes: h }
        }
    })
}
fn kind_of(k: &(bool, Vec<u8>)) -> EntryKind<PathBuf> { if k.0 { EntryKind::Dir(p(&k.1)) } else { EntryKind::File(p(&k.1)) } }
/// the parser's hashes object with the given bytes
fn hashes_of(ht: Ht, bs: u64, size: u64, h: &[u8]) -> Hashes {
    let e = Ent::File { path: b"/h".to_vec(), exe: false, size, hashes: h.to_vec() };
    let t = index_text(ht, bs, &[Ent::Dir(b"/".to_vec()), e]);
    let mut ps = Parser::new(Cursor::new(t)).expect("the header of a valid index");
    for x in ps.iter() { if let Ok(Entry::File { hashes, .. }) = x { return hashes; } }
    panic!("a valid index with one file is not accepted: block size {}, size {}", bs, size)
}

#[derive(Clone, Debug)]
enum Op { Next, Seek(bool, Vec<u8>) }
fn target(r: &mut Rng, es: &[Ent]) -> (bool, Vec<u8>) {
    loop {
        let (d, mut q) = if !es.is_empty() && !r.chance(3) { let e = r.pick(es); (e.is_dir(), e.path().to_vec()) } else { (r.chance(2), join(&if r.chance(2) || es.is_empty() { b"/".to_vec() } else { r.pick(es).path().to_vec() }, &name(r))) };
        let d = if r.chance(6) { !d } else { d };
        if r.chance(20) { q.extend(b"/"); }
        if r.chance(20) { q.splice(0..0, b"/.".iter().copied()); }
        if !d && comps(&q).last().map(|c| c == b"..").unwrap_or(true) { continue; }
        return (d, q);
    }
}
fn ops(r: &mut Rng, es: &[Ent], n: usize, seeks: bool) -> Vec<Op> {
    (0..n).map(|_| if seeks && r.chance(2) { let (d, q) = target(r, es); Op::Seek(d, q) } else { Op::Next }).collect()
}
struct Run { text: Vec<u8>, seed: u64, fault: Option<usize>, hard: bool, ops: Vec<Op> }
/// runs the operations on the parser and the model; None: the header is refused by both
fn outcomes(c: &Run) -> Result<Option<Vec<(Out, Out)>>, String> {
    note(format!("index {} fault {:?} hard {} operations {:?}", show(&c.text), c.fault, c.hard, c.ops));
    let mut rd = Odd::new(c.text.clone(), c.seed);
    rd.fault = c.fault;
    rd.hard = c.hard;
    let nl = c.text.iter().position(|x| *x == 10);
    let hd = match nl { Some(k) if c.fault.map(|f| f > k).unwrap_or(true) => header(&c.text[..k]), _ => None };
    let mut ps = match (Parser::new(rd), hd) {
        (Err(_), None) => return Ok(None),
        (Ok(_), None) => return Err("the header is accepted".into()),
        (Err(e), Some(_)) => return Err(format!("the header is refused: {}", e)),
        (Ok(p), Some(_)) => p,
    };
    let (ht, bs) = hd.unwrap();
    ck!(ps.get_header().get_hash_type() == ht.real() && ps.get_header().get_block_size() == bs && ps.get_header().get_version() == "v1", "header values");
    let k = nl.unwrap() + 1;
    let mut m = It::new(c.text[k..].to_vec(), bs);
    m.fault = c.fault.map(|f| f - k);
    m.hard = c.hard;
    let mut it = ps.iter();
    let mut v = vec![];
    for o in &c.ops {
        let (real, want) = match o {
            Op::Next => (it.next(), m.next()),
            Op::Seek(d, q) => (it.advance(&kind_of(&(*d, q.clone()))), m.seek(&key(*d, q))),
        };
        let real = match real { None => Out::End, Some(Err(_)) => Out::Err, Some(Ok(e)) => Out::Ent(conv(&e, ht, bs)?) };
        v.push((real, want));
    }
    Ok(Some(v))
}
fn same(c: &Run) -> Result<(), String> {
    if let Some(v) = outcomes(c)? {
        for (i, (a, b)) in v.iter().enumerate() { ck!(a == b, "operation {} {:?} returned {:?} instead of {:?}", i, c.ops[i], a, b); }
    }
    Ok(())
}
fn some_index(r: &mut Rng) -> (Ht, u64, Vec<Ent>, Vec<u8>) {
    let ht = *r.pick(&HTS);
    let bs = block_size(r);
    let es = entries(r, bs);
    let t = index_text(ht, bs, &es);
    (ht, bs, es, t)
}

fn emit(ht: Ht, bs: u64, es: &[Ent], out: &mut dyn Write, mut after: impl FnMut(usize) -> Result<(), String>) -> Result<std::io::Result<()>, String> {
    let hs: Vec<Option<Hashes>> = es.iter().map(|e| match e { Ent::File { size, hashes, .. } => Some(hashes_of(ht, bs, *size, hashes)), _ => None }).collect();
    let mut e = match Emitter::new(ht.real(), bs, out) { Ok(e) => e, Err(x) => return Ok(Err(x)) };
    after(0)?;
    for (i, x) in es.iter().enumerate() {
        let nm = |q: &[u8]| -> std::ffi::OsString { let k = q.iter().rposition(|c| *c == b'/').unwrap(); OsStr::from_bytes(&q[k + 1..]).to_os_string() };
        let res = match x {
            Ent::Dir(d) => e.start_dir(&p(d)),
            Ent::File { path, exe, size, .. } => e.add_file(&nm(path), *exe, *size, hs[i].as_ref().unwrap()),
            Ent::Link(q, d) => e.add_symlink(&nm(q), &p(d)),
        };
        if let Err(x) = res { return Ok(Err(x)); }
        after(i + 1)?;
    }
    if let Err(x) = e.finish() { return Ok(Err(x)); }
    after(es.len() + 1)?;
    Ok(Ok(()))
}

fn scan_cfg(roots: &[(PathBuf, PathBuf)], ht: Ht, threads: usize, progress: bool) -> ScannerConfig {
    let mut c = ScannerConfig::new();
    c.hash(ht.real()).threads(threads);
    if progress { c.print_progress(); }
    for (a, b) in roots { c.add_dir(a, b); }
    c
}
fn roots(s: &Scratch) -> Vec<(PathBuf, PathBuf)> { vec![(s.0.clone(), PathBuf::from("/"))] }
/// (entry text without hashes, hashes) of each row and the footer
fn split_index(t: &[u8]) -> Result<(Vec<u8>, Vec<Vec<u8>>, Vec<u8>), String> {
    ck!(t.last() == Some(&10), "no newline at the end of {}", show(t));
    let mut l: Vec<Vec<u8>> = t[..t.len() - 1].split(|c| *c == 10).map(|x| x.to_vec()).collect();
    ck!(l.len() >= 2, "not an index: {}", show(t));
    let f = l.pop().unwrap();
    let h = l.remove(0);
    Ok((h, l, f))
}
fn footer_ok(t: &[u8], ht: Ht) -> Result<(), String> {
    let (h, _, f) = split_index(t)?;
    let body = &t[h.len() + 1..t.len() - f.len() - 1];
    ck!(f == hex(&ht.digest(body)).as_bytes(), "footer {} of {}", show(&f), show(t));
    Ok(())
}
fn pick_threads(r: &mut Rng) -> usize { *r.pick(&[0, 1, 2, 3, 4, 8, 16]) }

pub fn case(prop: &str, r: &mut Rng, case: u64) -> Res {
    note(String::new());
    match prop {
        "P01" => p01(r), "P02" => p02(r), "P03" => p03(r), "P04" => p04(r, case), "P05" => p05(r), "P06" => p06(r),
        "P07" => p07(r), "P08" => p08(r), "P09" => p09(r), "P10" => p10(r), "P11" => p11(r), "P12" => p12(r), "P13" => p13(r),
        "AX" => crate::axioms::case(r),
        "P14" => p14(r), "P15" => p15(r), "P16" => p16(r), "P17" => p17(r), "P18" => p18(r),
        _ => panic!("unknown property"),
    }
}

fn p01(r: &mut Rng) -> Res {
    // written
    let bs = 16;
    let es = entries(r, bs);
    note(format!("entries {:?}", es));
    let mut out = vec![];
    emit(Ht::Sha, bs, &es, &mut out, |_| Ok(()))?.map_err(|e| e.to_string())?;
    let (_, rows, _) = split_index(&out)?;
    ck!(rows.len() == es.len(), "{} rows for {} entries", rows.len(), es.len());
    for (x, e) in rows.iter().zip(&es) {
        let mut want = row_text(e);
        want.pop();
        ck!(*x == want, "row {} for {:?}", show(x), e);
        ck!(x.iter().all(|c| (0x20..0x7f).contains(c)), "row {}", show(x));
    }
    // read, with text that the library would not write
    let mut t = header_text(Ht::Sha, bs);
    let mut raw = vec![];
    t.extend(b"/\n");
    for _ in 0..1 + r.below(4) {
        let k = 1 + r.below(8);
        let f: Vec<u8> = if r.chance(3) { escape(&dest(r)) } else { let al = b"\\\\xx40aAfFgG/.\xff\t"; (0..k).map(|_| *r.pick(al)).collect() };
        if r.chance(2) || !is_name(&unescape(&f)) { t.extend(b"  l s "); t.extend(&f); raw.push((b"/l".to_vec(), f.clone())); }
        else { t.extend(b"  "); t.extend(&f); t.extend(b" s d"); raw.push((join(b"/", &unescape(&f)), b"d".to_vec())); }
        t.push(10);
    }
    note(format!("index {}", show(&t)));
    let mut ps = Parser::new(Odd::new(t, r.next())).map_err(|e| e.to_string())?;
    let mut it = ps.iter();
    it.next();
    for (q, f) in &raw {
        let want = Ent::Link(q.clone(), unescape(f));
        match it.next() {
            Some(Ok(e)) => { let e = conv(&e, Ht::Sha, bs)?; ck!(e == want, "read {:?} instead of {:?}", e, want); }
            x => return Err(format!("read {:?} instead of {:?}", x, want)),
        }
    }
    Ok(vec![])
}
fn p02(r: &mut Rng) -> Res {
    let ht = *r.pick(&HTS);
    let bs = block_size(r);
    let mut es = entries(r, bs);
    // the emitter does not require any order
    if r.chance(3) && !es.is_empty() && es[0].is_dir() {
        let k = 1 + es[1..].iter().position(|e| e.is_dir()).unwrap_or(es.len() - 1);
        for i in (2..k).rev() { let j = 1 + r.below(i); es.swap(i, j); }
    }
    note(format!("{:?} block size {} entries {:?}", ht, bs, es));
    let mut out = vec![];
    emit(ht, bs, &es, &mut out, |_| Ok(()))?.map_err(|e| e.to_string())?;
    let (h, rows, _) = split_index(&out)?;
    ck!([&h[..], b"\n"].concat() == header_text(ht, bs), "header {}", show(&h));
    ck!(rows.len() == es.len(), "{} rows for {} entries: {}", rows.len(), es.len(), show(&out));
    let mut ps = Parser::new(Odd::new(out.clone(), r.next())).map_err(|e| e.to_string())?;
    ck!(ps.get_header().get_hash_type() == ht.real() && ps.get_header().get_block_size() == bs, "header read back");
    let mut it = ps.iter();
    for e in &es {
        match it.next() {
            Some(Ok(x)) => { let x = conv(&x, ht, bs)?; ck!(x == *e, "read {:?} instead of {:?}", x, e); }
            x => return Err(format!("read {:?} instead of {:?} in {}", x, e, show(&out))),
        }
    }
    ck!(it.next().is_none(), "no end after the last entry of {}", show(&out));
    Ok(vec![])
}
fn p03(r: &mut Rng) -> Res {
    let (_, _, es, mut t) = some_index(r);
    if r.chance(12) { let n = r.below(200); t = r.bytes(n); } else { mutate(r, &mut t); }
    let n = 3 + r.below(30);
    let c = Run { seed: r.next(), fault: if r.chance(4) { Some(r.below(t.len() + 1)) } else { None }, hard: r.chance(2), ops: ops(r, &es, n, true), text: t };
    note(format!("index {} fault {:?} hard {} operations {:?}", show(&c.text), c.fault, c.hard, c.ops));
    let mut rd = Odd::new(c.text.clone(), c.seed);
    rd.fault = c.fault;
    rd.hard = c.hard;
    let cur = crate::CUR.load(Relaxed);
    crate::PEAK.store(cur, Relaxed);
    if let Ok(mut ps) = Parser::new(rd) {
        let mut it = ps.iter();
        for o in &c.ops { match o { Op::Next => { let _ = it.next(); } Op::Seek(d, q) => { let _ = it.advance(&kind_of(&(*d, q.clone()))); } } }
        for _ in 0..2 { let _ = it.next(); }
    }
    let used = crate::PEAK.load(Relaxed).saturating_sub(cur);
    ck!(used <= (1 << 16) + 64 * c.text.len(), "{} bytes allocated for an input of {} bytes", used, c.text.len());
    Ok(vec![])
}
fn p04(r: &mut Rng, case: u64) -> Res {
    let (_, _, es, mut t) = some_index(r);
    match case % 4 {
        0 => { let k = r.below(t.len()); t.truncate(k); }
        1 => { let n = 1 + r.below(3); if r.chance(2) { let b = r.bytes(n); t.extend(b); } else { let l = split_index(&t)?.2; t.extend(&l); t.push(10); } }
        2 => mutate(r, &mut t),
        _ => {}
    }
    let n = es.len() + 4;
    let seeks = r.chance(3);
    let mut o = ops(r, &es, n, seeks);
    o.extend((0..es.len() + 3).map(|_| Op::Next));
    let c = Run { seed: r.next(), fault: if r.chance(6) { Some(r.below(t.len() + 1)) } else { None }, hard: r.chance(2), ops: o, text: t };
    if let Some(v) = outcomes(&c)? {
        let mut ended = false;
        for (i, (a, b)) in v.iter().enumerate() {
            if let Op::Next = c.ops[i] {
                ck!((*a == Out::End) == (*b == Out::End), "operation {} returned {:?} instead of {:?}", i, a, b);
                ck!(!ended || *a == Out::End, "operation {} after the end returned {:?}", i, a);
                ended = ended || *a == Out::End;
            }
        }
    }
    Ok(vec![])
}
fn p05(r: &mut Rng) -> Res {
    let (_, _, es, mut t) = some_index(r);
    if r.chance(2) { mutate(r, &mut t); }
    let c = Run { seed: r.next(), fault: None, hard: false, ops: ops(r, &es, es.len() + 4, false), text: t };
    same(&c)?;
    Ok(vec![])
}
fn p06(r: &mut Rng) -> Res {
    if r.chance(400) {
        let s = Scratch::new();
        let t = tree(r, 3, false, false);
        build(&s.0, &t);
        let mut out = vec![];
        let cfg = scan_cfg(&roots(&s), Ht::Sha, pick_threads(r), false);
        note(format!("tree {:?}", t));
        v1::scan(&cfg, &mut out).map_err(|e| e.to_string())?;
        let mut ps = Parser::new(Cursor::new(out)).map_err(|e| e.to_string())?;
        let ks: Vec<Entry> = ps.iter().map(|e| e.map_err(|e| e.to_string())).collect::<Result<_, _>>()?;
        for w in ks.windows(2) { ck!(w[0].kind() < w[1].kind(), "{:?} is written before {:?}", w[0].kind(), w[1].kind()); }
        return Ok(vec![]);
    }
    let es = entries(r, 16);
    let ks: Vec<(bool, Vec<u8>)> = (0..3).map(|_| target(r, &es)).collect();
    note(format!("entries {:?}", ks.iter().map(|k| (k.0, show(&k.1))).collect::<Vec<_>>()));
    for a in &ks { for b in &ks {
        let (x, y) = (kind_of(a), kind_of(b));
        let want = kcmp(&key(a.0, &a.1), &key(b.0, &b.1));
        ck!(x.cmp(&y) == want, "{:?} and {:?} compare {:?} instead of {:?}", x, y, x.cmp(&y), want);
        ck!(x.partial_cmp(&y) == Some(want) && x.as_ref().cmp(&y.as_ref()) == want && x.cloned().cmp(&y) == want, "partial_cmp, as_ref or cloned of {:?} and {:?}", x, y);
        ck!(x.path() == p(&a.1), "path of {:?}", x);
    } }
    Ok(vec![])
}
fn p07(r: &mut Rng) -> Res {
    let (_, _, es, t) = some_index(r);
    let n = 2 + r.below(2 * es.len() + 6);
    let o = ops(r, &es, n, true);
    let k = t.iter().position(|c| *c == 10).unwrap() + 1;
    let fault = if r.chance(3) { Some(k + r.below(t.len() - k + 1)) } else { None };
    let mut c = Run { seed: r.next(), fault, hard: r.chance(3), ops: o, text: t };
    // a malformed row in the middle
    if fault.is_none() && r.chance(3) {
        let starts: Vec<usize> = (k..c.text.len()).filter(|i| c.text[*i - 1] == 10).collect();
        let at = *r.pick(&starts);
        let bad = r.pick(&[&b"  x y 1\n"[..], b"  f f 1\n", b"zz\n", b"/a b\n", b"  .. f 0\n", b"\n", b"  n f 0 x\n"]).to_vec();
        c.text.splice(at..at, bad);
    }
    same(&c)?;
    Ok(vec![])
}

struct Peek { head: Option<Out>, it: It }
impl Peek {
    fn peek(&mut self) -> &Option<Out> { if self.head.is_none() { match self.it.next() { Out::End => {} o => self.head = Some(o) } } &self.head }
    fn seek(&mut self, k: &Key) -> Out {
        self.peek();
        match self.head.clone() {
            None => Out::End,
            Some(Out::Ent(e)) => match kcmp(&e.key(), k) {
                std::cmp::Ordering::Less => { self.head = None; self.it.seek(k) }
                std::cmp::Ordering::Equal => { self.head = None; Out::Ent(e) }
                std::cmp::Ordering::Greater => Out::End,
            },
            Some(o) => { self.head = None; o }
        }
    }
}
fn p08(r: &mut Rng) -> Res {
    let ht = *r.pick(&HTS);
    let bs = block_size(r);
    let n = r.below(5);
    let base = entries(r, bs);
    let mut texts = vec![];
    let mut all: Vec<Ent> = vec![];
    for _ in 0..n {
        let es = if r.chance(4) { base.clone() } else { overlap(r, bs, &base) };
        let mut t = index_text(ht, bs, &es);
        let k = t.iter().position(|c| *c == 10).unwrap() + 1;
        if r.chance(5) { if r.chance(2) { let c = k + r.below(t.len() - k); t.truncate(c); } else {
            let starts: Vec<usize> = (k..t.len()).filter(|i| t[*i - 1] == 10).collect();
            let at = *r.pick(&starts);
            t.splice(at..at, b"  x y 1\n".iter().copied());
        } }
        all.extend(es);
        texts.push((k, t));
    }
    let m = 2 + r.below(all.len() + 6);
    let mut o = ops(r, &all, m, true);
    if r.chance(2) { for x in o.iter_mut() { if !r.chance(6) { *x = Op::Next; } } o.extend((0..all.len()).map(|_| Op::Next)); }
    note(format!("indexes {:?} operations {:?}", texts.iter().map(|t| show(&t.1)).collect::<Vec<_>>(), o));
    let ps: Vec<(usize, Parser<Odd>)> = texts.iter().enumerate().map(|(i, t)| Ok((i, Parser::new(Odd::new(t.1.clone(), r.next())).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?;
    let mut ms = MergedSignatures::new(ps).map_err(|e| e.to_string())?;
    let mut it = ms.iter();
    let mut mo: Vec<Peek> = texts.iter().map(|t| Peek { head: None, it: It::new(t.1[t.0..].to_vec(), bs) }).collect();
    for (i, op) in o.iter().enumerate() {
        match op {
            Op::Seek(d, q) => {
                let real: Vec<(usize, Out)> = it.advance(&kind_of(&(*d, q.clone()))).into_iter()
                    .map(|(k, e)| Ok((*k, match e { Ok(e) => Out::Ent(conv(&e, ht, bs)?), Err(_) => Out::Err }))).collect::<Result<_, String>>()?;
                let kk = key(*d, q);
                let want: Vec<(usize, Out)> = mo.iter_mut().enumerate().map(|(j, x)| (j, x.seek(&kk))).filter(|x| x.1 != Out::End).collect();
                ck!(real == want, "operation {} {:?} returned {:?} instead of {:?}", i, op, real, want);
            }
            Op::Next => {
                let real: Vec<(usize, Out)> = match it.next() { None => vec![], Some(v) => { ck!(!v.is_empty(), "operation {}: empty group", i); v.into_iter()
                    .map(|(k, e)| Ok((*k, match e { Ok(e) => Out::Ent(conv(&e, ht, bs)?), Err(_) => Out::Err }))).collect::<Result<_, String>>()? } };
                let min = mo.iter_mut().filter_map(|x| match x.peek() { Some(Out::Ent(e)) => Some(e.key()), _ => None }).min_by(|a, b| kcmp(a, b));
                let mut errs = 0;
                let mut want = vec![];
                for (j, x) in mo.iter_mut().enumerate() {
                    match x.head.clone() {
                        Some(Out::Ent(e)) => if Some(e.key()) == min { want.push((j, Out::Ent(e))); x.head = None; },
                        Some(_) => { // an error may wait for a later group as long as there are entries
                            if real.contains(&(j, Out::Err)) || min.is_none() { want.push((j, Out::Err)); x.head = None; errs += 1; }
                        }
                        None => {}
                    }
                }
                let _ = errs;
                ck!(real == want, "operation {} returned {:?} instead of {:?}", i, real, want);
            }
        }
    }
    Ok(vec![])
}
fn p09(r: &mut Rng) -> Res {
    let n = r.below(6);
    let a = (*r.pick(&HTS), block_size(r));
    let mut hs: Vec<(Ht, u64)> = vec![a; n];
    if r.chance(60) { // many indexes, one of them different
        hs = vec![a; 200 + r.below(500)];
        let k = hs.len() - 1 - r.below(100);
        match r.below(3) { 0 => hs[k].0 = *r.pick(&HTS), 1 => hs[k].1 = block_size(r), _ => {} }
    }
    let n = hs.len();
    for _ in 0..r.below(3) { if n > 0 && n < 10 { let k = r.below(n); if r.chance(2) { hs[k].0 = *r.pick(&HTS) } else { hs[k].1 = block_size(r) } } }
    note(if n < 10 { format!("headers {:?}", hs) } else { format!("{} indexes, the first with {:?}, others: {:?}", n, hs[0], hs.iter().enumerate().filter(|x| *x.1 != hs[0]).collect::<Vec<_>>()) });
    let texts: Vec<Vec<u8>> = hs.iter().map(|h| index_text(h.0, h.1, &[Ent::Dir(b"/".to_vec())])).collect();
    let mut ps = vec![];
    for (i, t) in texts.iter().enumerate() { ps.push((i, Parser::new(Cursor::new(t.clone())).map_err(|e| e.to_string())?)); }
    let ht_same = hs.windows(2).all(|w| w[0].0 == w[1].0);
    let bs_same = hs.windows(2).all(|w| w[0].1 == w[1].1);
    let check = |e: &MergeError| -> Result<(), String> {
        match e {
            MergeError::HashTypesMismatch(v) => ck!(!ht_same && *v == hs.iter().map(|h| h.0.real()).collect::<Vec<HashType>>(), "hash types {:?}", v),
            MergeError::BlockSizesMismatch(v) => ck!(ht_same && !bs_same && *v == hs.iter().map(|h| h.1).collect::<Vec<u64>>(), "block sizes {:?}", v),
            e => return Err(format!("{}", e)),
        }
        Ok(())
    };
    match MergedSignatures::new(ps) {
        Err(e) => check(&e)?,
        Ok(mut m) => {
            ck!(ht_same && bs_same, "accepted");
            let g = m.iter().next();
            match g {
                None => ck!(n == 0, "no entries"),
                Some(v) => { let ks: Vec<usize> = v.iter().map(|x| *x.0).collect(); ck!(ks == (0..n).collect::<Vec<_>>(), "indexes {:?}", ks); }
            }
        }
    }
    if r.chance(20) {
        let s = Scratch::new();
        let mut b = FileMergeBuilder::new();
        let missing = r.chance(4);
        for (i, t) in texts.iter().enumerate() {
            let f = s.0.join(format!("{}", i));
            if !(missing && i == 0) { std::fs::write(&f, t).unwrap(); }
            b.add(format!("/base{}", i), f);
        }
        match b.finalize() {
            Err(MergeError::Io(..)) => ck!(missing && n > 0, "io error"),
            Err(e) => { ck!(!missing || n == 0, "no io error"); check(&e)? }
            Ok(mut m) => {
                ck!(ht_same && bs_same && !(missing && n > 0), "accepted");
                if let Some(v) = m.iter().next() { let ks: Vec<PathBuf> = v.iter().map(|x| x.0.clone()).collect(); ck!(ks == (0..n).map(|i| PathBuf::from(format!("/base{}", i))).collect::<Vec<_>>(), "bases {:?}", ks); }
            }
        }
    }
    Ok(vec![])
}
fn p10(r: &mut Rng) -> Res {
    if r.chance(6) {
        let s = Scratch::new();
        let many = r.chance(4);
        let (b_, m_) = (r.chance(3), many); let t = tree(r, 2, b_, m_);
        build(&s.0, &t);
        let ht = *r.pick(&HTS);
        let th = pick_threads(r);
        let pr = r.chance(2);
        note(format!("scan {:?} threads {} progress {} tree {:?}", ht, th, pr, names(&t)));
        let mut w = OddW::new(r.next());
        w.intr = r.chance(3);
        w.odd = !r.chance(3);
        v1::scan(&scan_cfg(&roots(&s), ht, th, pr), &mut w).map_err(|e| e.to_string())?;
        footer_ok(&w.out, ht)?;
        return Ok(vec![]);
    }
    let ht = *r.pick(&HTS);
    let bs = block_size(r);
    let es = entries(r, bs);
    let mut w = OddW::new(r.next());
    w.intr = r.chance(3);
    w.odd = !r.chance(3);
    note(format!("{:?} block size {} entries {:?}", ht, bs, es));
    emit(ht, bs, &es, &mut w, |_| Ok(()))?.map_err(|e| e.to_string())?;
    footer_ok(&w.out, ht)?;
    Ok(vec![])
}
fn names(t: &[(Vec<u8>, Node)]) -> String {
    let mut w = vec![];
    walk(b"/", t, &mut w);
    w.iter().take(40).map(|(e, _)| match e { Ent::File { path, exe, size, .. } => format!("{} {} {}", show(path), exe, size), e => format!("{:?} {}", e.is_dir(), show(e.path())) }).collect::<Vec<_>>().join(", ")
}
/// compares the rows of an index with those expected without and with the known hash carry-over
fn rows_match(out: &[u8], w: &[(Ent, Vec<u8>)], ht: Ht, threads: usize, known: &str) -> Result<Vec<String>, String> {
    let body = |c: Carry| body_text(&with_hashes(w, ht, c));
    let (h, _, f) = split_index(out)?;
    ck!([&h[..], b"\n"].concat() == header_text(ht, BS as u64), "header {}", show(&h));
    let real = &out[h.len() + 1..out.len() - f.len() - 1];
    let want = body(Carry::No);
    if real == &want[..] { return Ok(vec![]); }
    if ht == Ht::B3 && real == &body(if threads > 1 { Carry::File } else { Carry::All })[..] { return Ok(vec![known.into()]); }
    let a: Vec<&[u8]> = real.split(|c| *c == 10).collect();
    let b: Vec<&[u8]> = want.split(|c| *c == 10).collect();
    let k = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
    Err(format!("row {} is {} instead of {}", k + 1, a.get(k).map(|x| show(x)).unwrap_or_default(), b.get(k).map(|x| show(x)).unwrap_or_default()))
}
const B3_SCAN: &str = "blake3/256 hashes of a scan cover all data hashed before them (Blake3_256::total_hash does not reset)";
fn p11(r: &mut Rng) -> Res {
    let s = Scratch::new();
    let t = tree(r, 2, true, false);
    build(&s.0, &t);
    let mut w = vec![];
    walk(b"/", &t, &mut w);
    let ht = *r.pick(&HTS);
    let th = pick_threads(r);
    note(format!("scan {:?} threads {} tree {}", ht, th, names(&t)));
    let mut out = vec![];
    v1::scan(&scan_cfg(&roots(&s), ht, th, false), &mut out).map_err(|e| e.to_string())?;
    rows_match(&out, &w, ht, th, B3_SCAN)
}
fn p12(r: &mut Rng) -> Res {
    let s = Scratch::new();
    let many = r.chance(3);
    let (b_, m_) = (r.chance(2), many); let t = tree(r, 2, b_, m_);
    build(&s.0, &t);
    let ht = *r.pick(&HTS);
    let th = *r.pick(&[2, 2, 3, 4, 8, 16]);
    note(format!("scan {:?} threads {} tree {}", ht, th, names(&t)));
    let run = |th: usize, pr: bool| -> Result<Vec<u8>, String> { let mut o = vec![]; v1::scan(&scan_cfg(&roots(&s), ht, th, pr), &mut o).map_err(|e| e.to_string())?; Ok(o) };
    let mut known = vec![];
    let a = run(0, false)?;
    ck!(run(r.below(2), true)? == a, "printing progress changes the index");
    let b = run(th, r.chance(2))?;
    let b2 = run(th, r.chance(2))?;
    ck!(b == b2, "two scans with {} threads differ", th);
    if a != b {
        let mut w = vec![];
        walk(b"/", &t, &mut w);
        if ht == Ht::B3 {
            known.extend(rows_match(&b, &w, ht, th, "with blake3/256 an index written with threads differs from one written without (Blake3_256::total_hash does not reset)")?);
            rows_match(&a, &w, ht, 0, B3_SCAN)?;
        } else { return Err(format!("the index written with {} threads is {} instead of {}", th, show(&b), show(&a))); }
    }
    footer_ok(&a, ht)?;
    footer_ok(&b, ht)?;
    // a file that cannot be read
    if unsafe { libc::geteuid() } != 0 {
        if let Some((n, _)) = t.iter().find(|x| matches!(x.1, Node::File(..))) {
            std::fs::set_permissions(s.0.join(OsStr::from_bytes(n)), std::fs::Permissions::from_mode(0)).unwrap();
            ck!(run(th, r.chance(2)).is_err() && run(0, false).is_err(), "the scan succeeds although {} cannot be read", show(n));
        }
    }
    Ok(known)
}
fn strip(l: &[u8]) -> Vec<u8> {
    // a file row without its hashes
    let f: Vec<&[u8]> = l.splitn(6, |c| *c == b' ').collect();
    if l.starts_with(b"  ") && f.len() == 6 && f[3] != b"s" { f[..5].join(&b' ') } else { l.to_vec() }
}
fn p13(r: &mut Rng) -> Res {
    let s = Scratch::new();
    let (b_, m_) = (false, r.chance(10)); let t = tree(r, 3, b_, m_);
    build(&s.0, &t);
    let ht = *r.pick(&[Ht::Sha, Ht::B2]);
    let th = pick_threads(r);
    let mut w = vec![];
    walk(b"/", &t, &mut w);
    note(format!("scan {:?} threads {} tree {}", ht, th, names(&t)));
    let mut known = vec![];
    let mut out = vec![];
    v1::scan(&scan_cfg(&roots(&s), ht, th, r.chance(4)), &mut out).map_err(|e| e.to_string())?;
    let want: Vec<Vec<u8>> = with_hashes(&w, ht, Carry::No).iter().map(|e| { let mut x = row_text(e); x.pop(); strip(&x) }).collect();
    let (_, rows, _) = split_index(&out)?;
    let rows: Vec<Vec<u8>> = rows.iter().map(|l| strip(l)).collect();
    for i in 0..rows.len().max(want.len()) {
        ck!(rows.get(i) == want.get(i), "row {} is {} instead of {}", i + 1, rows.get(i).map(|x| show(x)).unwrap_or_default(), want.get(i).map(|x| show(x)).unwrap_or_default());
    }
    match r.below(4) {
        0 if unsafe { libc::geteuid() } != 0 => {
            if let Some((n, _)) = t.iter().find(|x| matches!(x.1, Node::Dir(..))) {
                let q = s.0.join(OsStr::from_bytes(n));
                let mode = *r.pick(&[0, 0o300, 0o100]);
                std::fs::set_permissions(&q, std::fs::Permissions::from_mode(mode)).unwrap();
                let res = v1::scan(&scan_cfg(&roots(&s), ht, th, false), &mut vec![]);
                std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o700)).unwrap();
                ck!(res.is_err(), "the scan succeeds although {} has mode {:o}", show(n), mode);
            }
        }
        1 => { // several roots
            let s2 = Scratch::new();
            let t2: Vec<(Vec<u8>, Node)> = t.iter().map(|(n, x)| match x { Node::Dir(_) => (n.clone(), Node::Dir(vec![])), x => ([&n[..], b"~vp2"].concat(), x.clone()) }).collect();
            build(&s2.0, &t2);
            let mut rs = roots(&s);
            rs.extend(roots(&s2));
            let mut t3 = t.clone();
            for x in &t2 { if !t3.iter().any(|y| y.0 == x.0) { t3.push(x.clone()) } else if !matches!(x.1, Node::Dir(_)) { return Ok(known); } }
            let mut w = vec![];
            walk(b"/", &t3, &mut w);
            let mut out = vec![];
            v1::scan(&scan_cfg(&rs, ht, th, false), &mut out).map_err(|e| e.to_string())?;
            ck!(out == index_text(ht, BS as u64, &with_hashes(&w, ht, Carry::No)), "two roots: {}", show(&out));
        }
        2 => {
            let s2 = Scratch::new();
            build(&s2.0, &[(b"f".to_vec(), Node::File(b"x".to_vec(), 0o644))]);
            let mut rs = roots(&s);
            rs.push((s2.0.clone(), PathBuf::from("/vp-sub")));
            let mut o2 = vec![];
            if v1::scan(&scan_cfg(&rs, ht, th, false), &mut o2).is_ok() {
                let l: Vec<&[u8]> = o2.split(|c| *c == 10).collect();
                if !l.contains(&&b"/vp-sub"[..]) {
                    ck!(o2 == out, "a directory with another prefix changes the index to {}", show(&o2));
                    known.push("add_dir with a prefix other than / is silently ignored by scan (find_roots)".into());
                }
            }
            let none: [(PathBuf, PathBuf); 0] = [];
            ck!(v1::scan(&scan_cfg(&none, ht, th, false), &mut vec![]).is_err(), "a scan without a root succeeds");
            ck!(v1::scan(&scan_cfg(&[(s2.0.join("missing"), PathBuf::from("/"))], ht, th, false), &mut vec![]).is_err(), "a scan of a missing root succeeds");
        }
        _ => {}
    }
    Ok(known)
}
fn blocks(ht: Ht, data: &[u8], bs: u64, acc: bool) -> Vec<u8> {
    let bs = bs.min(1 << 40) as usize;
    let mut o = vec![];
    let mut a = vec![];
    for b in data.chunks(bs) { if !acc { a.clear(); } a.extend(b); o.extend(ht.digest(&a)); }
    o
}
const B3_FILE: &str = "blake3/256 hashes of later blocks of a file cover the earlier blocks (Blake3_256::total_hash does not reset)";
fn p14(r: &mut Rng) -> Res {
    let ht = *r.pick(&HTS);
    let bs = *r.pick(&[1, 2, 3, 16, 64, 100, 4096, u64::MAX]);
    let n = match r.below(6) { 0 => 0, 1 => (bs.min(4096) as usize) * r.below(5), 2 => (bs.min(4096) as usize) * r.below(4) + 1, 3 => ((bs.min(4096) as usize) * (1 + r.below(4))).saturating_sub(1), _ => r.below(300) };
    let data = r.bytes(n);
    let mut known = vec![];
    let fault = if r.chance(5) { Some(r.below(n + 1)) } else { None };
    let odd = |r: &mut Rng, d: &[u8], f: Option<usize>| { let mut o = Odd::new(d.to_vec(), r.next()); o.intr = r.chance(4); o.fault = f; o };
    note(format!("{:?} block size {} fault {:?} data {}", ht, bs, fault, hex(&data[..n.min(400)])));
    match Hashes::hash_file(ht.real(), bs, odd(r, &data, fault)) {
        Err(_) => ck!(fault.is_some(), "hash_file fails"),
        Ok((size, h)) => {
            ck!(fault.is_none(), "hash_file succeeds although reading fails");
            ck!(size == n as u64, "size {} instead of {}", size, n);
            let real: Vec<u8> = h.iter().flat_map(|x| x.to_vec()).collect();
            ck!(h.hash_type() == ht.real() && h.block_size() == bs, "hash type or block size");
            if real != blocks(ht, &data, bs, false) {
                if ht == Ht::B3 && real == blocks(ht, &data, bs, true) { known.push(B3_FILE.to_string()); }
                else { return Err(format!("hashes {} instead of {}", hex(&real), hex(&blocks(ht, &data, bs, false)))); }
            }
        }
    }
    // stored hashes: right, changed, of another file, with a hash more or less
    let acc = ht == Ht::B3 && !known.is_empty() && r.chance(2);
    let mut st = blocks(ht, &data, bs, acc);
    let mut d2 = data.clone();
    match r.below(9) {
        0 => if !st.is_empty() { let k = r.below(st.len()); st[k] ^= 1 << r.below(8); },
        1 => { let k = st.len().saturating_sub(32); st.truncate(k); }
        2 => st.extend(ht.digest(b"")),
        3 => { let k = st.len().saturating_sub(32); let l = st[k..].to_vec(); st.extend(l); }
        4 => d2.push(r.next() as u8),
        5 => { d2.pop(); }
        6 => if !d2.is_empty() { let k = r.below(d2.len()); d2[k] ^= 1; },
        7 => { let k = (bs.min(1 << 20) as usize).min(d2.len()); let x = d2.len() - k; if r.chance(2) { d2.truncate(x) } else { d2.extend(vec![0; k.min(4096)]); } }
        _ => {}
    }
    let nb = (st.len() / 32) as u64;
    if let Some(size) = nb.checked_mul(bs) {
        let h = hashes_of(ht, bs, size, &st);
        let fault = if r.chance(6) { Some(r.below(d2.len() + 1)) } else { None };
        note(format!("{:?} block size {} stored {} fault {:?} data {}", ht, bs, hex(&st), fault, hex(&d2[..d2.len().min(400)])));
        let real = h.check_file(odd(r, &d2, fault));
        let want = blocks(ht, &d2, bs, false) == st;
        match real {
            // an interrupted read may be passed on, it is not a verdict
            Err(e) => ck!(fault.is_some() || e.kind() == std::io::ErrorKind::Interrupted, "check_file fails"),
            Ok(x) => if let Some(f) = fault {
                // a difference may be found before the failure
                ck!(!x, "check_file succeeds although reading fails at {}", f);
                let k = (f as u64 / bs) as usize * 32;
                ck!(f as u128 > nb as u128 * bs as u128 || (blocks(ht, &d2[..f], bs, false).get(..k) != st.get(..k) || (ht == Ht::B3 && blocks(ht, &d2[..f], bs, true).get(..k) != st.get(..k))), "a failure to read is reported as a difference");
            } else if x != want {
                if ht == Ht::B3 && x == (blocks(ht, &d2, bs, true) == st) { known.push(B3_FILE.to_string()); } else { return Err(format!("check_file returned {}", x)); }
            },
        }
    }
    known.dedup();
    Ok(known)
}
fn p15(r: &mut Rng) -> Res {
    let (ht, bs, es, mut t) = some_index(r);
    let valid = r.chance(2);
    if !valid {
        match r.below(6) {
            0 => { let k = r.below(t.len() + 1); t.truncate(k); }
            1 => { let k = r.below(120); t.truncate(k); }
            2 => { let n = t.len(); let k = n - 1 - r.below(66.min(n)); t[k] = *r.pick(b"g/:@`G0a \n\xff"); }
            3 => { t.pop(); }
            4 => { let k = r.below(40.min(t.len())); t[k] = r.next() as u8; }
            _ => mutate(r, &mut t),
        }
    }
    let _ = (bs, &es);
    let fault = if r.chance(6) { Some(r.below(t.len() + 1)) } else { None };
    note(format!("index {} fault {:?}", show(&t), fault));
    let want = (|| {
        if t.len() < 32 || &t[..16] != b"DIRSIGNATURE.v1 " { return None; }
        let s = t[16..32].split(|c| *c == b' ').next().unwrap();
        if s.len() == 16 || !HTS.iter().any(|h| h.name().as_bytes() == s) { return None; }
        if t.len() < 66 { return None; }
        let l = &t[t.len() - 66..];
        if l[0] != 10 || l[65] != 10 || !l[1..65].iter().all(|c| c.is_ascii_hexdigit()) { return None; }
        Some(l[1..65].chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect::<Vec<u8>>())
    })();
    let mut o = Odd::new(t.clone(), r.next());
    o.intr = r.chance(4);
    o.fault = fault;
    let real = get_hash(&mut o);
    match (real, want) {
        (Ok(a), Some(b)) => ck!(a == b, "{} instead of {}", hex(&a), hex(&b)),
        (Ok(a), None) => return Err(format!("{} instead of an error", hex(&a))),
        (Err(e), Some(_)) => ck!(fault.is_some() || !valid, "error {}", e),
        (Err(_), None) => {}
    }
    if valid && fault.is_none() {
        let b = footer(&split_index(&t)?.2).unwrap();
        let body = &t[header_text(ht, bs).len()..t.len() - 65];
        ck!(b == ht.digest(body), "oracle");
    }
    Ok(vec![])
}
fn p16(r: &mut Rng) -> Res {
    let mk = |r: &mut Rng, n: usize| { let mut w = OddW::new(r.next()); w.intr = r.chance(4); w.zero = r.chance(3); w.hard = r.chance(2); w.odd = r.chance(2); if !r.chance(3) { w.fault = Some(if r.chance(3) { n.saturating_sub(r.below(70)) } else { r.below(n + 1) }); } w };
    if r.chance(5) {
        let s = Scratch::new();
        let many = r.chance(5);
        let (b_, m_) = (r.chance(4), many); let t = tree(r, 2, b_, m_);
        build(&s.0, &t);
        let ht = *r.pick(&HTS);
        let th = pick_threads(r);
        let cfg = scan_cfg(&roots(&s), ht, th, r.chance(2));
        let mut full = vec![];
        v1::scan(&cfg, &mut full).map_err(|e| e.to_string())?;
        let mut w = mk(r, full.len());
        w.flush_fails = r.chance(5);
        note(format!("scan {:?} threads {} tree {} fault at {:?} of {} zero {} flush fails {}", ht, th, names(&t), w.fault, full.len(), w.zero, w.flush_fails));
        match v1::scan(&cfg, &mut w) {
            Ok(()) => {
                ck!(!w.failed, "the scan succeeds although the output failed");
                ck!(w.out == full, "the scan succeeds with {} bytes of {} written", w.out.len(), full.len());
                ck!(!w.unflushed, "the output is not flushed");
            }
            Err(_) => ck!(w.failed, "the scan fails although the output did not"),
        }
        return Ok(vec![]);
    }
    let ht = *r.pick(&HTS);
    let bs = block_size(r);
    let es = entries(r, bs);
    let full = index_text(ht, bs, &es);
    let mut w = mk(r, full.len());
    note(format!("{:?} block size {} entries {:?} fault {:?} zero {}", ht, bs, es, w.fault, w.zero));
    // what has to be there after each call
    let mut ends = vec![header_text(ht, bs).len()];
    for e in &es { let k = *ends.last().unwrap() + row_text(e).len(); ends.push(k); }
    ends.push(full.len());
    let wp: *mut OddW = &mut w;
    let wr: &OddW = unsafe { &*wp };
    let res = emit(ht, bs, &es, unsafe { &mut *wp }, |i| {
        ck!(!wr.failed, "call {} succeeds although the output failed", i);
        ck!(wr.out.len() == ends[i] && wr.out[..] == full[..ends[i]], "call {} succeeds with {} instead of {} bytes written", i, wr.out.len(), ends[i]);
        Ok(())
    })?;
    match res {
        Ok(()) => ck!(w.out == full && !w.failed, "finished with {}", show(&w.out)),
        Err(_) => ck!(w.failed, "a call fails although the output did not"),
    }
    Ok(vec![])
}
fn p17(r: &mut Rng) -> Res {
    for h in HTS {
        ck!(HashType::from_str(h.name()).ok() == Some(h.real()), "{} is not parsed back", h.name());
        ck!(format!("{}", h.real()) == h.name(), "name of {:?}", h);
    }
    let mut nm = r.pick(&HTS).name().to_string().into_bytes();
    if r.chance(2) { let k = r.below(nm.len()); match r.below(3) { 0 => nm[k] = *r.pick(b"0123456789abkSHlx/ "), 1 => { nm.remove(k); } _ => nm.insert(k, *r.pick(b"0123456789abk/ ")) } }
    if r.chance(4) { nm = r.pick(&["", "sha256", "sha512", "sha512/512", "blake2b/512", "blake2s/256", "blake3/512", "sha512/224", "md5", "SHA512/256", "sha512_256"]).as_bytes().to_vec(); }
    let s = String::from_utf8(nm).unwrap();
    note(format!("hash name {:?}", s));
    let want = HTS.iter().find(|h| h.name() == s).map(|h| h.real());
    ck!(HashType::from_str(&s).ok() == want, "{:?} is parsed as {:?}", s, HashType::from_str(&s).ok());
    // headers
    let mut bs = block_size(r);
    if r.chance(3) { bs = r.next() >> r.below(64); }
    let ht = *r.pick(&HTS);
    let mut t = header_text(ht, bs);
    if r.chance(2) { t = [&t[..], b"/\n"].concat(); }
    let valid = r.chance(3) && bs > 0;
    if !valid { let n = t.iter().position(|c| *c == 10).unwrap(); let mut h = t[..n].to_vec(); if r.chance(8) { h.extend(" \u{a0}\u{2003}x=\u{85}".as_bytes()); } mutate(r, &mut h); t.splice(0..n, h); }
    note(format!("header {}", show(&t)));
    let want = t.iter().position(|c| *c == 10).and_then(|k| header(&t[..k]));
    match (Parser::new(Odd::new(t.clone(), r.next())), want) {
        (Ok(q), Some((h, b))) => { let hd = q.get_header(); ck!(hd.get_hash_type() == h.real() && hd.get_block_size() == b && hd.get_version() == "v1", "header values {:?}", hd); }
        (Ok(q), None) => return Err(format!("accepted as {:?}", q.get_header())),
        (Err(e), Some(_)) => return Err(format!("refused: {}", e)),
        (Err(_), None) => {}
    }
    if valid { ck!(want == Some((ht, bs)), "oracle"); }
    // written headers
    let mut out = vec![];
    if bs > 0 {
        Emitter::new(ht.real(), bs, &mut out).map_err(|e| e.to_string())?;
        note(format!("header of the emitter for {:?} {}", ht, bs));
        ck!(out == header_text(ht, bs), "header {}", show(&out));
    }
    if r.chance(60) {
        let s = Scratch::new();
        let mut out = vec![];
        v1::scan(&scan_cfg(&roots(&s), ht, pick_threads(r), r.chance(2)), &mut out).map_err(|e| e.to_string())?;
        ck!(out.starts_with(&header_text(ht, BS as u64)), "header of a scan {}", show(&out));
    }
    Ok(vec![])
}
fn p18(r: &mut Rng) -> Res {
    let ht = *r.pick(&HTS);
    let n = if r.chance(6) { r.below(60) } else { r.below(5) };
    let data = r.bytes(n * 32);
    let bs = 1 + r.below(50) as u64;
    note(format!("{:?} hashes {}", ht, hex(&data)));
    let h = hashes_of(ht, bs, n as u64 * bs, &data);
    ck!(h.len() == n, "len {} instead of {}", h.len(), n);
    let it: Vec<Vec<u8>> = h.iter().map(|x| x.to_vec()).collect();
    ck!(it.len() == n && it.concat() == data && it.iter().all(|x| x.len() == 32), "iteration yields {:?}", it.iter().map(|x| hex(x)).collect::<Vec<_>>());
    let mut ix: Vec<usize> = (0..n + 3).collect();
    ix.extend([usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 32, usize::MAX / 32 + 1, usize::MAX / 32 - 1, 1 << 59, (1 << 59) - 1, (1 << 59) + 1, 1 << 63, (1 << 58) + n, (1 << 59) + n.saturating_sub(1)]);
    for _ in 0..4 { ix.push((r.next() >> r.below(64)) as usize); }
    for i in ix {
        let want = if i < n { Some(&data[i * 32..i * 32 + 32]) } else { None };
        ck!(h.get(i) == want, "get({}) of {} hashes is {:?}", i, n, h.get(i).map(hex));
    }
    // the emitter writes them through the other iterator
    let mut out = vec![];
    { let mut e = Emitter::new(ht.real(), bs, &mut out).map_err(|e| e.to_string())?; e.add_file(OsStr::new("f"), false, n as u64 * bs, &h).map_err(|e| e.to_string())?; }
    let mut want = header_text(ht, bs);
    want.extend(row_text(&Ent::File { path: b"/f".to_vec(), exe: false, size: n as u64 * bs, hashes: data }));
    ck!(out == want, "row {}", show(&out));
    let _ = Path::new("/");
    Ok(vec![])
}
