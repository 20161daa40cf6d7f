//! An independent reading of the index format, in plain Rust. It shares no code
//! with the crate; digests come from the same hash libraries.
use blake2::VarBlake2b;
use digest::{Digest, Update, VariableOutput};
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ht { Sha, B2, B3 }
pub const HTS: [Ht; 3] = [Ht::Sha, Ht::B2, Ht::B3];
impl Ht {
    pub fn name(self) -> &'static str { match self { Ht::Sha => "sha512/256", Ht::B2 => "blake2b/256", Ht::B3 => "blake3/256" } }
    pub fn real(self) -> dir_signature::HashType {
        match self {
            Ht::Sha => dir_signature::HashType::sha512_256(),
            Ht::B2 => dir_signature::HashType::blake2b_256(),
            Ht::B3 => dir_signature::HashType::blake3_256(),
        }
    }
    pub fn digest(self, data: &[u8]) -> Vec<u8> {
        match self {
            Ht::Sha => sha2::Sha512Trunc256::digest(data).to_vec(),
            Ht::B2 => { let mut h = VarBlake2b::new(32).unwrap(); h.update(data); let mut o = vec![]; h.finalize_variable(|d| o.extend_from_slice(d)); o }
            Ht::B3 => blake3::hash(data).as_bytes().to_vec(),
        }
    }
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

pub fn escape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for &c in b {
        if c <= 0x20 || c >= 0x7f || c == b'\\' { o.extend(format!("\\x{:02x}", c).bytes()) } else { o.push(c) }
    }
    o
}
fn hexv(c: u8) -> Option<u8> { (c as char).to_digit(16).map(|x| x as u8) }
pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if i + 4 <= b.len() && b[i] == b'\\' && b[i + 1] == b'x' {
            if let (Some(h), Some(l)) = (hexv(b[i + 2]), hexv(b[i + 3])) { o.push(h * 16 + l); i += 4; continue; }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ent {
    Dir(Vec<u8>),
    File { path: Vec<u8>, exe: bool, size: u64, hashes: Vec<u8> },
    Link(Vec<u8>, Vec<u8>),
}
impl Ent {
    pub fn path(&self) -> &[u8] { match self { Ent::Dir(p) => p, Ent::File { path, .. } => path, Ent::Link(p, _) => p } }
    pub fn is_dir(&self) -> bool { matches!(self, Ent::Dir(_)) }
    pub fn key(&self) -> Key { key(self.is_dir(), self.path()) }
}
/// directory components, file flag, name
pub type Key = (Vec<Vec<u8>>, bool, Vec<u8>);
pub fn comps(p: &[u8]) -> Vec<Vec<u8>> {
    p.split(|c| *c == b'/').filter(|c| !c.is_empty() && *c != b".").map(|c| c.to_vec()).collect()
}
pub fn key(dir: bool, p: &[u8]) -> Key {
    let mut c = comps(p);
    if dir { (c, false, vec![]) } else { let n = c.pop().unwrap(); (c, true, n) }
}
pub fn ccmp(a: &[Vec<u8>], b: &[Vec<u8>]) -> Ordering {
    for (x, y) in a.iter().zip(b.iter()) {
        // a parent component is before every name
        let dd = |c: &[u8]| if c == b".." { 0 } else { 1 };
        let o = dd(x).cmp(&dd(y)).then_with(|| if dd(x) == 0 && dd(y) == 0 { Ordering::Equal } else { x.cmp(y) });
        if o != Ordering::Equal { return o; }
    }
    a.len().cmp(&b.len())
}
pub fn kcmp(a: &Key, b: &Key) -> Ordering { ccmp(&a.0, &b.0).then(a.1.cmp(&b.1)).then_with(|| a.2.cmp(&b.2)) }
pub fn is_name(n: &[u8]) -> bool { !n.is_empty() && n != b"." && n != b".." && !n.contains(&b'/') }
pub fn join(d: &[u8], n: &[u8]) -> Vec<u8> {
    let mut o = d.to_vec();
    if o.last() != Some(&b'/') { o.push(b'/'); }
    o.extend(n);
    o
}
/// first field and the rest; None when there is a space instead of a field
fn field(b: &[u8]) -> Option<(&[u8], &[u8])> {
    if b.first() == Some(&b' ') { return None; }
    match b.iter().position(|c| *c == b' ') { Some(k) => Some((&b[..k], &b[k + 1..])), None => Some((b, &b[b.len()..])) }
}
pub fn number(b: &[u8]) -> Option<u64> {
    let d = if b.first() == Some(&b'+') { &b[1..] } else { b };
    if d.is_empty() || !d.iter().all(|c| c.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for c in d { v = v * 10 + (c - b'0') as u128; if v > u64::MAX as u128 { return None; } }
    Some(v as u64)
}
fn hashes(mut b: &[u8], n: u64) -> Option<(Vec<u8>, &[u8])> {
    let mut o = vec![];
    let mut k = 0;
    while k < n {
        let (f, t) = field(b)?;
        if f.len() != 64 { return None; }
        for p in f.chunks(2) { o.push(hexv(p[0])? * 16 + hexv(p[1])?); }
        b = t;
        k += 1;
    }
    Some((o, b))
}
pub fn row(r: &[u8], dir: &[u8], bs: u64) -> Result<Option<Ent>, ()> {
    if r.first() == Some(&b'/') {
        let (f, t) = field(r).ok_or(())?;
        return if t.is_empty() { Ok(Some(Ent::Dir(unescape(f)))) } else { Err(()) };
    }
    if !r.starts_with(b"  ") { return Ok(None); }
    let (n, t) = field(&r[2..]).ok_or(())?;
    let n = unescape(n);
    if !is_name(&n) || dir.first() != Some(&b'/') { return Err(()); }
    let path = join(dir, &n);
    let (k, t) = field(t).ok_or(())?;
    if k == b"f" || k == b"x" {
        let (s, t) = field(t).ok_or(())?;
        let size = number(s).ok_or(())?;
        let blocks = size / bs + if size % bs != 0 { 1 } else { 0 };
        let (h, t) = hashes(t, blocks).ok_or(())?;
        if !t.is_empty() { return Err(()); }
        Ok(Some(Ent::File { path, exe: k == b"x", size, hashes: h }))
    } else if k == b"s" {
        let (d, t) = field(t).ok_or(())?;
        if !t.is_empty() { return Err(()); }
        Ok(Some(Ent::Link(path, unescape(d))))
    } else { Err(()) }
}
pub fn footer(r: &[u8]) -> Option<Vec<u8>> { match hashes(r, 1) { Some((h, t)) if t.is_empty() => Some(h), _ => None } }

pub fn header(r: &[u8]) -> Option<(Ht, u64)> {
    let s = std::str::from_utf8(r).ok()?;
    let mut t = s.split_whitespace();
    if t.next()? != "DIRSIGNATURE.v1" { return None; }
    let h = t.next()?;
    let ht = HTS.iter().copied().find(|x| x.name() == h)?;
    let b = t.next()?.strip_prefix("block_size=")?;
    let n = number(b.as_bytes())?;
    if n == 0 { None } else { Some((ht, n)) }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Out { Ent(Ent), End, Err }
/// an iterator over the rest of an index after the header
#[derive(Clone)]
pub struct It { pub data: Vec<u8>, pub pos: usize, pub bs: u64, row: Option<Vec<u8>>, dir: Vec<u8>, pub ended: bool, lost: bool,
    /// position at which reading fails (once unless `hard`)
    pub fault: Option<usize>, pub hard: bool }
impl It {
    pub fn new(data: Vec<u8>, bs: u64) -> It { It { data, pos: 0, bs, row: None, dir: vec![], ended: false, lost: false, fault: None, hard: false } }
    fn faulty(&mut self, upto: usize) -> bool {
        match self.fault { Some(p) if p >= self.pos && p <= upto => { if !self.hard { self.fault = None; } true } _ => false }
    }
    fn line(&mut self) -> Option<Vec<u8>> {
        let rest = &self.data[self.pos..];
        let nl = rest.iter().position(|c| *c == 10);
        // the byte at which the line ends; without a newline the end of input is looked for
        let end = self.pos + nl.map(|k| k).unwrap_or(rest.len());
        if let Some(p) = self.fault { if self.faulty(end) { if p > self.pos { self.lost = true; } self.pos = p; return None; } }
        match nl {
            None => { if !self.data[self.pos..].is_empty() { self.lost = true; } self.pos = self.data.len(); None }
            Some(k) => { let l = self.data[self.pos..self.pos + k].to_vec(); self.pos += k + 1; Some(l) }
        }
    }
    /// looks at the next entry; it stays in `row`
    fn step(&mut self) -> Out {
        if self.ended { return Out::End; }
        if self.lost { return Out::Err; }
        if self.row.as_ref().map(|r| r.is_empty()).unwrap_or(true) {
            match self.line() { None => return Out::Err, Some(l) => self.row = Some(l) }
        }
        let r = self.row.clone().unwrap();
        match row(&r, &self.dir, self.bs) {
            Err(()) => Out::Err,
            Ok(Some(e)) => { if let Ent::Dir(p) = &e { self.dir = p.clone(); } Out::Ent(e) }
            Ok(None) => {
                if footer(&r).is_none() { return Out::Err; }
                let p = self.pos;
                if self.faulty(p) { return Out::Err; }
                if self.pos < self.data.len() { self.pos += 1; self.lost = true; return Out::Err; }
                self.ended = true;
                Out::End
            }
        }
    }
    pub fn next(&mut self) -> Out { let o = self.step(); self.row = None; o }
    /// Out::End means that there is no such entry
    pub fn seek(&mut self, k: &Key) -> Out {
        loop {
            match self.step() {
                Out::Err => { self.row = None; return Out::Err; }
                Out::End => return Out::End,
                Out::Ent(e) => match kcmp(&e.key(), k) {
                    Ordering::Less => self.row = None,
                    Ordering::Equal => { self.row = None; return Out::Ent(e); }
                    Ordering::Greater => return Out::End,
                },
            }
        }
    }
}

pub fn header_text(ht: Ht, bs: u64) -> Vec<u8> { format!("DIRSIGNATURE.v1 {} block_size={}\n", ht.name(), bs).into_bytes() }
pub fn row_text(e: &Ent) -> Vec<u8> {
    let name = |p: &[u8]| { let k = p.iter().rposition(|c| *c == b'/').unwrap(); escape(&p[k + 1..]) };
    let mut o = vec![];
    match e {
        Ent::Dir(p) => o.extend(escape(p)),
        Ent::File { path, exe, size, hashes } => {
            o.extend(b"  "); o.extend(name(path)); o.extend(if *exe { b" x " } else { b" f " });
            o.extend(size.to_string().bytes());
            for h in hashes.chunks(32) { o.push(b' '); o.extend(hex(h).bytes()); }
        }
        Ent::Link(p, d) => { o.extend(b"  "); o.extend(name(p)); o.extend(b" s "); o.extend(escape(d)); }
    }
    o.push(10);
    o
}
pub fn body_text(es: &[Ent]) -> Vec<u8> { es.iter().flat_map(|e| row_text(e)).collect() }
pub fn index_text(ht: Ht, bs: u64, es: &[Ent]) -> Vec<u8> {
    let b = body_text(es);
    let mut o = header_text(ht, bs);
    o.extend(&b);
    o.extend(hex(&ht.digest(&b)).bytes());
    o.push(10);
    o
}
