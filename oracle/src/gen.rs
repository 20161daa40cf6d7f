//! Generators and faulty readers and writers
use crate::model::*;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
}

pub fn name(r: &mut Rng) -> Vec<u8> {
    loop {
        let n: Vec<u8> = match r.below(10) {
            0..=3 => r.pick(&[&b"a"[..], b"b", b"c", b"a-b", b"a b", b"ab", b"a.txt", b"A", b"...", b".a", b"a0", b"z", b"..a", b"a\\x41", b"\\", b"\\x", b"\\x4", b"\\x4g", b"\\X41", b"x", b"f", b"s", b"0"]).to_vec(),
            4..=5 => { let k = 1 + r.below(6); let al = b"ab\\x4 1fF.-\n\t\x7f\xff\x80\x00\x20\x21~"; (0..k).map(|_| *r.pick(al)).collect() }
            6 => { let k = 1 + r.below(3); r.bytes(k) }
            7 => vec![r.next() as u8],
            8 => { let k = 1 + r.below(12); r.bytes(k) }
            _ => { let k = r.below(3); let mut v = r.bytes(k); v.extend(b"\\x"); v.extend(r.pick(&[&b"4"[..], b"41", b"fF", b"g0", b"0g", b"", b"5c"]).iter()); v }
        };
        let n: Vec<u8> = n.into_iter().map(|c| if c == b'/' { b'_' } else { c }).collect();
        if is_name(&n) { return n; }
    }
}
pub fn fs_name(r: &mut Rng) -> Vec<u8> { loop { let n = name(r); if !n.contains(&0) && n.len() < 40 { return n; } } }
pub fn block_size(r: &mut Rng) -> u64 {
    *r.pick(&[1, 2, 3, 7, 16, 32, 100, 4096, 32768, 65536, 1 << 32, u64::MAX / 2, u64::MAX - 1, u64::MAX])
}
pub fn dest(r: &mut Rng) -> Vec<u8> {
    let k = 1 + r.below(3);
    let mut o = if r.chance(3) { b"/".to_vec() } else { vec![] };
    for i in 0..k { if i > 0 { o.push(b'/'); if r.chance(8) { o.push(b'/'); } } match r.below(12) { 0 | 1 => o.extend(b".."), 2 => o.push(b'.'), _ => o.extend(name(r)) } }
    if r.chance(8) { o.push(b'/'); }
    if r.chance(10) { let k = 1 + r.below(3); o = r.bytes(k); }
    o
}
pub fn file(r: &mut Rng, path: Vec<u8>, bs: u64) -> Ent {
    let n = if r.chance(8) { r.below(40) as u64 } else { r.below(5) as u64 };
    let size = if n == 0 { 0 } else {
        // the last block is from 1 to bs bytes long
        let full = match (n - 1).checked_mul(bs) { Some(x) if x < u64::MAX => x, _ => 0 };
        let rest = (u64::MAX - full).min(bs);
        let last = match r.below(4) { 0 => 1, 1 => rest, 2 => rest.max(2) - 1, _ => 1 + r.next() % rest };
        full + last.max(1)
    };
    let blocks = size / bs + if size % bs != 0 { 1 } else { 0 };
    Ent::File { path, exe: r.chance(2), size, hashes: r.bytes(blocks as usize * 32) }
}
fn dirs(r: &mut Rng) -> Vec<Vec<Vec<u8>>> {
    let mut v = vec![];
    if !r.chance(8) { v.push(vec![]); }
    for _ in 0..r.below(5) {
        let mut c = if v.is_empty() || r.chance(3) { vec![] } else { r.pick(&v).clone() };
        c.push(name(r));
        if r.chance(4) { c.push(name(r)); }
        v.push(c);
    }
    v
}
pub fn abs(c: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; for x in c { o.push(b'/'); o.extend(x); } if o.is_empty() { o.push(b'/'); } o }
/// a sorted list of entries
pub fn entries(r: &mut Rng, bs: u64) -> Vec<Ent> {
    let mut es = vec![];
    for d in dirs(r) {
        let p = abs(&d);
        for _ in 0..r.below(5) {
            let n = join(&p, &name(r));
            es.push(if r.chance(4) { Ent::Link(n, dest(r)) } else { file(r, n, bs) });
        }
        es.push(Ent::Dir(p));
    }
    es.sort_by(|a, b| kcmp(&a.key(), &b.key()));
    es.dedup_by(|a, b| a.key() == b.key());
    es
}
/// a sorted list which shares entries with `o`
pub fn overlap(r: &mut Rng, bs: u64, o: &[Ent]) -> Vec<Ent> {
    let mut es = entries(r, bs);
    for e in o { if r.chance(2) { let mut e = e.clone(); if let Ent::File { exe, .. } = &mut e { *exe = r.chance(2); } es.push(e); } }
    // keep the directory of every file
    let mut ds = vec![];
    for e in &es { if !e.is_dir() { ds.push(Ent::Dir(abs(&e.key().0))); } }
    es.extend(ds);
    es.sort_by(|a, b| kcmp(&a.key(), &b.key()));
    es.dedup_by(|a, b| a.key() == b.key());
    es
}
/// damages the text of an index
pub fn mutate(r: &mut Rng, t: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        if t.is_empty() { return; }
        let k = r.below(t.len());
        match r.below(13) {
            0 => t[k] = r.next() as u8,
            1 => { t.remove(k); }
            2 => { let c = *r.pick(b" \n/\\x0f\x80\xff+-.="); t.insert(k, c); }
            3 => t.truncate(k),
            4 => t.extend(r.pick(&[&b"\n"[..], b" ", b"x", b"/\n", b"/a\n  f f 0\n"]).iter()),
            5 | 6 => { // numbers
                let ds: Vec<usize> = (0..t.len()).filter(|i| t[*i].is_ascii_digit() && (*i == 0 || t[*i - 1] == b' ' || t[*i - 1] == b'=')).collect();
                if !ds.is_empty() {
                    let s = *r.pick(&ds);
                    let mut e = s; while e < t.len() && t[e].is_ascii_digit() { e += 1; }
                    let v = r.pick(&["0", "1", "18446744073709551615", "18446744073709551616", "9223372036854775808", "99999999999999999999", "+5", "-1", "", "00", "4294967296", "1e3", "576460752303423488"]).to_string();
                    t.splice(s..e, v.bytes());
                }
            }
            7 => { // drop, double or swap rows
                let mut ls: Vec<Vec<u8>> = t.split_inclusive(|c| *c == 10).map(|x| x.to_vec()).collect();
                let a = r.below(ls.len()); let b = r.below(ls.len());
                match r.below(3) { 0 => { ls.remove(a); } 1 => { let x = ls[a].clone(); ls.insert(b, x); } _ => ls.swap(a, b) }
                *t = ls.concat();
            }
            8 => { // rows made by hand
                let h = "00112233445566778899AABBCCDDEEFF00112233445566778899aabbccddeeff";
                let s = r.pick(&["  f f\n", "  f f \n", "  f\n", "  \n", " \n", "\n", "  f s\n", "  f s a b\n", "   f f 0\n", "  f x 1 12\n", "/ a\n", "/a \n", "  .. f 0\n", "  . f 0\n",
                    "  /a f 0\n", "  a/b f 0\n", "  a/ f 0\n", "  a\\x2fb f 0\n", "  \\x2e\\x2e f 0\n", "  f f 18446744073709551615\n", "  f y 0\n", "  f fx 0\n", "  s s t\n", "  f f 0 \n", "  f f 0  \n", "  f f  0\n",
                    "//\n", "/\\x\n", "  f f 1 @\n", "  f f 1 @ \n", "  f f 1 @ @\n", "  f f 2 @\n", "@\n", "@ \n", " @\n", "@ @\n", "@0\n", "  f f 0 @\n", "a\n", "./a\n", "\\x2fa\n", "f f 0\n", " f f 0\n"]).replace('@', h);
                let at = t.iter().position(|c| *c == 10).map(|x| x + 1).unwrap_or(0);
                let nls: Vec<usize> = (at..t.len()).filter(|i| *i > 0 && t[*i - 1] == 10).collect();
                let p = if nls.is_empty() { t.len() } else { *r.pick(&nls) };
                t.splice(p..p, s.bytes());
            }
            9 => { if t[k].is_ascii_lowercase() { t[k] = t[k].to_ascii_uppercase(); } }
            10 => { if t.last() == Some(&10) { t.pop(); } }
            11 => { // damage a hash
                let hs: Vec<usize> = (0..t.len().saturating_sub(64)).filter(|i| t[*i..*i + 64].iter().all(|c| c.is_ascii_hexdigit())).collect();
                if !hs.is_empty() { let p = *r.pick(&hs) + r.below(64); if r.chance(2) { t[p] = *r.pick(b"g/:@G`G. "); } else { t.remove(p); } }
            }
            _ => { // damage the header
                let n = t.iter().position(|c| *c == 10).unwrap_or(t.len());
                let h = r.pick(&["DIRSIGNATURE.v1 sha512/256 block_size=0", "DIRSIGNATURE.v1 sha512/256 block_size=-1", "DIRSIGNATURE.v1 sha512/256 block_size=", "DIRSIGNATURE.v1 sha512/256 block_size",
                    "DIRSIGNATURE.v1 sha512/256 block_siz=1", "DIRSIGNATURE.v1 sha512/256 1", "DIRSIGNATURE.v1 sha512/256", "DIRSIGNATURE.v1 sha512 block_size=1", "DIRSIGNATURE.v1 blake2b/512 block_size=1", "DIRSIGNATURE.v1 SHA512/256 block_size=1", "DIRSIGNATURE.v1",
                    "DIRSIGNATURE.v2 sha512/256 block_size=1", "DIRSIGNATURE. sha512/256 block_size=1", "DIRSIGNATURE sha512/256 block_size=1", "DIRSIGNATURE.v1.1 sha512/256 block_size=1", "", " ", "DIRSIGNATUR.v1 sha512/256 block_size=1",
                    "DIRSIGNATURE.v1  blake3/256\tblock_size=1", " DIRSIGNATURE.v1 blake3/256 block_size=1 ", "DIRSIGNATURE.v1 blake3/256 block_size=1=1", "DIRSIGNATURE.v1 blake3/256 block_size=+1", "DIRSIGNATURE.v1 blake3/256 block_size=18446744073709551616",
                    "DIRSIGNATURE.v1 blake2b/256 block_size=18446744073709551615", "DIRSIGNATURE.v1 blake2b/256 x=1 block_size=1", "DIRSIGNATURE.v1 blake2b/256 block_size=1 x=1", "DIRSIGNATURE.v1 blake3 block_size=1", "DIRSIGNATURE.v1 blake3/256 block_size=0x10", "DIRSIGNATURE.v1 blake2s/256 block_size=7"]);
                t.splice(0..n, h.bytes());
            }
        }
    }
}

/// A reader that delivers its data in odd pieces and may fail at one position
pub struct Odd { pub data: Vec<u8>, pub pos: usize, pub fault: Option<usize>, pub hard: bool, pub intr: bool, rng: Rng, cur: usize, last_intr: bool }
impl Odd {
    pub fn new(data: Vec<u8>, seed: u64) -> Odd { Odd { data, pos: 0, fault: None, hard: false, intr: false, rng: Rng(seed), cur: 0, last_intr: false } }
    fn limit(&mut self) -> io::Result<usize> {
        if self.intr && !self.last_intr && self.rng.chance(4) { self.last_intr = true; return Err(io::ErrorKind::Interrupted.into()); }
        self.last_intr = false;
        if self.fault == Some(self.pos) { if !self.hard { self.fault = None; } return Err(io::Error::new(io::ErrorKind::Other, "injected")); }
        let n = match self.fault { Some(p) if p > self.pos => p, _ => self.data.len() };
        Ok(n.min(self.data.len()).saturating_sub(self.pos))
    }
}
impl Read for Odd {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        let n = if self.cur > 0 { self.cur } else { self.limit()? };
        let n = n.min(b.len());
        let n = if n > 1 && self.rng.chance(2) { 1 + self.rng.below(n) } else { n };
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.cur = self.cur.saturating_sub(n);
        Ok(n)
    }
}
impl BufRead for Odd {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.cur == 0 {
            let n = self.limit()?;
            self.cur = if n > 1 && self.rng.chance(2) { 1 + self.rng.below(n) } else { n };
        }
        Ok(&self.data[self.pos..self.pos + self.cur])
    }
    fn consume(&mut self, n: usize) { self.pos += n; self.cur -= n; }
}
impl Seek for Odd {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s { SeekFrom::Start(x) => x as i64, SeekFrom::End(x) => self.data.len() as i64 + x, SeekFrom::Current(x) => self.pos as i64 + x };
        if p < 0 { return Err(io::ErrorKind::InvalidInput.into()); }
        self.pos = p as usize;
        self.cur = 0;
        Ok(p as u64)
    }
}

/// A writer that takes odd pieces and may fail
pub struct OddW { pub out: Vec<u8>, pub unflushed: bool, pub fault: Option<usize>, pub zero: bool, pub flush_fails: bool, pub intr: bool, pub odd: bool, pub failed: bool, pub hard: bool, rng: Rng }
impl OddW {
    pub fn new(seed: u64) -> OddW { OddW { out: vec![], unflushed: false, fault: None, zero: false, flush_fails: false, intr: false, odd: true, failed: false, hard: true, rng: Rng(seed) } }
}
impl Write for OddW {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.intr && self.rng.chance(5) { return Err(io::ErrorKind::Interrupted.into()); }
        let mut n = b.len();
        if let Some(p) = self.fault {
            if self.out.len() >= p && (self.hard || !self.failed) {
                self.failed = true;
                if self.zero { return Ok(0); }
                return Err(io::Error::new(io::ErrorKind::Other, "injected"));
            }
            if p > self.out.len() { n = n.min(p - self.out.len()); }
        }
        if self.odd && n > 1 && self.rng.chance(2) { n = 1 + self.rng.below(n); }
        self.out.extend_from_slice(&b[..n]);
        self.unflushed = true;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush_fails { self.failed = true; return Err(io::Error::new(io::ErrorKind::Other, "injected flush")); }
        self.unflushed = false;
        Ok(())
    }
}
