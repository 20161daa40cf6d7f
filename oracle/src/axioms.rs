//! The assumed contracts of contracts/vp.rs, tried against the real library
//! functions. A test of the trusted base, not a proof: it decides no property.
use crate::gen::*;
use crate::model::*;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::ffi::{OsStr, OsString};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

type R = Result<(), String>;
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!("{} does not hold: {}", stringify!($c), format!($($a)*))); } } }

fn path(b: &[u8]) -> &Path { Path::new(OsStr::from_bytes(b)) }
fn some_path(r: &mut Rng) -> Vec<u8> {
    let k = r.below(6);
    let mut o = vec![];
    if !r.chance(4) { o.push(b'/'); }
    for _ in 0..k {
        match r.below(8) { 0 => o.extend(b".."), 1 => o.extend(b"."), 2 => {} _ => o.extend(name(r)) }
        if !r.chance(6) { o.push(b'/'); }
    }
    if r.chance(10) { let n = 1 + r.below(6); o = (0..n).map(|_| *r.pick(b"/.ab\0\xff ")).collect(); }
    o
}
fn is_abs(p: &[u8]) -> bool { p.first() == Some(&b'/') }
// vp.rs: Path and OsStr
fn paths(r: &mut Rng) -> R {
    let (a, b) = (some_path(r), if r.chance(3) { let mut x = some_path(r); if r.chance(2) { x.insert(0, b'/') }; x } else { some_path(r) });
    let (p, q) = (path(&a), path(&b));
    ck!(p.as_os_str().as_bytes() == &a[..], "{:?}", a);
    ck!(p.is_absolute() == is_abs(&a), "{:?}", a);
    // join: of a relative name to a path that is not empty
    let n = name(r);
    if !a.is_empty() { ck!(p.join(path(&n)).as_os_str().as_bytes() == &join(&a, &n)[..], "{:?} {:?}", a, n); }
    ck!(p.to_path_buf().as_os_str().as_bytes() == &a[..], "{:?}", a);
    ck!(PathBuf::from(p).as_os_str().as_bytes() == &a[..], "{:?}", a);
    ck!(PathBuf::new().as_os_str().is_empty(), "");
    ck!(p.to_path_buf().clone().as_os_str().as_bytes() == &a[..], "{:?}", a);
    ck!(OsString::from_vec(a.clone()).as_bytes() == &a[..], "{:?}", a);
    ck!(Cow::Borrowed(p).as_os_str().as_bytes() == &a[..], "{:?}", a);
    if is_abs(&a) {
        let c = comps(&a);
        match p.parent() {
            None => ck!(c.is_empty(), "{:?}", a),
            Some(q) => { let q = q.as_os_str().as_bytes(); ck!(!c.is_empty() && is_abs(q) && comps(q) == c[..c.len() - 1].to_vec(), "{:?}", a) }
        }
        match p.file_name() {
            None => ck!(c.is_empty() || c[c.len() - 1] == b"..", "{:?}", a),
            Some(q) => ck!(!c.is_empty() && c[c.len() - 1] != b".." && q.as_bytes() == &c[c.len() - 1][..], "{:?}", a),
        }
        if is_abs(&b) {
            let o = ccmp(&comps(&a), &comps(&b));
            ck!(p.cmp(q) == o, "{:?} {:?}", a, b);
            ck!((p == q) == (o == Ordering::Equal), "{:?} {:?}", a, b);
        }
    }
    if is_abs(&b) {
        ck!((p.to_path_buf() == *q) == (is_abs(&a) && comps(&a) == comps(&b)), "{:?} {:?}", a, b);
        ck!((&p.to_path_buf() == q) == (is_abs(&a) && comps(&a) == comps(&b)), "{:?} {:?}", a, b);
        ck!((p.to_path_buf() == q.to_path_buf()) == (is_abs(&a) && comps(&a) == comps(&b)), "{:?} {:?}", a, b);
    }
    ck!(OsStr::from_bytes(&a).cmp(OsStr::from_bytes(&b)) == a.cmp(&b), "{:?} {:?}", a, b);
    if let Ok(s) = std::str::from_utf8(&b) { ck!((OsStr::from_bytes(&a) == s) == (a == b), "{:?} {:?}", a, b); }
    Ok(())
}
fn some_text(r: &mut Rng) -> String {
    let n = r.below(12);
    (0..n).map(|_| *r.pick(&[' ', ' ', '.', '=', 'a', 'B', '1', '0', '\t', '\n', '\u{b}', '\u{c}', '\r', '\u{85}', '\u{a0}', '\u{1680}', '\u{2003}', '\u{2028}', '\u{202f}', '\u{205f}', '\u{3000}', '\u{200b}', '\u{1c}', '\u{feff}', 'é', '\u{1f600}'])).collect()
}
// spec.rs is_ws: the White_Space characters
fn is_ws(c: char) -> bool { matches!(c as u32, 0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000) }
fn words(s: &str) -> Vec<String> { s.split(is_ws).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect() }
// vp.rs: strings and slices
fn texts(r: &mut Rng) -> R {
    let s = some_text(r);
    ck!(s.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>() == words(&s), "{:?}", s);
    for c in ['.', '=', ' '] {
        let k = s.bytes().position(|b| b == c as u8).unwrap_or(s.len());
        let v: Vec<&str> = s.splitn(2, c).collect();
        ck!(v[0].as_bytes() == &s.as_bytes()[..k] && v.len() == if k < s.len() { 2 } else { 1 } && (k == s.len() || v[1].as_bytes() == &s.as_bytes()[k + 1..]), "{:?} {:?}", s, c);
    }
    let k = 1 + r.below(5);
    let mut d: Vec<u8> = (0..k * r.below(7)).map(|_| *r.pick(b"0123456789+- _x")).collect();
    if r.chance(2) { d = format!("{}", u64::MAX - r.below(3) as u64).into_bytes(); if r.chance(2) { let k = r.below(d.len()); d[k] = *r.pick(b"0123456789+"); } if r.chance(4) { d.insert(0, *r.pick(b"+0")) } }
    let t = String::from_utf8(d).unwrap();
    ck!(u64::from_str_radix(&t, 10).ok() == number(t.as_bytes()), "{:?}", t);
    let n = r.next() >> r.below(64);
    let dec = format!("{}", n);
    ck!(number(dec.as_bytes()) == Some(n) && dec.bytes().all(|b| b.is_ascii_digit()) && (n == 0 || !dec.starts_with('0')), "{}", n);
    ck!(format!("{:02x}", n as u8).as_bytes() == &[b"0123456789abcdef"[(n as u8 >> 4) as usize], b"0123456789abcdef"[(n as u8 & 15) as usize]][..], "{}", n);
    let k = r.below(9);
    let b: Vec<u8> = if r.chance(2) { r.bytes(k) } else { (0..k).map(|_| *r.pick(b" \n./ab")).collect() };
    match std::str::from_utf8(&b) { Ok(s) => ck!(s.as_bytes() == &b[..], "{:?}", b), Err(_) => ck!(b.iter().any(|x| *x >= 0x80), "{:?}", b) }
    let k = b.iter().position(|x| *x == b' ').unwrap_or(b.len());
    let v: Vec<&[u8]> = b.splitn(2, |x| *x == b' ').collect();
    ck!(v[0] == &b[..k] && v.len() == if k < b.len() { 2 } else { 1 } && (k == b.len() || v[1] == &b[k + 1..]), "{:?}", b);
    let n = 1 + r.below(4);
    let c: Vec<&[u8]> = b.chunks(n).collect();
    ck!(c.len() == (b.len() + n - 1) / n && c.iter().enumerate().all(|(i, x)| *x == &b[i * n..((i + 1) * n).min(b.len())]), "{:?} {}", b, n);
    let m = r.below(4); let p = r.bytes(m);
    ck!(b.starts_with(&p) == (p.len() <= b.len() && b[..p.len()] == p[..]), "{:?} {:?}", b, p);
    ck!(b.ends_with(&p) == (p.len() <= b.len() && b[b.len() - p.len()..] == p[..]), "{:?} {:?}", b, p);
    ck!(b.contains(&0x20) == b.iter().any(|x| *x == 0x20), "{:?}", b);
    Ok(())
}
// vp.rs: Read, BufRead, Write
fn streams(r: &mut Rng) -> R {
    use std::io::BufRead;
    let n = r.below(300);
    let d = r.bytes(n);
    let lim = r.below(320) as u64;
    let mut f = Faulty { d: d.clone(), k: 0, step: 1 + r.below(40), bad: false };
    let mut v = vec![7u8];
    let got = f.by_ref().take(lim).read_to_end(&mut v).unwrap();
    let k = d.len().min(lim as usize);
    ck!(got == k && v[0] == 7 && v[1..] == d[..k] && f.k == k, "{} {}", n, lim);
    let mut f = Faulty { d: d.clone(), k: 0, step: 1 + r.below(40), bad: r.chance(2) };
    let mut w = Sink(vec![], usize::MAX);
    let x = std::io::copy(&mut f.by_ref().take(lim), &mut w);
    match x { Ok(c) => ck!(c as usize == k && w.0 == d[..k] && (!f.bad || k < d.len() || lim as usize == k), "{} {}", n, lim), Err(_) => ck!(f.bad && d.starts_with(&w.0), "{}", n) }
    let mut b = std::io::BufReader::with_capacity(1 + r.below(30), Faulty { d: d.clone(), k: 0, step: 1 + r.below(40), bad: false });
    let mut line = vec![];
    let c = b.read_until(b'\n', &mut line).unwrap();
    let e = d.iter().position(|x| *x == b'\n').map(|x| x + 1).unwrap_or(d.len());
    ck!(c == e && line == d[..e], "{}", n);
    let mut one = vec![0u8; r.below(9)];
    let c = b.read(&mut one).unwrap();
    ck!(c <= one.len() && one[..c] == d[e..e + c] && (c > 0 || one.is_empty() || e == d.len()), "{}", n);
    let m = r.below(320);
    let mut f = Faulty { d: d.clone(), k: 0, step: 1 + r.below(40), bad: false };
    let mut all = vec![0u8; m];
    match f.read_exact(&mut all) { Ok(()) => ck!(m <= n && all == d[..m] && f.k == m, "{} {}", n, m), Err(_) => ck!(m > n, "{} {}", n, m) }
    // what a refused write has written is a prefix
    let cap = r.below(300);
    let mut w = Sink(vec![1], cap);
    match w.write_all(&d) { Ok(()) => ck!(w.0[1..] == d[..], "{}", n), Err(_) => ck!(d.starts_with(&w.0[1..]), "{}", n) }
    let pos = r.below(310) as i64;
    let mut c = std::io::Cursor::new(d.clone());
    use std::io::{Seek, SeekFrom};
    match c.seek(SeekFrom::End(-pos)) { Ok(p) => ck!(pos as usize <= d.len() && p as usize == d.len() - pos as usize, "{} {}", n, pos), Err(_) => ck!(pos as usize > d.len(), "{} {}", n, pos) }
    Ok(())
}
struct Faulty { d: Vec<u8>, k: usize, step: usize, bad: bool }
impl Read for Faulty {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.d.len() - self.k);
        if n == 0 && self.bad && !b.is_empty() { return Err(std::io::ErrorKind::Other.into()); }
        b[..n].copy_from_slice(&self.d[self.k..self.k + n]);
        self.k += n;
        Ok(n)
    }
}
struct Sink(Vec<u8>, usize);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.len() >= self.1 { return Err(std::io::ErrorKind::Other.into()); }
        let n = b.len().min(7).min(self.1 - self.0.len());
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
// vp.rs: the hashers absorb what they are given, in any pieces
fn hashers(r: &mut Rng) -> R {
    use digest::{Digest, FixedOutput, Reset, Update, VariableOutput};
    let n = r.below(400);
    let d = r.bytes(n);
    let cuts = { let mut c = vec![0, n]; for _ in 0..r.below(4) { c.push(r.below(n + 1)); } c.sort(); c };
    let mut s = sha2::Sha512Trunc256::default();
    let mut b = blake2::VarBlake2b::new(32).map_err(|_| "blake2b of 32 bytes".to_string())?;
    let mut k = blake3::Hasher::new();
    for w in cuts.windows(2) {
        Update::update(&mut s, &d[w[0]..w[1]]);
        Update::update(&mut b, &d[w[0]..w[1]]);
        k.update(&d[w[0]..w[1]]);
    }
    let one = sha2::Sha512Trunc256::digest(&d);
    let mut out = digest::generic_array::GenericArray::default();
    s.clone().finalize_into(&mut out);
    ck!(out == one && out.len() == 32, "{}", n);
    s.finalize_into_reset(&mut out);
    ck!(out == one, "{}", n);
    ck!(s.clone().finalize_fixed() == sha2::Sha512Trunc256::digest(b""), "reset {}", n);
    Update::update(&mut s, &d); Reset::reset(&mut s);
    ck!(s.finalize_fixed() == sha2::Sha512Trunc256::digest(b""), "reset {}", n);
    let full = |x: &[u8]| { let mut h = blake2::VarBlake2b::new(32).unwrap(); Update::update(&mut h, x); let mut o = vec![]; h.finalize_variable(|y| o = y.to_vec()); o };
    let mut o = vec![];
    b.finalize_variable_reset(|y| o = y.to_vec());
    ck!(o == full(&d) && o.len() == 32, "{}", n);
    b.finalize_variable_reset(|y| o = y.to_vec());
    ck!(o == full(b""), "{}", n);
    ck!(k.finalize() == blake3::hash(&d) && k.finalize() == k.clone().finalize(), "{}", n);
    ck!(k.finalize().to_hex().as_str() == hex(k.finalize().as_bytes()), "{}", n);
    ck!(blake3::Hasher::new().finalize() == blake3::hash(b""), "");
    Ok(())
}
// vp.rs: sort_by, group_by, heaps of the standard library
fn collections(r: &mut Rng) -> R {
    let n = r.below(9);
    let v: Vec<(Vec<u8>, usize)> = (0..n).map(|i| { let k = r.below(3); ((0..k).map(|_| *r.pick(b"ab\xff")).collect(), i) }).collect();
    for desc in [false, true] {
        let mut w = v.clone();
        w.sort_by(|a, b| if desc { b.0.cmp(&a.0) } else { a.0.cmp(&b.0) });
        for x in w.windows(2) {
            let o = x[0].0.cmp(&x[1].0);
            ck!(o == Ordering::Equal && x[0].1 < x[1].1 || o == if desc { Ordering::Greater } else { Ordering::Less }, "{:?}", v);
        }
        ck!(w.len() == v.len() && v.iter().all(|x| w.contains(x)), "{:?}", v);
    }
    Ok(())
}
// vp.rs: functions that only changed code calls
fn extras(r: &mut Rng) -> R {
    let os = [Ordering::Less, Ordering::Equal, Ordering::Greater];
    for o in os {
        ck!((o.is_eq(), o.is_ne(), o.is_lt(), o.is_gt(), o.is_le(), o.is_ge())
            == (o == Ordering::Equal, o != Ordering::Equal, o == Ordering::Less, o == Ordering::Greater, o != Ordering::Greater, o != Ordering::Less), "{:?}", o);
        ck!(o.reverse() == match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, x => x }, "{:?}", o);
        for p in os {
            let t = if o == Ordering::Equal { p } else { o };
            ck!(o.then(p) == t && o.then_with(|| p) == t, "{:?} {:?}", o, p);
        }
    }
    let n = r.below(5);
    for o in [None, Some(Ok(n)), Some(Err(n))] {
        ck!(o.transpose() == match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }, "{:?}", o);
    }
    for o in [Ok(None), Ok(Some(n)), Err(n)] {
        ck!(o.transpose() == match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }, "{:?}", o);
        ck!(o.and(Ok(7)) == match o { Ok(_) => Ok(7), Err(e) => Err(e) }, "{:?}", o);
        ck!(o.and_then(|x| if x.is_some() { Err(n) } else { Ok(3) }) == match o { Ok(None) => Ok(3), _ => Err(n) }, "{:?}", o);
        ck!(o.or_else(|e| if e == 0 { Ok::<_, usize>(None) } else { Err(e + 1) }) == match o { Ok(x) => Ok(x), Err(0) => Ok(None), Err(e) => Err(e + 1) }, "{:?}", o);
        ck!(o.unwrap_or_else(|e| Some(e + 1)) == match o { Ok(x) => x, Err(e) => Some(e + 1) }, "{:?}", o);
    }
    for o in [None, Some(n)] {
        ck!(o.map_or(9, |x| x + 1) == match o { Some(x) => x + 1, None => 9 }, "{:?}", o);
        ck!(o.map_or_else(|| 9, |x| x + 1) == match o { Some(x) => x + 1, None => 9 }, "{:?}", o);
        ck!(o.is_some_and(|x| x > 2) == matches!(o, Some(x) if x > 2) && o.is_none_or(|x| x > 2) == (o.is_none() || n > 2), "{:?}", o);
        ck!(o.as_ref().copied() == o && o.or(Some(8)) == if o.is_some() { o } else { Some(8) }, "{:?}", o);
        ck!(o.or_else(|| Some(8)) == if o.is_some() { o } else { Some(8) }, "{:?}", o);
        ck!(o.filter(|x| *x > 2) == match o { Some(x) if x > 2 => Some(x), _ => None }, "{:?}", o);
        let mut m = o;
        ck!(m.replace(5) == o && m == Some(5), "{:?}", o);
        let mut m = o;
        ck!(std::mem::replace(&mut m, Some(6)) == o && m == Some(6), "{:?}", o);
    }
    ck!(true.then_some(n) == Some(n) && false.then_some(n) == None, "");
    for c in 0..=255u8 {
        ck!(c.is_ascii_digit() == (0x30 <= c && c <= 0x39), "{}", c);
        ck!(c.is_ascii_hexdigit() == (matches!(c, 0x30..=0x39 | 0x41..=0x46 | 0x61..=0x66)), "{}", c);
        ck!(c.is_ascii_graphic() == (0x21 <= c && c <= 0x7e) && c.is_ascii_control() == (c < 0x20 || c == 0x7f), "{}", c);
        ck!(c.is_ascii_whitespace() == matches!(c, 0x20 | 9 | 10 | 12 | 13), "{}", c);
        ck!(c.is_ascii_lowercase() == (0x61 <= c && c <= 0x7a) && c.is_ascii_uppercase() == (0x41 <= c && c <= 0x5a), "{}", c);
    }
    let (a, b) = (r.next() >> r.below(64), (r.next() >> r.below(64)).max(1));
    ck!(a.div_ceil(b) as u128 == (a / b) as u128 + (a % b > 0) as u128, "{} {}", a, b);
    let w = a as u128 + b as u128;
    ck!(a.overflowing_add(b) == (w as u64, w >> 64 != 0), "{} {}", a, b);
    let v: Vec<u64> = (0..n as u64).collect();
    ck!(v.to_vec() == v && v.split_last() == if v.is_empty() { None } else { Some((&v[v.len() - 1], &v[..v.len() - 1])) }, "{:?}", v);
    let d: std::collections::VecDeque<u64> = v.iter().cloned().collect();
    ck!(d.is_empty() == v.is_empty() && d.front() == v.first() && d.back() == v.last(), "{:?}", v);
    Ok(())
}
pub fn case(r: &mut Rng) -> Result<Vec<String>, String> {
    paths(r)?;
    texts(r)?;
    streams(r)?;
    hashers(r)?;
    collections(r)?;
    extras(r)?;
    Ok(vec![])
}
