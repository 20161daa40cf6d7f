//! Directory trees in a scratch directory and what a scan of them has to write
use crate::gen::*;
use crate::model::*;
use std::ffi::{CString, OsStr};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::PermissionsExt;
use std::path::{Path, PathBuf};

pub const BS: usize = 32768;

#[derive(Clone, Debug)]
pub enum Node { Dir(Vec<(Vec<u8>, Node)>), File(Vec<u8>, u32), Link(Vec<u8>), Fifo }

pub struct Scratch(pub PathBuf);
static SEQ: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
impl Scratch {
    pub fn new() -> Scratch {
        let k = SEQ.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let p = std::env::temp_dir().join(format!("t{}-{}", std::process::id(), k));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
fn open_up(p: &Path) {
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o700));
    if let Ok(rd) = std::fs::read_dir(p) {
        for e in rd.flatten() { if e.file_type().map(|t| t.is_dir()).unwrap_or(false) { open_up(&e.path()); } }
    }
}
impl Drop for Scratch { fn drop(&mut self) { open_up(&self.0); let _ = std::fs::remove_dir_all(&self.0); } }

pub fn content(r: &mut Rng, big: bool) -> Vec<u8> {
    let n = if big { *r.pick(&[0, 1, 2, BS - 1, BS, BS + 1, 2 * BS - 1, 2 * BS, 2 * BS + 1, 3 * BS, 3 * BS + 7, 5 * BS]) } else { *r.pick(&[0, 1, 5, 40]) };
    let mut v = vec![0u8; n];
    if !r.chance(4) { let x = r.next(); for (i, c) in v.iter_mut().enumerate() { *c = (x >> (8 * (i % 8))) as u8 ^ (i / BS) as u8 ^ (i as u8); } }
    v
}
pub fn tree(r: &mut Rng, depth: usize, big: bool, many: bool) -> Vec<(Vec<u8>, Node)> {
    let mut v: Vec<(Vec<u8>, Node)> = vec![];
    let n = if many { 60 + r.below(60) } else { r.below(7) };
    for i in 0..n {
        let nm = if many { format!("n{}", (i * 37) % 101).into_bytes() } else { fs_name(r) };
        if v.iter().any(|x| x.0 == nm) { continue; }
        let k = r.below(10);
        let node = if k < 3 && depth > 0 { let m = false; Node::Dir(tree(r, depth - 1, big, m)) }
            else if k == 3 { Node::Link(dest(r).into_iter().map(|c| if c == 0 { 1 } else { c }).collect()) }
            else if k == 4 && r.chance(3) { Node::Fifo }
            else { let mode = *r.pick(&[0o644, 0o755, 0o600, 0o400, 0o700, 0o654, 0o645, 0o500, 0o641, 0o614]); let b = big && r.chance(2); Node::File(content(r, b), mode) };
        v.push((nm, node));
    }
    // listing order follows creation order on some file systems
    for i in (1..v.len()).rev() { let j = r.below(i + 1); v.swap(i, j); }
    v
}
pub fn build(p: &Path, t: &[(Vec<u8>, Node)]) {
    for (n, x) in t {
        let q = p.join(OsStr::from_bytes(n));
        match x {
            Node::Dir(s) => { std::fs::create_dir(&q).unwrap_or_else(|e| panic!("{:?}: {}", q, e)); build(&q, s); }
            Node::File(c, m) => { std::fs::write(&q, c).unwrap(); std::fs::set_permissions(&q, std::fs::Permissions::from_mode(*m)).unwrap(); }
            Node::Link(d) => std::os::unix::fs::symlink(OsStr::from_bytes(d), &q).unwrap(),
            Node::Fifo => { let c = CString::new(q.as_os_str().as_bytes()).unwrap(); unsafe { assert!(libc::mkfifo(c.as_ptr(), 0o600) == 0) } }
        }
    }
}
/// the entries in index order; a file's content instead of its hashes
pub fn walk(path: &[u8], t: &[(Vec<u8>, Node)], out: &mut Vec<(Ent, Vec<u8>)>) {
    out.push((Ent::Dir(path.to_vec()), vec![]));
    let mut t: Vec<&(Vec<u8>, Node)> = t.iter().collect();
    t.sort_by(|a, b| a.0.cmp(&b.0));
    for (n, x) in t.iter().map(|x| (&x.0, &x.1)) {
        match x {
            Node::File(c, m) => out.push((Ent::File { path: join(path, n), exe: m & 0o100 != 0, size: c.len() as u64, hashes: vec![] }, c.clone())),
            Node::Link(d) => out.push((Ent::Link(join(path, n), d.clone()), vec![])),
            _ => {}
        }
    }
    for (n, x) in t.iter().map(|x| (&x.0, &x.1)) { if let Node::Dir(s) = x { walk(&join(path, n), s, out); } }
}
/// how the hash state is carried over: not at all, within a file, over all files
#[derive(Clone, Copy, PartialEq)]
pub enum Carry { No, File, All }
pub fn with_hashes(w: &[(Ent, Vec<u8>)], ht: Ht, c: Carry) -> Vec<Ent> {
    let mut acc: Vec<u8> = vec![];
    w.iter().map(|(e, data)| match e {
        Ent::File { path, exe, size, .. } => {
            let mut hashes = vec![];
            if c != Carry::All { acc.clear(); }
            for b in data.chunks(BS) {
                if c == Carry::No { acc.clear(); }
                acc.extend(b);
                hashes.extend(ht.digest(&acc));
            }
            Ent::File { path: path.clone(), exe: *exe, size: *size, hashes }
        }
        e => e.clone(),
    }).collect()
}
