DEMO_TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
dir-signature = { path = "@REPO@" }
sha2 = "0.9.8"
digest = "0.9.0"
[[bin]]
name = "demo"
path = "demo.rs"
'''
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cp "$D/demo.rs" "$T/demo.rs"; sed "s|@REPO@|$R|" "$D/Cargo.toml.in" > "$T/Cargo.toml"
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true RUSTFLAGS=
export CARGO_TARGET_DIR="${DEMO_TARGET:-$T/target}"
mkdir "$T/scratch"
cd "$T" && cargo build -q --offline && cd "$T/scratch" && timeout 60 "$CARGO_TARGET_DIR/debug/demo"
'''
PRE = r'''
#![allow(dead_code, unused_imports)]
use dir_signature::v1::{self, merge::MergedSignatures, Emitter, Entry, EntryKind, Hashes, Parser};
use dir_signature::{get_hash, HashType, ScannerConfig};
use std::io::{self, BufReader, Cursor, Read, Write};
use std::path::{Path, PathBuf};
use std::ffi::OsStr;
use std::os::unix::ffi::OsStrExt;
const HEAD: &str = "DIRSIGNATURE.v1 sha512/256 block_size=32768\n";
const H0: &str = "8dd499a36d950b8732f85a3bffbc8d8bee4a0af391e8ee2bb0aa0c4553b6c0fc";
fn sha(b: &[u8]) -> String { use digest::Digest; sha2::Sha512Trunc256::digest(b).iter().map(|x| format!("{:02x}", x)).collect() }
fn index(body: &str) -> Vec<u8> { format!("{}{}{}\n", HEAD, body, sha(body.as_bytes())).into_bytes() }
fn parser(b: &[u8]) -> Parser<Cursor<Vec<u8>>> { Parser::new(Cursor::new(b.to_vec())).unwrap() }
fn emit(f: impl Fn(&mut Emitter<'_>) -> io::Result<()>) -> Vec<u8> {
    let mut v = Vec::new();
    { let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut v).unwrap(); f(&mut e).unwrap(); e.finish().unwrap(); }
    v
}
fn scan(dir: &Path, threads: usize) -> Vec<u8> {
    let mut c = ScannerConfig::new(); c.add_dir(dir, "/"); c.threads(threads);
    let mut v = Vec::new(); v1::scan(&c, &mut v).unwrap(); v
}
fn no_hashes() -> Hashes { Hashes::hash_file(HashType::sha512_256(), 32768, &b""[..]).unwrap().1 }
fn hashes(b: &[u8]) -> Hashes { Hashes::hash_file(HashType::sha512_256(), 32768, b).unwrap().1 }
/// accepts at most n bytes per call
struct Slow(Vec<u8>, usize);
impl Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.1); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// footer matches the body
fn footer_ok(b: &[u8]) -> bool {
    let t = std::str::from_utf8(b).unwrap(); let h = t.find('\n').unwrap() + 1;
    t.len() >= h + 65 && t[t.len() - 65..] == format!("{}\n", sha(t[h..t.len() - 65].as_bytes()))
}
'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=PRE + demo))

seed('p01-del-unescaped', 'P01', 'a name with the byte 0x7f', 'the byte 0x7f is written raw instead of as \\x7f',
 [('v1/writer.rs', "b >= 0x7F ||", "b > 0x7F ||")], r'''
fn main() {
    let v = emit(|e| e.start_dir(Path::new(OsStr::from_bytes(b"/a\x7fb"))));
    assert!(v.iter().all(|&c| c == b'\n' || (c >= 0x20 && c < 0x7f)));
    let t = String::from_utf8(v).unwrap();
    assert!(t.contains("/a\\x7fb\n"), "{}", t);
}''')
seed('p03-empty-footer-hex', 'P03', 'a footer of odd length', 'a hash with an odd number of digits makes the parser panic',
 [('v1/parser.rs', "if hash.len() != hash_len {", "if hash.len() + 1 < hash_len || hash.len() > hash_len {")], r'''
fn main() {
    let v = format!("{}/\n{}\n", HEAD, &H0[..63]);
    let mut p = parser(v.as_bytes());
    let r: Vec<_> = p.iter().take(2).map(|x| x.is_ok()).collect();
    assert_eq!(r, [true, false]);
}''')
seed('p04-footer-tail', 'P04', 'data after the footer digest on the footer line', 'a footer line with trailing text is accepted',
 [('v1/parser.rs', """        if !tail.is_empty() {
            return Err(ParseRowError::InvalidLine(
                format!("Footer is not fully consumed: {:?}",""", """        if tail.starts_with(b" ") {
            return Err(ParseRowError::InvalidLine(
                format!("Footer is not fully consumed: {:?}",""")], r'''
fn main() {
    let v = format!("{}/\n{} {}\n", HEAD, H0, H0);
    let mut p = parser(v.as_bytes()); let mut it = p.iter();
    it.next().unwrap().unwrap();
    assert!(it.next().unwrap().is_err());
}''')
seed('p06-byte-order-dirs', 'P06', 'directories one of which has a name that extends another with a byte below the slash', 'directories are compared by bytes and not by components',
 [('v1/parser.rs', "                        path.cmp(other_path)\n", "                        path.as_os_str().cmp(other_path.as_os_str())\n")], r'''
fn main() {
    use std::cmp::Ordering::*;
    assert_eq!(EntryKind::Dir("/a/b").cmp(&EntryKind::Dir("/a-b")), Less);
    assert_eq!(EntryKind::Dir("/a-b").cmp(&EntryKind::Dir("/a/b")), Greater);
}''')
seed('p06-file-lossy', 'P06', 'two files whose names are not UTF-8', 'files are compared by the lossy text of their names',
 [('v1/parser.rs', """                                path.file_name()
                                    .expect("Empty file name")
                                    .cmp(&other_path.as_ref().file_name()
                                         .expect("Empty file name"))""", """                                path.file_name()
                                    .expect("Empty file name")
                                    .to_string_lossy()
                                    .cmp(&other_path.as_ref().file_name()
                                         .expect("Empty file name").to_string_lossy())""")], r'''
fn main() {
    let f = |b: &'static [u8]| EntryKind::File(Path::new(OsStr::from_bytes(b)));
    assert_eq!(f(b"/a/\xff").cmp(&f(b"/a/\xfe")), std::cmp::Ordering::Greater);
}''')
seed('p07-missing-consumes', 'P07', 'a seek to a missing entry followed by a step', 'the entry that stopped a seek for a missing directory is lost',
 [('v1/parser.rs', """                        Greater => {
                            return None;
                        },
                        Equal => {
                            self""", """                        Greater => {
                            if let EntryKind::Dir(_) = *kind {
                                if let Entry::Link(..) = entry {
                                    self.current_row.clear();
                                }
                            }
                            return None;
                        },
                        Equal => {
                            self""")], r'''
fn main() {
    let v = index("/\n/d\n  x s y\n  z s y\n");
    let mut p = parser(&v); let mut it = p.iter();
    it.next().unwrap().unwrap(); it.next().unwrap().unwrap();
    assert!(it.advance(&EntryKind::Dir("/c")).is_none());
    assert_eq!(it.next().unwrap().unwrap().path(), Path::new("/d/x"));
}''')
seed('p08-seek-error-dropped', 'P08', 'a merged seek when the peeked entry of one index is an error', 'the error of an index is not returned by a merged seek',
 [('v1/merge.rs', "            Some(&Err(_)) => Equal,\n", "            Some(&Err(_)) => Less,\n")], r'''
fn main() {
    let a = index("/\n  a s b\n"); let b = b"DIRSIGNATURE.v1 sha512/256 block_size=32768\nbad\n/\n  a s b\n".to_vec();
    let mut m = MergedSignatures::new(vec![(0, parser(&a)), (1, parser(&b))]).unwrap();
    let mut it = m.iter();
    let r = it.advance(&EntryKind::File("/a"));
    assert_eq!(r.iter().map(|x| (*x.0, x.1.is_ok())).collect::<Vec<_>>(), [(0, true), (1, false)]);
}''')
seed('p09-block-size-pairs', 'P09', 'three indexes in which only the last differs in block size, after an even number of equal ones', 'a mismatch in the last index is not seen',
 [('v1/merge.rs', "    iter.all(|v| v == first)\n", "    iter.take(255).all(|v| v == first)\n")], r'''
fn main() {
    let a = index("/\n"); let b = b"DIRSIGNATURE.v1 sha512/256 block_size=1024\n/\n".to_vec();
    for n in &[1usize, 2, 3, 10, 255, 256, 300] {
        let mut v: Vec<_> = (0..*n).map(|i| (i, parser(&a))).collect();
        v.push((*n, parser(&b)));
        assert!(MergedSignatures::new(v).is_err());
    }
}''')
seed('p09-order-of-checks', 'P09', 'indexes that differ in both hash type and block size', 'block sizes are checked before hash types',
 [('v1/merge.rs', """        if !check_same(&hash_types) {
            return Err(MergeError::HashTypesMismatch(hash_types));
        }
        let""", """        let"""),
  ('v1/merge.rs', """            return Err(MergeError::BlockSizesMismatch(block_sizes));
        }
""", """            return Err(MergeError::BlockSizesMismatch(block_sizes));
        }
        if !check_same(&hash_types) {
            return Err(MergeError::HashTypesMismatch(hash_types));
        }
""")], r'''
fn main() {
    let a = index("/\n"); let b = b"DIRSIGNATURE.v1 blake3/256 block_size=1024\n/\n".to_vec();
    match MergedSignatures::new(vec![(0, parser(&a)), (1, parser(&b))]) {
        Err(v1::merge::MergeError::HashTypesMismatch(_)) => {}
        _ => panic!("hash types are not checked first"),
    }
}''')
seed('p10-sync-partial', 'P10', 'an output of a scan that accepts data in pieces', 'bytes that were not accepted are hashed, and hashed again when they are retried',
 [('v1/writer.rs', "self.digest.update(&buf[..n]);", "self.digest.update(if n > 16 { &buf[..n] } else { buf });")], r'''
fn main() {
    std::fs::write("file-with-a-long-name.txt", b"hello").unwrap();
    let mut c = ScannerConfig::new(); c.add_dir(".", "/");
    for n in 1..100 {
        let mut s = Slow(vec![], n);
        v1::scan(&c, &mut s).unwrap();
        assert!(footer_ok(&s.0));
    }
}''')
seed('p10-emitter-partial', 'P10', 'an output of an emitter that accepts data in pieces', 'bytes that were not accepted are hashed, and hashed again when they are retried',
 [('v1/emitter.rs', "self.hash.input(&buf[..n]);", "self.hash.input(buf);")], r'''
fn main() {
    for n in 1..20 {
        let mut s = Slow(vec![], n);
        { let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut s).unwrap();
          e.start_dir(Path::new("/")).unwrap(); e.add_symlink(OsStr::new("some-link"), Path::new("some/where")).unwrap(); e.finish().unwrap(); }
        assert!(footer_ok(&s.0), "{}", n);
    }
}''')
seed('p11-exe-mask', 'P11', 'a file executable by others but not by its owner', 'x is written for a file that only its group may execute',
 [('v1/writer.rs', "pub(crate) const EXE_MASK: u32 = 0o100;", "pub(crate) const EXE_MASK: u32 = 0o110;")], r'''
use std::os::unix::fs::PermissionsExt;
fn main() {
    std::fs::write("f", b"hello").unwrap();
    std::fs::set_permissions("f", std::fs::Permissions::from_mode(0o654)).unwrap();
    let t = String::from_utf8(scan(Path::new("."), 0)).unwrap();
    assert!(t.contains("\n  f f 5 "), "{}", t);
}''')
seed('p11-threaded-block', 'P11', 'a file of more than one block hashed by threads', 'the number of hashes of a file whose size is a multiple of the block size is off by one with threads',
 [('v1/threaded_writer.rs', "                n = n.saturating_sub(block_size);", "                if n <= block_size && n < 65536 { break; }\n                n = n.saturating_sub(block_size - 1);")], r'''
fn main() {
    for n in &[0usize, 1, 32767, 32768, 32769, 65536, 65537, 98304, 131072, 98304 + 5] {
        std::fs::write("f", vec![7u8; *n]).unwrap();
        let v = scan(Path::new("."), 3);
        let mut p = parser(&v);
        let e: Vec<_> = p.iter().collect::<Result<Vec<_>, _>>().unwrap();
        assert_eq!(e.len(), 2);
    }
}''')
seed('p12-requeue-at-end', 'P12', 'a large file that is still being hashed when the queue becomes full', 'a file that is not hashed yet when the queue is almost full goes to the end of the queue',
 [('v1/threaded_writer.rs', "self.queue.push_front(Operation::File(fut));", "if self.queue.len() + 1 == self.queue_limit {\n                                    self.queue.push_back(Operation::File(fut));\n                                } else {\n                                    self.queue.push_front(Operation::File(fut));\n                                }")], r'''
fn main() {
    std::fs::write("a", vec![1u8; 30_000_000]).unwrap();
    for i in 0..200 { std::fs::write(format!("b{:03}", i), b"x").unwrap(); }
    assert!(scan(Path::new("."), 0) == scan(Path::new("."), 2));
}''')
seed('p13-lossy-sort', 'P13', 'two files whose names differ only in bytes that are not UTF-8', 'files are sorted by the lossy text of their names',
 [('v1/scan.rs', "            a.file_name().cmp(&b.file_name())\n", "            a.file_name().to_string_lossy().cmp(&b.file_name().to_string_lossy())\n")], r'''
fn main() {
    for b in 0x80..=0xffu8 { std::fs::write(Path::new(OsStr::from_bytes(&[b'n', b])), b"").unwrap(); }
    let v = scan(Path::new("."), 0);
    let mut p = parser(&v);
    let e: Vec<_> = p.iter().collect::<Result<Vec<_>, _>>().unwrap();
    for w in e.windows(2) { assert!(w[0].kind() < w[1].kind()); }
}''')
seed('p13-dir-depth', 'P13', 'a subdirectory that follows a sibling with its own subdirectories', 'directories are visited breadth first when there are more than two',
 [('v1/scan.rs', "            b.file_name().cmp(&a.file_name())  // note: reverse sort", "            b.file_name().to_ascii_lowercase().cmp(&a.file_name().to_ascii_lowercase())")], r'''
fn main() {
    for d in &["a", "B", "c", "D"] { std::fs::create_dir(d).unwrap(); std::fs::write(format!("{}/x", d), b"").unwrap(); }
    let v = scan(Path::new("."), 0);
    let mut p = parser(&v);
    let e: Vec<_> = p.iter().collect::<Result<Vec<_>, _>>().unwrap();
    for w in e.windows(2) { assert!(w[0].kind() < w[1].kind()); }
}''')
seed('p14-error-as-match', 'P14', 'a read error right after the last block', 'an error of the last read is taken for the end of the file',
 [('v1/parser.rs', "        if f.read(&mut test_buf)? != 0 {\n            return Ok(false);", "        if f.read(&mut test_buf).unwrap_or(0) != 0 {\n            return Ok(false);")], r'''
struct Bad(usize);
impl Read for Bad { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
    if self.0 == 0 { return Err(io::Error::new(io::ErrorKind::Other, "bad")); }
    let n = b.len().min(self.0); for x in &mut b[..n] { *x = 7 } self.0 -= n; Ok(n) } }
fn main() {
    let h = hashes(&vec![7u8; 32768]);
    assert!(h.check_file(Bad(32768)).is_err());
}''')
seed('p14-short-block', 'P14', 'a file whose last block is short and a stream read in pieces', 'hashing stops at a short block only when it is shorter than half',
 [('v1/parser.rs', "            if bs < block_size {\n", "            if bs <= block_size / 2 || bs == block_size - 1 || block_size == 1 {\n")], r'''
fn main() {
    for bs in &[1u64, 2, 3, 7] { for n in 0..30usize {
        let d: Vec<u8> = (0..n as u8).collect();
        let (s, h) = Hashes::hash_file(HashType::sha512_256(), *bs, &d[..]).unwrap();
        assert_eq!(s, n as u64);
        assert_eq!(h.len() as u64, (n as u64 + bs - 1) / bs);
        assert!(h.check_file(&d[..]).unwrap());
    } }
}''')
seed('p15-newline-check', 'P15', 'an index whose last line has no newline', 'the checksum reader accepts a last line that is cut',
 [('v1/../read.rs', "if buf[0] != b'\\n' || buf[nbytes-1] != b'\\n' {", "if buf[0] != b'\\n' && buf[nbytes-1] != b'\\n' {")], r'''
fn main() {
    let v = index("/\n  a s b\n");
    let mut w = v.clone(); let n = w.len(); w[n - 1] = b'0';
    assert!(get_hash(&mut Cursor::new(w)).is_err());
    let mut w = v.clone(); w[n - 66] = b'0';
    assert!(get_hash(&mut Cursor::new(w)).is_err());
    assert!(get_hash(&mut Cursor::new(v)).is_ok());
}''')
seed('p16-newline-refused', 'P16', 'an output that accepts no byte at the end of a file row', 'a newline the output refuses is forgotten',
 [('v1/writer.rs', """        self.file.write_all(b"\\n").map_err(EWrite)?;""", """        self.file.write(b"\\n").map_err(EWrite)?;""")], r'''
/// refuses one write of a single newline
struct Refuse(Vec<u8>, bool, bool);
impl Write for Refuse {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b == b"\n" && !self.1 { self.1 = true; return Err(io::ErrorKind::Interrupted.into()); }
        if b == b"\n" && self.0.len() > 100 && !self.2 { self.2 = true; return Ok(0); }
        self.0.extend(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    std::fs::write("file", b"hello").unwrap();
    let mut c = ScannerConfig::new(); c.add_dir(".", "/");
    let mut o = Refuse(vec![], true, false);
    if v1::scan(&c, &mut o).is_ok() { assert!(footer_ok(&o.0)); assert_eq!(String::from_utf8(o.0).unwrap().lines().count(), 4); }
}''')
seed('p16-emitter-newline', 'P16', 'an output that accepts no byte at the end of an emitted file row', 'a newline the output refuses is forgotten',
 [('v1/emitter.rs', """        self.out.write_all(b"\\n")?;""", """        self.out.write(b"\\n")?;""")], r'''
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(self.1 - self.0.len()); self.0.extend(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for cap in 46..70 {
        let mut o = Full(vec![], cap);
        let ok = { let mut e = Emitter::new(HashType::sha512_256(), 32768, &mut o).unwrap(); e.add_file(OsStr::new("name"), false, 0, &no_hashes()).is_ok() };
        assert_eq!(ok, o.0.ends_with(b"name f 0\n"), "{}", cap);
    }
}''')
seed('p17-block-size-prefix', 'P17', 'a header with a differently named attribute', 'an attribute whose name only starts with block_size is accepted',
 [('v1/parser.rs', 'Some(k) if k != "block_size" => {', 'Some(k) if !k.starts_with("block_size") => {')], r'''
fn main() {
    assert!(Parser::new(Cursor::new(b"DIRSIGNATURE.v1 sha512/256 block_sizes=5\n/\n".to_vec())).is_err());
    assert!(Parser::new(Cursor::new(b"DIRSIGNATURE.v1 sha512/256 block_size=5\n/\n".to_vec())).is_ok());
}''')
seed('p18-wrapping-index', 'P18', 'a huge index', 'an index whose offset wraps around returns the data of another digest',
 [('v1/parser.rs', "let off = bytes.checked_mul(idx)?;", "let off = bytes.wrapping_mul(idx);")], r'''
fn main() {
    let h = hashes(b"hello");
    assert_eq!(h.len(), 1);
    assert!(h.get(1usize << 59).is_none());
    assert!(h.get((1usize << 59) + 1).is_none());
}''')
seed('p02-link-dest', 'P02', 'a symlink whose destination has a trailing or doubled slash', 'the destination of an emitted symlink is normalised',
 [('v1/emitter.rs', """            Name(&Path::new(name)),
            Name(dest),""", """            Name(&Path::new(name)),
            Name(&dest.components().collect::<std::path::PathBuf>()),""")], r'''
fn main() {
    for d in &["a/b", "a//b", "a/", "./a", "../x", "/"] {
        let v = emit(|e| { e.start_dir(Path::new("/"))?; e.add_symlink(OsStr::new("l"), Path::new(d)) });
        let mut p = parser(&v); let mut it = p.iter();
        it.next().unwrap().unwrap();
        match it.next().unwrap().unwrap() { Entry::Link(_, x) => assert_eq!(x.as_os_str(), OsStr::new(d)), _ => panic!() }
    }
}''')

seed('p04-cut-long-line', 'P04', 'an input whose last line is long enough for a footer but has no newline', 'a last line without a newline is accepted',
 [('v1/parser.rs', "    if !buf.ends_with(b\"\\n\") {", "    if buf.len() <= 64 && !buf.ends_with(b\"\\n\") {")], r"""
fn main() {
    let v = format!("{}/\n{}0", HEAD, H0);
    let mut p = parser(v.as_bytes()); let mut it = p.iter();
    it.next().unwrap().unwrap();
    assert!(it.next().unwrap().is_err());
}""")
seed('p05-few-hashes', 'P05', 'a file row of many blocks with fewer hashes than its size needs', 'a row whose last hash is missing is accepted',
 [('v1/parser.rs', "    if i != hashes_num {\n", "    if i < 3 && i != hashes_num || i + 1 < hashes_num {\n")], r"""
fn main() {
    let v = index(&format!("/\n  a f 100000 {} {} {}\n", H0, H0, H0));
    let mut p = parser(&v); let mut it = p.iter();
    it.next().unwrap().unwrap();
    assert!(it.next().unwrap().is_err());
}""")
seed('p14-blake3-check', 'P14', 'checking a file against blake3 hashes', 'a file is checked against blake3 hashes with another hash function',
 [('v1/parser.rs', "Blake3_256 => self._check_file(f, hash::Blake3_256::new()),", "Blake3_256 => self._check_file(f, hash::Blake2b_256::new()),")], r'''
fn main() {
    for n in &[0usize, 1, 5, 32768, 40000] {
        let d = vec![7u8; *n];
        let (_, h) = Hashes::hash_file(HashType::blake3_256(), 32768, &d[..]).unwrap();
        assert!(h.check_file(&d[..]).unwrap());
    }
}''')
seed('p08-pop-one', 'P08', 'three indexes the first two of which share an entry that is greater than the next one of the third', 'an index stays in a group it does not belong to, and its entry is lost',
 [('v1/merge.rs', """                                min_kind = Some(kind);
                                self.iterator_ixs.clear();
""", """                                min_kind = Some(kind);
                                self.iterator_ixs.pop();
""")], r'''
fn main() {
    let a = index("/\n  b s x\n"); let b = index("/\n  b s x\n"); let c = index("/\n  a s x\n  b s x\n");
    let mut m = MergedSignatures::new(vec![(0, parser(&a)), (1, parser(&b)), (2, parser(&c))]).unwrap();
    let got: Vec<Vec<(usize, PathBuf)>> = m.iter().map(|g| g.into_iter().map(|(k, e)| (*k as usize, e.unwrap().path().to_path_buf())).collect()).collect();
    let p = |s: &str| PathBuf::from(s);
    assert_eq!(got, vec![vec![(0, p("/")), (1, p("/")), (2, p("/"))], vec![(2, p("/a"))], vec![(0, p("/b")), (1, p("/b")), (2, p("/b"))]]);
}''')
seed('p16-threaded-poll-error', 'P16', 'a scan with threads and an output that fails once, while the queue is polled and not at the end', 'an error of the output is swallowed when the queue is polled between entries',
 [('v1/threaded_writer.rs', """            if !self.poll_item(item, want_block)? {
                break;
            }""", """            match self.poll_item(item, want_block) {
                Ok(true) => {}
                _ => break,
            }""")], r'''
/// fails the k-th write and no other
struct Once(Vec<u8>, usize, bool);
impl Write for Once {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.1 -= 1;
        if self.1 == 0 { self.1 = 1_000_000; self.2 = true; return Err(io::Error::new(io::ErrorKind::Other, "once")); }
        self.0.extend(b); Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    for i in 0..5 { std::os::unix::fs::symlink("dest", format!("l{}", i)).unwrap(); }
    for k in 1..60 {
        let mut c = ScannerConfig::new(); c.add_dir(".", "/"); c.threads(2);
        let mut o = Once(vec![], k, false);
        let r = v1::scan(&c, &mut o);
        assert_eq!(r.is_err(), o.2, "write {}", k);
    }
}''')
seed('p15-single-read', 'P15', 'an input that delivers its first bytes in pieces', 'the signature is read with one call',
 [('v1/../read.rs', """    let mut signature = Vec::with_capacity(32);
    f.by_ref().take(32).read_to_end(&mut signature)?;
""", """    let mut signature = vec![0; 32];
    let n = f.read(&mut signature)?;
    signature.truncate(n);
""")], r'''
struct Pieces(Cursor<Vec<u8>>);
impl Read for Pieces { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(7); self.0.read(&mut b[..n]) } }
impl io::Seek for Pieces { fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> { io::Seek::seek(&mut self.0, p) } }
fn main() {
    let v = index("/\n  a s b\n");
    let d = get_hash(&mut Cursor::new(v.clone())).unwrap();
    assert_eq!(get_hash(&mut Pieces(Cursor::new(v))).unwrap(), d);
}''')
seed('p05-dotdot', 'P05', 'a row whose name is two dots', 'a row that names the parent directory is accepted as a file of it',
 [('v1/parser.rs', """&& name != b".." && !name""", """&& name != b"..." && !name""")], r'''
fn main() {
    for n in &[".", "..", "a/b", ""] {
        let v = index(&format!("/\n/d\n  {} s x\n", n));
        let mut p = parser(&v);
        let r: Vec<bool> = p.iter().take(3).map(|x| x.is_ok()).collect();
        assert_eq!(r, [true, true, false], "{}", n);
    }
}''')
seed('p12-full-queue-link', 'P12', 'a symlink met while the queue is full because an earlier file is still being hashed', 'a symlink is written at once when the queue is full, before the files queued earlier',
 [('v1/threaded_writer.rs', '''        self.queue.push_back(Operation::Symlink(dir.clone(), entry));
        self.poll_queue()''', '''        let op = Operation::Symlink(dir.clone(), entry);
        if self.queue.len() >= self.queue_limit {
            // no place in the queue
            self.poll_item(op, true)?;
        } else {
            self.queue.push_back(op);
        }
        self.poll_queue()''')], r'''
fn main() {
    for i in 0..60 {
        std::fs::write(format!("f{:03}", i), vec![7u8; 1_000_000]).unwrap();
        std::os::unix::fs::symlink("dest", format!("f{:03}l", i)).unwrap();
        std::os::unix::fs::symlink("dest", format!("f{:03}m", i)).unwrap();
    }
    let a = scan(Path::new("."), 0);
    for t in 2..4 { assert!(a == scan(Path::new("."), t), "{} threads", t); }
}''')
