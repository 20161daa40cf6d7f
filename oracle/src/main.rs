//! Searches for an input on which the crate breaks a property.
//!   oracle run PROP SEED SECS [CASES]      oracle replay PROP SEED CASE
//! Every case is a function of (PROP, SEED, CASE). Exit 1 when a case fails.
mod fs;
mod gen;
mod model;
mod props;
mod axioms;

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{Read, Seek, SeekFrom, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

struct Count;
pub static CUR: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let c = CUR.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(c, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { CUR.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let c = CUR.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(c, Relaxed);
        CUR.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Count = Count;

fn case_seed(prop: &str, seed: u64, case: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in prop.bytes().chain(seed.to_le_bytes()).chain(case.to_le_bytes()) { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

/// worker PROP SEED FIRST COUNT SECS STATUSFILE
fn worker(a: &[String]) {
    let (prop, seed, first, count, secs) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    let mut st = std::fs::OpenOptions::new().write(true).open(&a[5]).unwrap();
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let t = Instant::now();
    std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { *props::PANIC_AT.lock().unwrap() = format!("{}:{}", l.file(), l.line()); } }));
    let mut known: Vec<(String, u64)> = vec![];
    let mut n = 0;
    for case in first..first.saturating_add(count) {
        if n > 0 && t.elapsed() > Duration::from_secs(secs) { break; }
        n += 1;
        st.seek(SeekFrom::Start(0)).unwrap();
        st.write_all(format!("{:020}", case).as_bytes()).unwrap();
        let mut rng = gen::Rng(case_seed(prop, seed, case));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::case(prop, &mut rng, case)));
        let res = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panic at {}: {}", props::PANIC_AT.lock().unwrap(), m))
            }
        };
        match res {
            Ok(k) => for k in k { if !known.iter().any(|x| x.0 == k) { println!("KNOWN {} {}", case, k); known.push((k, case)); } },
            Err(m) => {
                println!("FAIL {} {}", case, m.replace('\n', " | "));
                println!("INPUT {}", props::LAST.lock().unwrap().replace('\n', "\\n"));
                std::io::stdout().flush().unwrap();
                std::process::exit(1);
            }
        }
    }
    println!("DONE {}", n);
}

fn drive(prop: &str, seed: u64, first: u64, count: u64, secs: u64) -> i32 {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let dir = std::env::temp_dir().join(format!("vp-oracle-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o777));
    let status = dir.join("case");
    std::fs::write(&status, format!("{:020}", first)).unwrap();
    let exe = dir.join("oracle");
    std::fs::copy(std::env::current_exe().unwrap(), &exe).unwrap();
    let _ = std::fs::set_permissions(&exe, std::fs::Permissions::from_mode(0o755));
    let mut code = 0;
    // the worker runs as an unprivileged user with only its scratch directory
    let root = unsafe { libc::geteuid() } == 0;
    let mut ran = false;
    for unpriv in [root, false] {
        let out = std::fs::File::create(dir.join("out")).unwrap();
        let _ = std::fs::set_permissions(&status, std::fs::Permissions::from_mode(0o666));
        let mut c = Command::new(&exe);
        c.args(["worker", prop, &seed.to_string(), &first.to_string(), &count.to_string(), &secs.to_string()]).arg(&status)
            .env("TMPDIR", &dir).current_dir(&dir).stdout(out).stderr(Stdio::null()).stdin(Stdio::null());
        if unpriv { c.uid(65534).gid(65534); }
        let mut ch = match c.spawn() { Ok(c) => c, Err(e) => { if unpriv { continue; } eprintln!("cannot start the worker: {}", e); return 2; } };
        ran = true;
        let mut last = (String::new(), Instant::now());
        let mut hung = false;
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() { break s; }
            std::thread::sleep(Duration::from_millis(20));
            let mut s = String::new();
            let _ = std::fs::File::open(&status).and_then(|mut f| f.read_to_string(&mut s));
            if s != last.0 { last = (s, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(20) { hung = true; let _ = ch.kill(); let s = ch.wait().unwrap(); break s; }
        };
        let text = std::fs::read_to_string(dir.join("out")).unwrap_or_default();
        print!("{}", text);
        let case = std::fs::read_to_string(&status).unwrap_or_default().trim_start_matches('0').to_string();
        let case = if case.is_empty() { "0".to_string() } else { case };
        if hung { println!("FAIL {} the call does not return within 20 s", case); code = 1; }
        else if st.code() == Some(1) && text.contains("FAIL ") { code = 1; }
        else if st.code() != Some(0) { println!("FAIL {} the process died: {} (abort, out of memory or stack overflow)", case, st); code = 1; }
        break;
    }
    if !ran { code = 2; }
    let _ = Command::new("chmod").args(["-R", "u+rwX"]).arg(&dir).status();
    let _ = std::fs::remove_dir_all(&dir);
    code
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("worker") => worker(&a[1..]),
        Some("run") => std::process::exit(drive(&a[1], a[2].parse().unwrap(), 0, a.get(4).map(|s| s.parse().unwrap()).unwrap_or(u64::MAX), a[3].parse().unwrap())),
        Some("replay") => std::process::exit(drive(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), 1, 600)),
        _ => { eprintln!("usage: oracle run PROP SEED SECS [CASES] | oracle replay PROP SEED CASE"); std::process::exit(2) }
    }
}
