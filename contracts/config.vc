@@module config
@use
use crate::vp::*;
use crate::spec::*;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
@@fn config::ScannerConfig::new
@ret r
@spec
    ensures r.threads == 0, r.hash.0 is Sha512_256, r.block_size == 32768, r.dirs@.len() == 0, !r.print_progress // [P10 P11 P12 P13]
@@fn config::ScannerConfig::hash
@ret r
@spec
    ensures *final(self) == *final(r), *r == (ScannerConfig { hash: hash, ..*old(self) }) // [P10 P11 P12]
@@fn config::ScannerConfig::threads
@ret r
@spec
    ensures *final(self) == *final(r), *r == (ScannerConfig { threads: num, ..*old(self) }) // [P12]
@@fn config::ScannerConfig::auto_threads
@call num_cpus::get => vp_num_cpus
@ret r
@spec
    ensures *final(self) == *final(r), (r.threads < 1_000_000_000 || r.threads == old(self).threads), *r == (ScannerConfig { threads: r.threads, ..*old(self) }) // [P12]
@@fn config::ScannerConfig::queue_size
@ret r
@spec
    ensures *final(self) == *final(r), *r == (ScannerConfig { queue_size: Some(num), ..*old(self) }) // [P12]
@@fn config::ScannerConfig::add_dir
@call .as_ref => &vp_as_path
@ret r
@spec
    ensures *final(self) == *final(r), *r == (ScannerConfig { dirs: r.dirs, ..*old(self) }), // [P13]
        exists|d: (std::path::PathBuf, std::path::PathBuf)| r.dirs@ == old(self).dirs@.push(d) && d.0.b() == as_path(&path) && d.1.b() == as_path(&prefix) // [P13]
@@fn config::ScannerConfig::print_progress
@ret r
@spec
    ensures *final(self) == *final(r), *r == (ScannerConfig { print_progress: true, ..*old(self) }) // [P12]
@@rem
