@@module v1::progress
@use
use crate::vp::*;
use crate::spec::*;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
@@type impl v1::progress::<Progress as Writer>
@items
    open spec fn w_ok(&self) -> bool { self.dest.w_ok() && self.progress_dest.w_inv() }
    open spec fn body(&self) -> Seq<u8> { self.dest.body() }
    open spec fn failed(&self) -> bool { self.dest.failed() }
    open spec fn whead(&self) -> Seq<u8> { self.dest.whead() }
    open spec fn wcfg(&self) -> Cfg { self.dest.wcfg() }
    open spec fn th(h: W::TotalHash) -> Seq<u8> { W::th(h) }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { self.dest.fin() }
    #[verifier::prophetic]
    open spec fn fflush(&self) -> bool { self.dest.fflush() }
@@fn v1::progress::duration_float
@trusted
@@fn v1::progress::Progress::new
@ret r
@spec
    requires hasher.w_ok(), out.w_inv()
    ensures r.dest == hasher, r.progress_dest.w_inv() // [P12]
@@fn v1::progress::Progress::check_print
@spec
    requires (*old(self)).progress_dest.w_inv()
    ensures (*final(self)).progress_dest.w_inv(), (*final(self)).dest == (*old(self)).dest // [P12]
@@fn v1::progress::<Progress as Writer>::start_dir
@at start
    proof { ax_count64(self.dirs); }
@@fn v1::progress::<Progress as Writer>::add_file
@at start
    proof { ax_count64(self.files); }
@@fn v1::progress::<Progress as Writer>::add_symlink
@at start
    proof { ax_count64(self.symlinks); }
@@fn v1::progress::<Progress as Writer>::get_hash
@@fn v1::progress::<Progress as Writer>::done
@@rem
