@@module v1::writer
@use
use crate::vp::*;
use crate::spec::*;
use super::hash::HashOutput;
use vstd::std_specs::iter::IteratorSpec;
@ghost
broadcast use {crate::vp::vp_axioms, crate::vp::fmt_axioms, crate::spec::seq_facts};
impl<F: io::Write, H: Hash> HashWriter<F, H> {
    /// what was written before the running digest began
    pub open spec fn hd(&self) -> Seq<u8> { self.file.written().take(self.file.written().len() - self.digest.written().len()) }
    pub open spec fn hw_inv(&self) -> bool {
        self.file.w_inv() && self.digest.w_inv() && self.digest.written().len() <= self.file.written().len()
            && self.file.written() == self.hd() + self.digest.written()
    }
}
impl<F: io::Write, H: Hash> WriteSpecImpl for HashWriter<F, H> {
    open spec fn written(&self) -> Seq<u8> { self.file.written() }
    open spec fn w_head(&self) -> Seq<u8> { self.hd() }
    open spec fn w_tag(&self) -> int { 0 }
    open spec fn w_inv(&self) -> bool { self.hw_inv() }
    open spec fn flushed(&self) -> bool { self.file.flushed() }
    #[verifier::prophetic]
    open spec fn w_fin(&self) -> Seq<u8> { self.file.w_fin() }
    #[verifier::prophetic]
    open spec fn w_fflush(&self) -> bool { self.file.w_fflush() }
}
/// what goes to the output goes to the digest
pub proof fn lemma_hw<F: io::Write, H: Hash>(a: HashWriter<F, H>, b: HashWriter<F, H>, x: Seq<u8>)
    requires a.hw_inv(), b.hw_inv(), b.hd() == a.hd(), b.file.written() == a.file.written() + x
    ensures b.digest.written() == a.digest.written() + x
{
    assert(b.digest.written() =~= b.file.written().skip(b.hd().len() as int));
    assert(a.digest.written() =~= a.file.written().skip(a.hd().len() as int));
    assert(b.digest.written() =~= a.digest.written() + x);
}
pub proof fn lemma_hw_step<F: io::Write, H: Hash>(a: HashWriter<F, H>, b: HashWriter<F, H>, x: Seq<u8>)
    requires a.hw_inv(), b.file.w_inv(), b.digest.w_inv(), b.file.written() == a.file.written() + x, b.digest.written() == a.digest.written() + x
    ensures b.hw_inv(), b.hd() == a.hd()
{
    assert(b.hd() =~= a.hd());
    assert(b.file.written() =~= b.hd() + b.digest.written());
}
/// what a call of a writer does to its text: `row` is added (or a failure is found out about later)
pub open spec fn added(failed0: bool, body0: Seq<u8>, failed1: bool, body1: Seq<u8>, row: Seq<u8>) -> bool {
    failed1 || (!failed0 && body1 == body0 + row + nl())
}
pub open spec fn added_file(failed0: bool, body0: Seq<u8>, failed1: bool, body1: Seq<u8>, c: Cfg, d: &Dir, name: Seq<u8>) -> bool {
    failed1 || (!failed0 && exists|t: Seq<u8>| body1 == body0 + t
        && #[trigger] is_file_row(c, name, is_exe(fs_mode(d, name)), fs_size(d, name), fs_data(d, name), t))
}
@@type v1::writer::Writer
@items
    /// the invariant of the writer
    spec fn w_ok(&self) -> bool;
    /// the rows written so far, or that will have been written when nothing fails
    spec fn body(&self) -> Seq<u8>;
    /// a row could not be made (found out about later)
    spec fn failed(&self) -> bool;
    spec fn whead(&self) -> Seq<u8>;
    spec fn wcfg(&self) -> Cfg;
    spec fn th(h: Self::TotalHash) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn fin(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn fflush(&self) -> bool;
@@fn v1::writer::Writer::start_dir
@ret r
@spec
    requires (*old(self)).w_ok()
    ensures r is Ok ==> (*final(self)).w_ok() && (*final(self)).wcfg() == (*old(self)).wcfg() && (*final(self)).whead() == (*old(self)).whead()
        && (*final(self)).fin() == (*old(self)).fin() && (*final(self)).fflush() == (*old(self)).fflush()
        && added((*old(self)).failed(), (*old(self)).body(), (*final(self)).failed(), (*final(self)).body(), dir_row(path.b())) // [P10 P12 P13 P16]
@@fn v1::writer::Writer::add_file
@ret r
@spec
    requires (*old(self)).w_ok()
    ensures r is Ok ==> (*final(self)).w_ok() && (*final(self)).wcfg() == (*old(self)).wcfg() && (*final(self)).whead() == (*old(self)).whead()
        && (*final(self)).fin() == (*old(self)).fin() && (*final(self)).fflush() == (*old(self)).fflush()
        && added_file((*old(self)).failed(), (*old(self)).body(), (*final(self)).failed(), (*final(self)).body(), (*old(self)).wcfg(), &**dir, ename(&entry)) // [P10 P11 P12 P13 P16]
@@fn v1::writer::Writer::add_symlink
@ret r
@spec
    requires (*old(self)).w_ok()
    ensures r is Ok ==> (*final(self)).w_ok() && (*final(self)).wcfg() == (*old(self)).wcfg() && (*final(self)).whead() == (*old(self)).whead()
        && (*final(self)).fin() == (*old(self)).fin() && (*final(self)).fflush() == (*old(self)).fflush()
        && added((*old(self)).failed(), (*old(self)).body(), (*final(self)).failed(), (*final(self)).body(), link_row(ename(&entry), fs_link(&**dir, ename(&entry)))) // [P10 P12 P13 P16]
@@fn v1::writer::Writer::get_hash
@ret r
@spec
    requires (*old(self)).w_ok()
    ensures r is Ok ==> (*final(self)).w_ok() && (*final(self)).wcfg() == (*old(self)).wcfg() && (*final(self)).whead() == (*old(self)).whead()
        && (*final(self)).fin() == (*old(self)).fin() && (*final(self)).fflush() == (*old(self)).fflush()
        && !(*old(self)).failed() && !(*final(self)).failed() && (*final(self)).body() == (*old(self)).body()
        && Self::th(r->Ok_0) == dg((*old(self)).wcfg().alg, (*old(self)).body()) // [P10 P12]
@@fn v1::writer::Writer::done
@ret r
@spec
    requires self.w_ok()
    ensures r is Ok ==> !self.failed() && self.fflush() // [P10 P12 P13 P16]
        && self.fin() == self.whead() + self.body() + footer_row(self.wcfg().alg, self.body()) + nl() // [P10 P12 P13 P16]
@@type impl v1::writer::<SyncWriter as Writer>
@items
    open spec fn w_ok(&self) -> bool {
        self.file.hw_inv() && self.hash.w_inv() && self.block_size > 0 && (H::resets() ==> self.hash.written() == Seq::<u8>::empty())
    }
    open spec fn body(&self) -> Seq<u8> { self.file.digest.written() }
    open spec fn failed(&self) -> bool { false }
    open spec fn whead(&self) -> Seq<u8> { self.file.hd() }
    open spec fn wcfg(&self) -> Cfg { Cfg { alg: H::alg(), resets: H::resets(), bs: self.block_size as nat } }
    open spec fn th(h: H::Output) -> Seq<u8> { h.hb() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { self.file.file.w_fin() }
    #[verifier::prophetic]
    open spec fn fflush(&self) -> bool { self.file.file.w_fflush() }
@@fn v1::writer::<SyncWriter as Writer>::start_dir
@at end
    proof {
        lemma_hw(old(self).file, self.file, dir_row(path.b()) + nl());
        assert(self.body() =~= old(self).body() + dir_row(path.b()) + nl());
    }
@@fn v1::writer::<SyncWriter as Writer>::add_symlink
@call .read_link => &vp_read_link
@at end
    proof {
        let row = link_row(ename(&entry), fs_link(&**dir, ename(&entry)));
        assert(self.file.file.written() =~= old(self).file.file.written() + (row + nl()));
        lemma_hw(old(self).file, self.file, row + nl());
        assert(self.body() =~= old(self).body() + row + nl());
    }
@@fn v1::writer::<SyncWriter as Writer>::get_hash
@@fn v1::writer::<SyncWriter as Writer>::done
@@fn v1::writer::<HashWriter as Write>::write
@at end
    proof { assert(buf@.subrange(0, n as int) =~= buf@.take(n as int)); lemma_hw_step(*old(self), *self, buf@.take(n as int)); }
@@fn v1::writer::<HashWriter as Write>::flush
@@fn v1::writer::SyncWriter::new
@ret r
@at start
    proof { lemma_names(); }
    let ghost f0 = f;
@spec
    requires f.w_inv(), hash.w_inv(), hash.written() == Seq::<u8>::empty(), block_size > 0
    ensures r is Ok ==> r->Ok_0.w_ok() && r->Ok_0.body() == Seq::<u8>::empty() && r->Ok_0.wcfg() == (Cfg { alg: H::alg(), resets: H::resets(), bs: block_size as nat })
        && r->Ok_0.fin() == f.w_fin() && r->Ok_0.fflush() == f.w_fflush()
        && r->Ok_0.whead() == f.written() + header_row(H::alg(), block_size as nat) + nl() // [P10 P17]
@@fn v1::writer::<Name as Display>::fmt
@opt inherent=yes
@opt write=fmt
@call .write_char => vp_write_char
@ret r
@spec
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + escape(self.0.b()) // [P01 P10]
@loop 0
    invariant
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= self.0.b().len(),
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> *(#[trigger] vp_it0.remaining()[k]) == self.0.b()[self.0.b().len() - vp_it0.remaining().len() + k],
        fw(f) == fw(old(f)) + escape(self.0.b().take(self.0.b().len() - vp_it0.remaining().len())),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof { assert(escape(self.0.b().take(0)) =~= Seq::<u8>::empty()); }
@at loop 0 tail
    proof {
        let n = self.0.b().len() - vp_it0.remaining().len();
        lemma_escape_push(self.0.b().take(n - 1), b);
        assert(self.0.b().take(n - 1).push(b) =~= self.0.b().take(n));
    }
@at loop 0 after
    proof { assert(self.0.b().take(self.0.b().len() as int) =~= self.0.b()); }
@@fn v1::writer::<SyncWriter as Writer>::add_file
@call .open_file => &vp_open_file
@at start
    let ghost nm = ename(&entry);
    let ghost data = fs_data(&**dir, nm);
    let ghost size = fs_size(&**dir, nm);
    let ghost exe = is_exe(fs_mode(&**dir, nm));
    let ghost c = self.wcfg();
    let ghost mut hs: Seq<u8> = Seq::empty();
    let ghost mut i: nat = 0;
    let ghost h0 = self.hash.written();
@loop 0
    invariant
        self.w_ok(), self.hash.written() == hst(H::resets(), h0, data, c.bs, i), self.wcfg() == c, self.whead() == old(self).whead(), self.fin() == old(self).fin(), self.fflush() == old(self).fflush(),
        self.file.file.written() == old(self).file.file.written() + file_row(nm, exe, size, hs, dlen()),
        hs.len() == dlen() * i, n == (if i * c.bs <= size { size - i * c.bs } else { 0 }), i > 0 ==> (i - 1) * c.bs < size,
        hs == digs(c.alg, c.resets, h0, data, c.bs, i) && f.rd_data() == data.skip(imin((i * c.bs) as int, data.len() as int)),
    decreases n
@at loop 0 before
    proof {
        lemma_flags();
        assert(data.skip(0) =~= data); assert(h0 + data.take(0) =~= h0); assert(hashes_text(hs, dlen()) =~= Seq::<u8>::empty());
        assert(self.file.file.written() =~= old(self).file.file.written() + file_row(nm, exe, size, hs, dlen()));
    }
@at loop 0 head
    let ghost w0 = self.file.file.written();
@at loop 0 tail
    proof {
        let b = self.wcfg();
        lemma_block_step(data, c.bs, i);
        lemma_hstep(c.alg, c.resets, h0, data, c.bs, i);
        lemma_hashes_text_push(hs, h.hb(), dlen());
        let hs0 = hs;
        hs = hs + h.hb();
        i = i + 1;
        assert(w0 + (sp() + hex(h.hb())) =~= old(self).file.file.written() + (file_row(nm, exe, size, hs0, dlen()) + (sp() + hex(h.hb()))));
        assert(file_row(nm, exe, size, hs0, dlen()) + (sp() + hex(h.hb())) =~= file_row(nm, exe, size, hs, dlen()));
    }
@at end
    proof {
        let row = file_row(nm, exe, size, hs, dlen());
        assert(self.file.file.written() =~= old(self).file.file.written() + (row + nl()));
        lemma_hw(old(self).file, self.file, row + nl());
    }
@at loop 0 after
    proof { lemma_ceil(size, c.bs, i); lemma_digs(c.alg, c.resets, h0, data, c.bs, i); assert(hashes_of(c, size, data, hs)); assert(is_file_row(c, nm, exe, size, data, file_row(nm, exe, size, hs, dlen()) + nl())); }
@@rem
