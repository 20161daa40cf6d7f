@@module v1::emitter
@use
use crate::vp::*;
use crate::spec::*;
use vstd::std_specs::iter::IteratorSpec;
@ghost
broadcast use {crate::vp::vp_axioms, crate::vp::fmt_axioms, crate::spec::seq_facts};
impl<'a> HashWriter<'a> {
    pub open spec fn hd(&self) -> Seq<u8> { (*self.out).written().take((*self.out).written().len() - self.hash.hdata().len()) }
    pub open spec fn hw_inv(&self) -> bool {
        (*self.out).w_inv() && self.hash.hdata().len() <= (*self.out).written().len() && (*self.out).written() == self.hd() + self.hash.hdata()
    }
}
impl<'a> WriteSpecImpl for HashWriter<'a> {
    open spec fn written(&self) -> Seq<u8> { (*self.out).written() }
    open spec fn w_head(&self) -> Seq<u8> { self.hd() }
    open spec fn w_tag(&self) -> int { alg_int(self.hash.halg()) }
    open spec fn w_inv(&self) -> bool { self.hw_inv() }
    open spec fn flushed(&self) -> bool { (*self.out).flushed() }
    #[verifier::prophetic]
    open spec fn w_fin(&self) -> Seq<u8> { (*self.out).w_fin() }
    #[verifier::prophetic]
    open spec fn w_fflush(&self) -> bool { (*self.out).w_fflush() }
}
impl<'a> Emitter<'a> {
    pub open spec fn ok(&self) -> bool { self.out.hw_inv() }
    /// the rows so far
    pub open spec fn body(&self) -> Seq<u8> { self.out.hash.hdata() }
    pub open spec fn head(&self) -> Seq<u8> { self.out.hd() }
    /// everything written to the destination
    pub open spec fn text(&self) -> Seq<u8> { (*self.out.out).written() }
    pub open spec fn alg(&self) -> HashTypeEnum { self.out.hash.halg() }
}
pub open spec fn alg_int(a: HashTypeEnum) -> int {
    match a { HashTypeEnum::Sha512_256 => 1, HashTypeEnum::Blake2b_256 => 2, HashTypeEnum::Blake3_256 => 3 }
}
/// what goes to the output goes to the digest
pub proof fn lemma_ehw<'a, 'b>(a: HashWriter<'a>, b: HashWriter<'b>, x: Seq<u8>)
    requires a.hw_inv(), b.hw_inv(), b.hd() == a.hd(), (*b.out).written() == (*a.out).written() + x
    ensures b.hash.hdata() == a.hash.hdata() + x
{
    assert(b.hash.hdata() =~= (*b.out).written().skip(b.hd().len() as int));
    assert(a.hash.hdata() =~= (*a.out).written().skip(a.hd().len() as int));
    assert(b.hash.hdata() =~= a.hash.hdata() + x);
}
@@type v1::emitter::HashTrait
@items
    spec fn hdata(&self) -> Seq<u8>;
    spec fn halg(&self) -> HashTypeEnum;
@@fn v1::emitter::HashTrait::input
@spec
    ensures (*final(self)).hdata() == (*old(self)).hdata() + data@, (*final(self)).halg() == (*old(self)).halg()
@@fn v1::emitter::HashTrait::write_hash
@ret r
@spec
    requires (*old(out)).w_inv()
    ensures r is Ok ==> (*final(out)).written() == (*old(out)).written() + footer_row((*old(self)).halg(), (*old(self)).hdata()) + nl(), // [P10 P16]
        (*final(self)).halg() == (*old(self)).halg()
@@type impl v1::emitter::<Sha512Trunc256 as HashTrait>
@items
    open spec fn hdata(&self) -> Seq<u8> { wt(self) }
    open spec fn halg(&self) -> HashTypeEnum { HashTypeEnum::Sha512_256 }
@@type impl v1::emitter::<VarBlake2b as HashTrait>
@items
    open spec fn hdata(&self) -> Seq<u8> { wt(self) }
    open spec fn halg(&self) -> HashTypeEnum { HashTypeEnum::Blake2b_256 }
@@type impl v1::emitter::<Hasher as HashTrait>
@items
    open spec fn hdata(&self) -> Seq<u8> { wt(self) }
    open spec fn halg(&self) -> HashTypeEnum { HashTypeEnum::Blake3_256 }
@@fn v1::emitter::<Sha512Trunc256 as HashTrait>::input
@call .update => vp_sha_update
@@fn v1::emitter::<Sha512Trunc256 as HashTrait>::write_hash
@opt write=io
@call .finalize_into_dirty => vp_sha_final
@@fn v1::emitter::<VarBlake2b as HashTrait>::input
@call .update => vp_b2_update
@@fn v1::emitter::<VarBlake2b as HashTrait>::write_hash
@opt write=io
@@fn v1::emitter::<Hasher as HashTrait>::input
@call .update => vp_b3_update
@@fn v1::emitter::<Hasher as HashTrait>::write_hash
@opt write=io
@call .finalize => vp_b3_finalize
@call .to_hex => vp_b3_hex
@@fn v1::emitter::<HashWriter as Write>::write
@at end
    proof {
        assert(buf@.subrange(0, n as int) =~= buf@.take(n as int));
        assert(self.hd() =~= old(self).hd());
        assert((*self.out).written() =~= self.hd() + self.hash.hdata());
    }
@@fn v1::emitter::<HashWriter as Write>::flush
@@fn v1::emitter::Emitter::new
@opt write=io
@call VariableOutput::new => vp_b2_new
@call Sha512Trunc256::default => vp_sha_new
@call sha2::Sha512Trunc256::default => vp_sha_new
@call blake3::Hasher::new => vp_b3_new
@ret r
@spec
    requires (*old(dest)).w_inv()
    ensures r is Ok ==> r->Ok_0.ok() && r->Ok_0.body() == Seq::<u8>::empty() && r->Ok_0.alg() == hash_type.0
        && r->Ok_0.head() == (*old(dest)).written() + header_row(hash_type.0, block_size as nat) + nl() // [P10 P17]
        && r->Ok_0.text() == r->Ok_0.head() + r->Ok_0.body()
@at start
    proof { lemma_names(); }
    let ghost d0 = (*dest).written();
@at end
    proof { assert(d0 + (header_row(hash_type.0, block_size as nat) + nl()) =~= d0 + header_row(hash_type.0, block_size as nat) + nl()); }
@@fn v1::emitter::Emitter::start_dir
@opt write=io
@ret r
@spec
    requires old(self).ok()
    ensures r is Ok ==> final(self).ok() && final(self).head() == old(self).head() && final(self).alg() == old(self).alg()
        && final(self).text() == final(self).head() + final(self).body()
        && final(self).body() == old(self).body() + dir_row(path.b()) + nl() // [P02 P10 P16]
@at end
    proof { lemma_ehw(old(self).out, self.out, dir_row(path.b()) + nl()); assert(self.body() =~= old(self).body() + dir_row(path.b()) + nl()); }
@@fn v1::emitter::Emitter::add_file
@opt write=io
@ret r
@spec
    requires old(self).ok(), hashes.wf()
    ensures r is Ok ==> final(self).ok() && final(self).head() == old(self).head() && final(self).alg() == old(self).alg()
        && final(self).text() == final(self).head() + final(self).body()
        && final(self).body() == old(self).body() + file_row(name.b(), executable, size as nat, hashes.data@, dlen()) + nl() // [P02 P10 P16]
@at start
    let ghost hs = hashes.data@;
@loop 0
    invariant
        self.ok(), self.head() == old(self).head(), self.alg() == old(self).alg(), hs.len() % dlen() == 0,
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some, vp_it0.remaining().len() <= hs.len() / dlen(),
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[k]).0@ == hashes.block(hs.len() / dlen() - vp_it0.remaining().len() + k),
        self.text() == old(self).text() + file_row(name.b(), executable, size as nat, hs.take((hs.len() / dlen() - vp_it0.remaining().len()) * dlen()), dlen()),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof {
        lemma_flags();
        assert(hs.take(0) =~= Seq::<u8>::empty()); assert(hashes_text(Seq::<u8>::empty(), dlen()) =~= Seq::<u8>::empty());
        assert(self.text() =~= old(self).text() + file_row(name.b(), executable, size as nat, hs.take(0), dlen()));
    }
@at loop 0 head
    let ghost w0 = self.text();
@at loop 0 tail
    proof {
        let n = hs.len() / dlen() - vp_it0.remaining().len();
        let h0 = hs.take((n - 1) * dlen());
        lemma_hashes_text_push(h0, item.0@, dlen());
        assert(h0 + item.0@ =~= hs.take(n * dlen()));
        assert(w0 + (sp() + hex(item.0@)) =~= old(self).text() + (file_row(name.b(), executable, size as nat, h0, dlen()) + (sp() + hex(item.0@))));
        assert(file_row(name.b(), executable, size as nat, h0, dlen()) + (sp() + hex(item.0@)) =~= file_row(name.b(), executable, size as nat, hs.take(n * dlen()), dlen()));
    }
@at loop 0 after
    proof { assert(hs.take(((hs.len() / dlen()) * dlen()) as int) =~= hs); }
@at end
    proof {
        let row = file_row(name.b(), executable, size as nat, hs, dlen());
        assert(self.text() =~= old(self).text() + (row + nl()));
        lemma_ehw(old(self).out, self.out, row + nl());
        assert(self.body() =~= old(self).body() + row + nl());
    }
@@fn v1::emitter::Emitter::add_symlink
@opt write=io
@ret r
@spec
    requires old(self).ok()
    ensures r is Ok ==> final(self).ok() && final(self).head() == old(self).head() && final(self).alg() == old(self).alg()
        && final(self).text() == final(self).head() + final(self).body()
        && final(self).body() == old(self).body() + link_row(name.b(), dest.b()) + nl() // [P02 P10 P16]
@at end
    proof {
        assert(self.text() =~= old(self).text() + (link_row(name.b(), dest.b()) + nl()));
        lemma_ehw(old(self).out, self.out, link_row(name.b(), dest.b()) + nl()); assert(self.body() =~= old(self).body() + link_row(name.b(), dest.b()) + nl()); }
@@fn v1::emitter::Emitter::finish
@opt write=io
@ret r
@spec
    requires old(self).ok()
    ensures r is Ok ==> final(self).text() == old(self).head() + old(self).body() + footer_row(old(self).alg(), old(self).body()) + nl() // [P10 P16]
@@rem
