@@module v1::hash
@use
use crate::vp::*;
use crate::spec::*;
use crate::HashTypeEnum;
use vstd::std_specs::iter::IteratorSpec;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
impl WriteSpecImpl for Sha512_256 {
    open spec fn written(&self) -> Seq<u8> { self.0.written() }
    open spec fn w_head(&self) -> Seq<u8> { Seq::empty() }
    open spec fn w_tag(&self) -> int { 0 }
    open spec fn w_inv(&self) -> bool { true }
    open spec fn flushed(&self) -> bool { self.0.flushed() }
    #[verifier::prophetic]
    open spec fn w_fin(&self) -> Seq<u8> { self.0.w_fin() }
    #[verifier::prophetic]
    open spec fn w_fflush(&self) -> bool { self.0.w_fflush() }
}
impl WriteSpecImpl for Blake2b_256 {
    open spec fn written(&self) -> Seq<u8> { self.0.written() }
    open spec fn w_head(&self) -> Seq<u8> { Seq::empty() }
    open spec fn w_tag(&self) -> int { 0 }
    open spec fn w_inv(&self) -> bool { true }
    open spec fn flushed(&self) -> bool { self.0.flushed() }
    #[verifier::prophetic]
    open spec fn w_fin(&self) -> Seq<u8> { self.0.w_fin() }
    #[verifier::prophetic]
    open spec fn w_fflush(&self) -> bool { self.0.w_fflush() }
}
impl WriteSpecImpl for Blake3_256 {
    open spec fn written(&self) -> Seq<u8> { self.0.written() }
    open spec fn w_head(&self) -> Seq<u8> { Seq::empty() }
    open spec fn w_tag(&self) -> int { 0 }
    open spec fn w_inv(&self) -> bool { true }
    open spec fn flushed(&self) -> bool { self.0.flushed() }
    #[verifier::prophetic]
    open spec fn w_fin(&self) -> Seq<u8> { self.0.w_fin() }
    #[verifier::prophetic]
    open spec fn w_fflush(&self) -> bool { self.0.w_fflush() }
}
@@type v1::hash::Hash
@items
    spec fn alg() -> HashTypeEnum;
    spec fn resets() -> bool;
@@type v1::hash::HashOutput
@items
    spec fn hb(&self) -> Seq<u8>;
@@type impl v1::hash::<Sha512_256 as Hash>
@items
    open spec fn alg() -> HashTypeEnum { HashTypeEnum::Sha512_256 }
    open spec fn resets() -> bool { true }
@@type impl v1::hash::<Blake2b_256 as Hash>
@items
    open spec fn alg() -> HashTypeEnum { HashTypeEnum::Blake2b_256 }
    open spec fn resets() -> bool { true }
@@type impl v1::hash::<Blake3_256 as Hash>
@items
    open spec fn alg() -> HashTypeEnum { HashTypeEnum::Blake3_256 }
    // known finding: giving a digest does not reset this hasher
    open spec fn resets() -> bool { false }
@@type impl v1::hash::<Sha512_256_Res as HashOutput>
@items
    open spec fn hb(&self) -> Seq<u8> { self.0@ }
@@type impl v1::hash::<Blake_Res as HashOutput>
@items
    open spec fn hb(&self) -> Seq<u8> { self.0@ }
@@fn v1::hash::Hash::name
@ret r
@spec
    ensures r.b() == alg_name(Self::alg())
@@fn v1::hash::Hash::update
@spec
    requires (*old(self)).w_inv()
    ensures (*final(self)).w_inv(), (*final(self)).written() == (*old(self)).written() + data@
@@fn v1::hash::Hash::total_hash
@ret r
@spec
    requires (*old(self)).w_inv()
    ensures (*final(self)).w_inv(), r.hb() == dg(Self::alg(), (*old(self)).written()), // [P10 P11 P14]
        (*final(self)).written() == (if Self::resets() { Seq::<u8>::empty() } else { (*old(self)).written() })
@@fn v1::hash::Hash::hash_file
@ret r
@spec
    requires (*old(self)).w_inv()
    ensures f.rd_okf() == f.rd_ok(),
        r is Ok ==> (*final(self)).w_inv()
            && r->Ok_0.hb() == dg(Self::alg(), (*old(self)).written() + f.rd_data().take(imin(block_size as int, f.rd_data().len() as int)))
            && f.rd_final() == f.rd_data().skip(imin(block_size as int, f.rd_data().len() as int))
            && (*final(self)).written() == (if Self::resets() { Seq::<u8>::empty() }
                else { (*old(self)).written() + f.rd_data().take(imin(block_size as int, f.rd_data().len() as int)) })
@@fn v1::hash::Hash::hash_and_size
@ret r
@spec
    requires (*old(self)).w_inv()
    ensures f.rd_okf() == f.rd_ok(),
        r is Ok ==> (*final(self)).w_inv() && r->Ok_0.0 == imin(block_size as int, f.rd_data().len() as int)
            && r->Ok_0.1.hb() == dg(Self::alg(), (*old(self)).written() + f.rd_data().take(imin(block_size as int, f.rd_data().len() as int)))
            && f.rd_final() == f.rd_data().skip(imin(block_size as int, f.rd_data().len() as int))
            && (*final(self)).written() == (if Self::resets() { Seq::<u8>::empty() }
                else { (*old(self)).written() + f.rd_data().take(imin(block_size as int, f.rd_data().len() as int)) })
@@fn v1::hash::HashOutput::result
@ret r
@spec
    ensures r@ == self.hb()
@@fn v1::hash::Sha512_256::new
@ret r
@call Sha512Trunc256::default => vp_sha_new
@spec
    ensures wt(&r) == Seq::<u8>::empty()
@@fn v1::hash::Blake2b_256::new
@ret r
@call VarBlake2b::new => vp_b2_new
@spec
    ensures wt(&r) == Seq::<u8>::empty()
@@fn v1::hash::Blake3_256::new
@ret r
@call blake3::Hasher::new => vp_b3_new
@spec
    ensures wt(&r) == Seq::<u8>::empty()
@@fn v1::hash::<Sha512_256 as Write>::write
@@fn v1::hash::<Sha512_256 as Write>::flush
@@fn v1::hash::<Blake2b_256 as Write>::write
@@fn v1::hash::<Blake2b_256 as Write>::flush
@@fn v1::hash::<Blake3_256 as Write>::write
@@fn v1::hash::<Blake3_256 as Write>::flush
@@fn v1::hash::<Sha512_256 as Hash>::name
@at start
    proof { lemma_names(); }
@@fn v1::hash::<Sha512_256 as Hash>::update
@call .update => &mut vp_sha_update
@@fn v1::hash::<Sha512_256 as Hash>::total_hash
@call .finalize_into_dirty => &mut vp_sha_final
@call .reset => &mut vp_sha_reset
@@fn v1::hash::<Blake2b_256 as Hash>::name
@at start
    proof { lemma_names(); }
@@fn v1::hash::<Blake2b_256 as Hash>::update
@call .update => &mut vp_b2_update
@@fn v1::hash::<Blake2b_256 as Hash>::total_hash
@@fn v1::hash::<Blake3_256 as Hash>::name
@at start
    proof { lemma_names(); }
@@fn v1::hash::<Blake3_256 as Hash>::update
@call .update => &mut vp_b3_update
@@fn v1::hash::<Blake3_256 as Hash>::total_hash
@call .finalize => &vp_b3_finalize
@call .as_bytes => &vp_b3_bytes
@call .reset => &mut vp_b3_reset
@@fn v1::hash::<Sha512_256_Res as HashOutput>::result
@@fn v1::hash::<Blake_Res as HashOutput>::result
@@item v1::hash::LOWER_CHARS
pub exec static LOWER_CHARS: &'static[u8]
    ensures LOWER_CHARS@.len() == 16, forall|i: int| 0 <= i < 16 ==> #[trigger] LOWER_CHARS@[i] == hexdig(i)
{
    let r: &'static [u8] = $EXPR;
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] r@[i] == hexdig(i) by {} }
    r
}
@@fn v1::hash::<Sha512_256_Res as LowerHex>::fmt
@opt inherent=yes
@call .enumerate => vp_enumerate
@opt bits=yes
@call .precision => &vp_precision
@call .write_str => vp_write_str
@ret r
@spec
    requires fprec(old(f)) is None || fprec(old(f))->0 <= 64
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + hex(self.hb()).take(if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }) // [P10 P11]
@loop 0
    invariant
        data@ == self.hb(), data@.len() == 32, max_digits <= 64, max_digits == (if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }),
        *f == *old(f),
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= todo, max_digits <= 2 * todo <= 64,
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[k]).0 == todo - vp_it0.remaining().len() + k
            && *vp_it0.remaining()[k].1 == data@[todo - vp_it0.remaining().len() + k],
        hex_filled(res@, data@, todo - vp_it0.remaining().len()),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof { lemma_unnibble(); lemma_hex_none(res@, data@); }
@at loop 0 enter
    let ghost todo = vp_it0.remaining().len();
@at loop 0 head
    let ghost res0 = res@;
@at loop 0 tail
    proof {
        let (ga, gb) = (hexdig(data@[i as int] as int / 16), hexdig(data@[i as int] as int % 16));
        assert(res@ =~= res0.update(2 * i as int, ga).update(2 * i as int + 1, gb));
        lemma_hex_step(res0, res@, data@, i as int, ga, gb);
    }
@at loop 0 exit
    proof { lemma_hex_done(data@, res@, max_digits as int, todo as int); }
@@fn v1::hash::<Blake_Res as LowerHex>::fmt
@opt inherent=yes
@call .enumerate => vp_enumerate
@opt bits=yes
@call .precision => &vp_precision
@call .write_str => vp_write_str
@ret r
@spec
    requires fprec(old(f)) is None || fprec(old(f))->0 <= 64
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + hex(self.hb()).take(if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }) // [P10 P11]
@loop 0
    invariant
        data@ == self.hb(), data@.len() == 32, max_digits <= 64, max_digits == (if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }),
        *f == *old(f),
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= todo, max_digits <= 2 * todo <= 64,
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[k]).0 == todo - vp_it0.remaining().len() + k
            && *vp_it0.remaining()[k].1 == data@[todo - vp_it0.remaining().len() + k],
        hex_filled(res@, data@, todo - vp_it0.remaining().len()),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof { lemma_unnibble(); lemma_hex_none(res@, data@); }
@at loop 0 enter
    let ghost todo = vp_it0.remaining().len();
@at loop 0 head
    let ghost res0 = res@;
@at loop 0 tail
    proof {
        let (ga, gb) = (hexdig(data@[i as int] as int / 16), hexdig(data@[i as int] as int % 16));
        assert(res@ =~= res0.update(2 * i as int, ga).update(2 * i as int + 1, gb));
        lemma_hex_step(res0, res@, data@, i as int, ga, gb);
    }
@at loop 0 exit
    proof { lemma_hex_done(data@, res@, max_digits as int, todo as int); }
@@rem
