@@module read
@use
use crate::vp::*;
use crate::spec::*;
use crate::HashTypeEnum;
use vstd::std_specs::iter::IteratorSpec;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
/// the byte `h` is written at the `k`-th place of the last line `buf`
pub open spec fn digit_at(buf: Seq<u8>, k: int, h: u8) -> bool { is_hexd(buf[1 + 2 * k]) && is_hexd(buf[2 + 2 * k]) && h == unhexbyte(buf[1 + 2 * k], buf[2 + 2 * k]) }
pub open spec fn digits_at(buf: Seq<u8>, h: Seq<u8>) -> bool { forall|k: int| 0 <= k < h.len() ==> digit_at(buf, k, #[trigger] h[k]) }
@@fn read::hex_to_digit
@ret r
@spec
    ensures match r { Some(d) => is_hexd(v) && d == hexval(v) && d < 16, None => !is_hexd(v) }
@at start
    proof { assert(forall|x: u8| #[trigger] (x & 0x0f) == x % 16) by (bit_vector); }
@@fn read::get_hash
@call .take => vp_take
@call .read_to_end => vp_take_to_end
@call .position => vp_position
@call .seek => vp_seek
@call .into => vp_kind_error
@call HashType::from_str => HashType::vp_from_str
@opt map=option
@ret r
@spec
    requires (*old(f)).rd_data() == sk_all(&*old(f))
    ensures match r {
        Ok(h) => checksum(sk_all(&*old(f))) == Some(h@), // [P15]
        Err(_) => sk_ok(&*old(f)) ==> checksum(sk_all(&*old(f))) is None, // [P15]
    }
@closure 0 |vp_p0: &u8| -> (r: bool)
    ensures r == (*vp_p0 == 0x20)
@at start
    let ghost all = sk_all(&*old(f));
    let ghost dd = all.subrange(all.len() - 65, all.len() - 1);
    proof { lemma_nibbles(); lemma_sig(); lemma_checksum_alg(all); assert(vp_at(10) && vp_at(11)); }
@at call .read_to_end#0 after
    proof { assert(signature@ =~= all.take(imin(32, all.len() as int))); assert(signature@.len() >= 32 ==> signature@.take(16) =~= all.take(16)); }
@at call .ok_or#0 after
    proof {
        let n = alg_name(hash.0).len();
        assert(all.skip(16).take(n as int) =~= alg_name(hash.0));
        assert(all.take(16) =~= crate::spec::signature() + sp());
        assert(checksum_alg(all, hash.0));
    }
@at loop 0 head
    let ghost hash0 = hash@;
    proof { let k = hash@.len() as int; assert(d@[0] == dd[2 * k]); assert(d@[1] == dd[2 * k + 1]); assert(d@[0] == buf@[1 + 2 * k]); assert(d@[1] == buf@[2 + 2 * k]); }
@at loop 0 tail
    proof {
        let k = hash0.len() as int;
        assert(hash@.len() == k + 1 && hash@[k] == unhexbyte(buf@[1 + 2 * k], buf@[2 + 2 * k]));
        assert forall|i: int| 0 <= i < hash@.len() implies digit_at(buf@, i, #[trigger] hash@[i]) by { if i < k { assert(hash@[i] == hash0[i]); } }
    }
@at end
    proof {
        assert forall|i: int| 0 <= i < dd.len() implies is_hexd(#[trigger] dd[i]) by {
            assert(digit_at(buf@, i / 2, hash@[i / 2]));
            if i % 2 == 0 { assert(dd[i] == buf@[1 + 2 * (i / 2)]); } else { assert(dd[i] == buf@[2 + 2 * (i / 2)]); }
        }
        assert forall|k: int| 0 <= k < 32 implies hash@[k] == unhex(dd)[k] by {
            assert(digit_at(buf@, k, hash@[k]));
            assert(dd[2 * k] == buf@[1 + 2 * k]); assert(dd[2 * k + 1] == buf@[2 + 2 * k]);
        }
        assert(hash@ =~= unhex(dd));
    }
@loop 0
    invariant
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some, vp_it0.remaining().len() <= 32,
        all.len() >= 66, buf@ == all.skip(all.len() - 66), buf@.len() == 66,
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[k])@ =~= buf@.subrange(1, 65).subrange((32 - vp_it0.remaining().len() + k) * 2, (32 - vp_it0.remaining().len() + k) * 2 + 2),
        hash@.len() == 32 - vp_it0.remaining().len(),
        digits_at(buf@, hash@),
    decreases vp_it0.decrease()->0
@@rem
