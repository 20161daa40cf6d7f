@@module hash_type
@use
use crate::vp::*;
use crate::spec::*;
use vstd::utf8::*;
@ghost
broadcast use crate::vp::vp_axioms;

impl vstd::std_specs::cmp::PartialEqSpecImpl for HashType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HashType) -> bool { *self == *o }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for HashTypeEnum {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &HashTypeEnum) -> bool { *self == *o }
}
@@fn hash_type::HashType::output_bytes
@ret r
@spec
    ensures r == dlen()
@@fn hash_type::HashType::sha512_256
@ret r
@spec
    ensures r.0 is Sha512_256
@@fn hash_type::HashType::blake2b_256
@ret r
@spec
    ensures r.0 is Blake2b_256
@@fn hash_type::HashType::blake3_256
@ret r
@spec
    ensures r.0 is Blake3_256
@@fn hash_type::<HashType as FromStr>::from_str
@opt inherent=yes
@ret r
@at start
    proof {
        lemma_names(); lemma_names_differ();
        encode_utf8_decode_utf8(val@); encode_utf8_decode_utf8("sha512/256"@); encode_utf8_decode_utf8("blake2b/256"@); encode_utf8_decode_utf8("blake3/256"@);
        ax_str_ext(val, "sha512/256");
        assert(val.b() == alg_name(HashTypeEnum::Sha512_256) ==> val@ == "sha512/256"@);
        ax_str_ext(val, "blake2b/256");
        assert(val.b() == alg_name(HashTypeEnum::Blake2b_256) ==> val@ == "blake2b/256"@);
        ax_str_ext(val, "blake3/256");
        assert(val.b() == alg_name(HashTypeEnum::Blake3_256) ==> val@ == "blake3/256"@);
    }
@spec
    ensures match r { Ok(h) => val.b() == alg_name(h.0), Err(_) => forall|a: HashTypeEnum| val.b() != #[trigger] alg_name(a) } // [P17]
@@fn hash_type::<HashType as Display>::fmt
@opt inherent=yes
@call .fmt => vp_str_fmt
@ret r
@at start
    proof { lemma_names(); }
@spec
    ensures fplain(old(f)) && r is Ok ==> fw(final(f)) == fw(old(f)) + alg_name(self.0) // [P02 P10 P17]
@@rem
