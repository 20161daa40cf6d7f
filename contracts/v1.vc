@@module v1
@use
use crate::vp::*;
use crate::spec::*;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
/// [P13] an index of the directories of the configuration: nothing else is written, and it is flushed
pub open spec fn indexed(a: HashTypeEnum, bs: nat, config: &ScannerConfig, before: Seq<u8>, after: Seq<u8>) -> bool {
    exists|t: Seq<u8>| #[trigger] scan::scanned(Cfg { alg: a, resets: alg_resets(a), bs: bs }, config.dirs@, t) && after == before + index_text(a, bs, t)
}
pub open spec fn config_ok(config: &ScannerConfig) -> bool { config.block_size > 0 && config.threads < 1_000_000_000 }
/// what the writer of a whole index has written in the end
proof fn lemma_indexed(a: HashTypeEnum, bs: nat, config: &ScannerConfig, before: Seq<u8>, after: Seq<u8>)
    ensures (exists|t: Seq<u8>| #[trigger] scan::scanned(Cfg { alg: a, resets: alg_resets(a), bs: bs }, config.dirs@, t)
        && after == (before + header_row(a, bs) + nl()) + (Seq::<u8>::empty() + t) + footer_row(a, Seq::<u8>::empty() + t) + nl()) ==> indexed(a, bs, config, before, after)
{
    if exists|t: Seq<u8>| #[trigger] scan::scanned(Cfg { alg: a, resets: alg_resets(a), bs: bs }, config.dirs@, t)
        && after == (before + header_row(a, bs) + nl()) + (Seq::<u8>::empty() + t) + footer_row(a, Seq::<u8>::empty() + t) + nl() {
        let t = choose|t: Seq<u8>| #[trigger] scan::scanned(Cfg { alg: a, resets: alg_resets(a), bs: bs }, config.dirs@, t)
            && after == (before + header_row(a, bs) + nl()) + (Seq::<u8>::empty() + t) + footer_row(a, Seq::<u8>::empty() + t) + nl();
        assert(Seq::<u8>::empty() + t =~= t);
        assert(after =~= before + index_text(a, bs, t));
    }
}
/// [P02 P13] a scanned index is read back entry by entry to its end: the entries of a walk over the directories, in the order of the index
pub proof fn lemma_indexed_entries(a: HashTypeEnum, bs: nat, config: &ScannerConfig, before: Seq<u8>, after: Seq<u8>)
    requires indexed(a, bs, config, before, after), 0 < bs <= u64::MAX
    ensures exists|t: Seq<u8>, vs: Seq<Visit>| #![trigger index_text(a, bs, t), walk_text(vs)] {
        let c = Cfg { alg: a, resets: alg_resets(a), bs: bs };
        &&& after == before + index_text(a, bs, t)
        &&& walks(c, scan::root_queue(config.dirs@), vs)
        &&& entries(index_start(index_text(a, bs, t).skip(header_row(a, bs).len() as int + 1)), dlen(), bs) == Some(walk_ents(c, vs))
        &&& ordered(walk_ents(c, vs), scan::roots(config.dirs@).len() <= 1)
    }
{
    let c = Cfg { alg: a, resets: alg_resets(a), bs: bs };
    let t = choose|t: Seq<u8>| #[trigger] scan::scanned(c, config.dirs@, t) && after == before + index_text(a, bs, t);
    let q = scan::root_queue(config.dirs@);
    let vs = choose|vs: Seq<Visit>| walks(c, q, vs) && t == walk_text(vs);
    assert(abs_nodes(q));
    assert(apart(q));
    lemma_walk_index(c, q, vs);
    if scan::roots(config.dirs@).len() <= 1 { assert(thin(q)); }
    assert(after == before + index_text(a, bs, t) && t == walk_text(vs));
}
@@fn v1::scan
@ret r
@spec
    requires config_ok(config), (*old(out)).w_inv()
    ensures r is Ok ==> (*final(out)).flushed() && indexed(config.hash.0, config.block_size as nat, config, (*old(out)).written(), (*final(out)).written()) // [P13 P10 P11 P12 P16]
@@fn v1::add_progress
@ret r
@spec
    requires out.w_ok()
    ensures r is Ok ==> !out.failed() && out.fflush() // [P12 P13 P16]
        && exists|t: Seq<u8>| #[trigger] scan::scanned(out.wcfg(), config.dirs@, t)
            && out.fin() == out.whead() + (out.body() + t) + footer_row(out.wcfg().alg, out.body() + t) + nl() // [P10 P12 P13 P16]
@@fn v1::add_threads
@ret r
@spec
    requires config_ok(config), (*old(out)).w_inv(), hash.w_inv(), hash.written() == Seq::<u8>::empty(), H::resets() == alg_resets(H::alg())
    ensures r is Ok ==> (*final(out)).flushed() && indexed(H::alg(), config.block_size as nat, config, (*old(out)).written(), (*final(out)).written()) // [P10 P11 P12 P13 P16]
@at start
    proof { lemma_indexed(H::alg(), config.block_size as nat, config, (*old(out)).written(), (*final(out)).written()); }
@@fn v1::add_hash
@ret r
@spec
    requires config_ok(config), (*old(out)).w_inv()
    ensures r is Ok ==> (*final(out)).flushed() && indexed(config.hash.0, config.block_size as nat, config, (*old(out)).written(), (*final(out)).written()) // [P13 P10 P11 P12 P16]
@@rem
