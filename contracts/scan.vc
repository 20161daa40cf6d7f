@@module v1::scan
@use
use crate::vp::*;
use crate::spec::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::PartialEqSpec;
use super::writer::{added, added_file};
use std::cmp::Ordering;
use vstd::utf8::*;
@ghost
broadcast use {crate::vp::vp_axioms, crate::vp::its_push, crate::vp::its_len, crate::vp::dirs_len, crate::spec::seq_facts};
pub open spec fn node(x: (PathBuf, Vec<(Arc<Dir>, PathBuf)>)) -> Node { Node { path: x.0.b(), dirs: dirs_of(x.1@) } }
#[verifier::opaque]
pub open spec fn nodes(s: Seq<(PathBuf, Vec<(Arc<Dir>, PathBuf)>)>) -> Seq<Node> { Seq::new(s.len(), |i: int| node(s[i])) }
type Q = (PathBuf, Vec<(Arc<Dir>, PathBuf)>);
/// the queue: its front is taken, and nodes are put in front of it
proof fn lemma_q_pop(s: Seq<Q>, t: Seq<Q>, x: Q)
    requires s.len() > 0, s[0] == x, t == s.skip(1)
    ensures nodes(s)[0] == node(x), nodes(t) == nodes(s).skip(1), nodes(s).len() == s.len(), abs_nodes(nodes(s)) ==> is_abs(node(x).path) && abs_nodes(nodes(t))
{
    reveal(nodes);
    assert(nodes(t) =~= nodes(s).skip(1));
    if abs_nodes(nodes(s)) {
        assert(is_abs(nodes(s)[0].path));
        assert forall|k: int| 0 <= k < t.len() implies is_abs(#[trigger] nodes(t)[k].path) by { assert(nodes(t)[k] == nodes(s)[k + 1]); }
    }
}
proof fn lemma_q_front(s: Seq<Q>, t: Seq<Q>, cs: Seq<Node>, rest: Seq<Node>)
    requires s.len() == t.len() + 1, s.skip(1) =~= t, nodes(t) == cs + rest
    ensures nodes(s) == (seq![node(s[0])] + cs) + rest, abs_nodes(nodes(t)) && is_abs(node(s[0]).path) ==> abs_nodes(nodes(s))
{
    reveal(nodes);
    assert forall|k: int| 1 <= k < s.len() implies nodes(s)[k] == nodes(t)[k - 1] by { assert(s.skip(1)[k - 1] == s[k]); }
    assert(nodes(s) =~= seq![node(s[0])] + (cs + rest));
    assert(nodes(s) =~= (seq![node(s[0])] + cs) + rest);
}
proof fn lemma_q_one(s: Seq<Q>)
    requires s.len() == 1
    ensures nodes(s) == seq![node(s[0])]
{
    reveal(nodes);
    assert(nodes(s) =~= seq![node(s[0])]);
}
proof fn lemma_q_none(s: Seq<Q>)
    ensures nodes(s).len() == s.len()
{
    reveal(nodes);
}
proof fn lemma_group_dirs(v: Seq<(Arc<Dir>, PathBuf)>, xs: Seq<(Arc<Dir>, openat::Entry)>)
    requires v.len() == xs.len(), forall|j: int| 0 <= j < v.len() ==> *(#[trigger] v[j]).0 == *xs[j].0 && v[j].1.b() == ename(&xs[j].1)
    ensures dirs_of(v) == subs(its(xs))
{
    reveal(dirs_of); reveal(its);
    assert(dirs_of(v) =~= subs(its(xs)));
}
pub open spec fn slash() -> Seq<u8> { seq![0x2fu8] }
/// the directories that were added at the root
pub open spec fn roots(s: Seq<(PathBuf, PathBuf)>) -> Seq<Dir>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_abs(s.last().1.b()) && comps(s.last().1.b()).len() == 0 { roots(s.drop_last()).push(fs_open(s.last().0.b())) }
    else { roots(s.drop_last()) }
}
pub open spec fn root_queue(s: Seq<(PathBuf, PathBuf)>) -> Seq<Node> { seq![Node { path: slash(), dirs: roots(s) }] }
/// [P13] what a scan of the directories of the configuration writes after the header
pub open spec fn scanned(c: Cfg, s: Seq<(PathBuf, PathBuf)>, t: Seq<u8>) -> bool {
    exists|vs: Seq<Visit>| #[trigger] walks(c, root_queue(s), vs) && t == walk_text(vs)
}
proof fn lemma_slash()
    ensures "/".b() == slash(), ".".b() == seq![0x2eu8], is_abs(slash()), comps(slash()).len() == 0
{
    reveal_strlit("/"); is_ascii_chars_encode_utf8("/"@);
    reveal_strlit("."); is_ascii_chars_encode_utf8("."@);
    assert("/".b() =~= slash());
    assert(".".b() =~= seq![0x2eu8]);
    lemma_slash_at(slash());
    assert(comps(slash()).len() == 0) by { reveal_with_fuel(comps, 3); }
}
/// the keys are the paths of the items
pub open spec fn keyed(p: Seq<u8>, sd: Seq<(Arc<Dir>, openat::Entry)>, keys: Seq<PathBuf>) -> bool {
    forall|j: int| 0 <= j < keys.len() ==> (#[trigger] keys[j]).b() == join(p, ename(&sd[j].1))
}
proof fn lemma_key(p: Seq<u8>, sd: Seq<(Arc<Dir>, openat::Entry)>, gs: Seq<(PathBuf, VpItems<(Arc<Dir>, openat::Entry)>)>, cuts: Seq<int>, keys: Seq<PathBuf>, i: int)
    requires is_abs(p), group_ends(sd, gs, cuts, keys), keyed(p, sd, keys), 0 <= i < gs.len(), forall|k: int| 0 <= k < sd.len() ==> is_name(#[trigger] its(sd)[k].name),
    ensures ({ let ss = its(sd); let a = cuts[i]; let b = cuts[i + 1];
        &&& 0 <= a < b <= ss.len()
        &&& forall|x: int| a <= x < b ==> (#[trigger] ss[x]).name == ss[a].name
        &&& b < ss.len() ==> ss[b].name != ss[a].name
        &&& gs[i].0.b() == join(p, ss[a].name)
    })
{
    reveal(group_ends);
    let ss = its(sd); let a = cuts[i]; let b = cuts[i + 1];
    assert forall|x: int| a <= x < b implies (#[trigger] ss[x]).name == ss[a].name by {
        assert(gs[i].0.eq_spec(&keys[x]));
        assert(ss[x] == sd[x].it()); assert(ss[a] == sd[a].it());
        assert(gs[i].0 == keys[a]);
        assert(keys[a].b() == join(p, ss[a].name));
        assert(keys[x].b() == join(p, ss[x].name));
        lemma_child_path(p, ss[a].name, ss[x].name);
    }
    if b < ss.len() {
        assert(i + 1 < gs.len()) by { if i + 1 == gs.len() { assert(cuts[gs.len() as int] == sd.len()); } }
        assert(gs[i + 1].0.b() == join(p, ename(&sd[cuts[i + 1]].1)));
        assert(!gs[i].0.eq_spec(&gs[i + 1].0));
        lemma_child_path(p, ss[a].name, ss[b].name);
    }
}
proof fn lemma_names_of(ss: Seq<Item>, ds: Seq<Dir>)
    requires collected(ss, ds, true)
    ensures forall|k: int| 0 <= k < ss.len() ==> is_name((#[trigger] ss[k]).name)
{
    reveal(collected);
    assert forall|k: int| 0 <= k < ss.len() implies is_name((#[trigger] ss[k]).name) by {
        lemma_of_name_has(ss, k);
        assert(of_name(ss, ss[k].name) == named_in(ds, ss[k].name, true));
        lemma_named_in_name(ds, ss[k].name, true);
    }
}
/// some names of the listing of `dd` have been dealt with
#[verifier::opaque]
pub open spec fn listed(es: Seq<Result<openat::Entry, std::io::Error>>, i: int, f: Seq<Item>, s: Seq<Item>, ds: Seq<Dir>, dd: Dir) -> bool {
    &&& 0 <= i <= es.len()
    &&& is_listing(&dd, es)
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] es[j]) is Ok
    &&& collecting(f, ds, dd, list_names(es).take(i), false)
    &&& collecting(s, ds, dd, list_names(es).take(i), true)
}
proof fn lemma_list_start(es: Seq<Result<openat::Entry, std::io::Error>>, f: Seq<Item>, s: Seq<Item>, ds: Seq<Dir>, dd: Dir)
    requires is_listing(&dd, es), collected(f, ds, false), collected(s, ds, true)
    ensures listed(es, 0, f, s, ds, dd)
{
    reveal(listed);
    lemma_collect_begin(f, ds, dd, false);
    lemma_collect_begin(s, ds, dd, true);
    assert(list_names(es).take(0) =~= Seq::<Seq<u8>>::empty());
}
/// what the listing tells about one entry
proof fn lemma_list_at(es: Seq<Result<openat::Entry, std::io::Error>>, i: int, f: Seq<Item>, s: Seq<Item>, ds: Seq<Dir>, dd: Dir)
    requires listed(es, i, f, s, ds, dd), i < es.len()
    ensures es[i] is Ok ==> fs_has(&dd, ename(&es[i]->Ok_0)) && (ekind(&es[i]->Ok_0) is Some ==> ekind(&es[i]->Ok_0)->Some_0 == fs_kind(&dd, ename(&es[i]->Ok_0)))
{
    reveal(listed); reveal(is_listing);
}
proof fn lemma_list_step(es: Seq<Result<openat::Entry, std::io::Error>>, i: int, f: Seq<Item>, s: Seq<Item>, f1: Seq<Item>, s1: Seq<Item>, ds: Seq<Dir>, dd: Dir)
    requires listed(es, i, f, s, ds, dd), 0 <= i < es.len(), es[i] is Ok,
        f1 =~= f + item_in(dd, ename(&es[i]->Ok_0), false), s1 =~= s + item_in(dd, ename(&es[i]->Ok_0), true)
    ensures listed(es, i + 1, f1, s1, ds, dd)
{
    lemma_list_at(es, i, f, s, ds, dd);
    reveal(listed); reveal(is_listing);
    let nm = list_name(es, i);
    let seen = list_names(es).take(i);
    assert(!seen.contains(nm)) by {
        if seen.contains(nm) { let j = choose|j: int| 0 <= j < i && seen[j] == nm; assert(es[j] is Ok && list_name(es, j) == nm); }
    }
    lemma_collect_step(f, ds, dd, seen, false, nm);
    lemma_collect_step(s, ds, dd, seen, true, nm);
    assert(seen.push(nm) =~= list_names(es).take(i + 1));
}
proof fn lemma_list_end(es: Seq<Result<openat::Entry, std::io::Error>>, f: Seq<Item>, s: Seq<Item>, ds: Seq<Dir>, dd: Dir)
    requires listed(es, es.len() as int, f, s, ds, dd)
    ensures collected(f, ds.push(dd), false), collected(s, ds.push(dd), true)
{
    reveal(listed); reveal(is_listing);
    let seen = list_names(es).take(es.len() as int);
    assert forall|k: Seq<u8>| #[trigger] fs_has(&dd, k) implies seen.contains(k) by {
        let j = choose|j: int| 0 <= j < es.len() && (#[trigger] es[j]) is Ok && list_name(es, j) == k;
        assert(seen[j] == k);
    }
    lemma_collect_end(f, ds, dd, seen, false);
    lemma_collect_end(s, ds, dd, seen, true);
}
/// the rows of the first items have been added
#[verifier::opaque]
pub open spec fn rowed(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>, i: int, b0: Seq<u8>, body: Seq<u8>) -> bool {
    rows.len() == i && 0 <= i <= items.len() && body == b0 + cat(rows) && forall|j: int| 0 <= j < i ==> is_item_row(c, items[j], #[trigger] rows[j])
}
pub open spec fn next_row(c: Cfg, x: Item, b0: Seq<u8>, b1: Seq<u8>) -> Seq<u8> { choose|t: Seq<u8>| b1 == b0 + t && #[trigger] is_item_row(c, x, t) }
proof fn lemma_row_start(c: Cfg, items: Seq<Item>, b0: Seq<u8>)
    ensures rowed(c, items, Seq::empty(), 0, b0, b0)
{
    reveal(rowed);
    assert(b0 + cat(Seq::empty()) =~= b0);
}
proof fn lemma_row_step(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>, i: int, b0: Seq<u8>, f1: bool, b1: Seq<u8>, f2: bool, b2: Seq<u8>)
    requires !f1 ==> rowed(c, items, rows, i, b0, b1), 0 <= i < items.len(),
        ({ let x = items[i];
            if x.link { added(f1, b1, f2, b2, link_row(x.name, fs_link(&x.d, x.name))) } else { added_file(f1, b1, f2, b2, c, &x.d, x.name) } })
    ensures f2 || (!f1 && rowed(c, items, rows.push(next_row(c, items[i], b1, b2)), i + 1, b0, b2))
{
    reveal(rowed);
    if !f2 {
        let x = items[i];
        if x.link {
            let t = link_row(x.name, fs_link(&x.d, x.name)) + nl();
            assert(b2 =~= b1 + t && is_item_row(c, x, t));
        } else {
            let t = choose|t: Seq<u8>| b2 == b1 + t && #[trigger] is_file_row(c, x.name, is_exe(fs_mode(&x.d, x.name)), fs_size(&x.d, x.name), fs_data(&x.d, x.name), t);
            assert(b2 == b1 + t && is_item_row(c, x, t));
        }
        let r = next_row(c, x, b1, b2);
        lemma_cat_push(rows, r);
        assert(b2 =~= b0 + cat(rows.push(r)));
    }
}
proof fn lemma_row_end(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>, b0: Seq<u8>, body: Seq<u8>)
    requires rowed(c, items, rows, items.len() as int, b0, body)
    ensures are_rows(c, items, rows), body == b0 + cat(rows)
{
    reveal(rowed);
}
/// the first groups have become nodes
#[verifier::opaque]
pub open spec fn group_inv(nd: Node, sd: Seq<(Arc<Dir>, openat::Entry)>, gs: Seq<(PathBuf, VpItems<(Arc<Dir>, openat::Entry)>)>, i: int, cs: Seq<Node>) -> bool {
    &&& is_abs(nd.path)
    &&& collected(its(sd), nd.dirs, true)
    &&& descending(its(sd))
    &&& 0 <= i <= gs.len()
    &&& group_ends(sd, gs, gcuts(gs), gkeys(gs))
    &&& keyed(nd.path, sd, gkeys(gs))
    &&& grouping(its(sd), gcuts(gs)[i], nd, cs)
}
proof fn lemma_groups_start(nd: Node, sd: Seq<(Arc<Dir>, openat::Entry)>, gs: Seq<(PathBuf, VpItems<(Arc<Dir>, openat::Entry)>)>)
    requires is_abs(nd.path), collected(its(sd), nd.dirs, true), descending(its(sd)),
        group_ends(sd, gs, gcuts(gs), gkeys(gs)), keyed(nd.path, sd, gkeys(gs)),
    ensures group_inv(nd, sd, gs, 0, Seq::empty())
{
    reveal(group_inv); reveal(group_ends);
    lemma_group_start(its(sd), nd);
}
proof fn lemma_groups_step(nd: Node, sd: Seq<(Arc<Dir>, openat::Entry)>, gs: Seq<(PathBuf, VpItems<(Arc<Dir>, openat::Entry)>)>, i: int, cs: Seq<Node>, n1: Node)
    requires group_inv(nd, sd, gs, i, cs), i < gs.len(), n1.path == gs[i].0.b(), n1.dirs == subs(its(items_left(&gs[i].1)))
    ensures group_inv(nd, sd, gs, i + 1, seq![n1] + cs), is_abs(n1.path)
{
    reveal(group_inv); reveal(group_ends);
    let (cuts, keys) = (gcuts(gs), gkeys(gs));
    let ss = its(sd);
    lemma_names_of(ss, nd.dirs);
    lemma_key(nd.path, sd, gs, cuts, keys, i);
    lemma_grouping_step(ss, cuts[i], cuts[i + 1], nd, cs);
    let k = ss[cuts[i]].name;
    assert(its(items_left(&gs[i].1)) =~= ss.subrange(cuts[i], cuts[i + 1]));
    assert(n1 == child(nd, k));
    lemma_comps_join(nd.path, k);
}
proof fn lemma_groups_end(nd: Node, sd: Seq<(Arc<Dir>, openat::Entry)>, gs: Seq<(PathBuf, VpItems<(Arc<Dir>, openat::Entry)>)>, cs: Seq<Node>)
    requires group_inv(nd, sd, gs, gs.len() as int, cs)
    ensures is_children(nd, cs)
{
    reveal(group_inv); reveal(group_ends);
    lemma_grouping_end(its(sd), nd, cs);
}
@@fn v1::scan::find_roots
@call Dir::open => vp_dir_open
@opt try=match
@ret r
@spec
    ensures r is Ok ==> dirs_of(r->Ok_0@) == roots(config.dirs@) && roots(config.dirs@).len() > 0 // [P13]
@at start
    proof { lemma_slash(); }
@loop 0
    invariant
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= config.dirs@.len(),
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> *(#[trigger] vp_it0.remaining()[k]) == config.dirs@[config.dirs@.len() - vp_it0.remaining().len() + k],
        dirs_of(root@) == roots(config.dirs@.take(config.dirs@.len() - vp_it0.remaining().len())),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof { assert(dirs_of(root@) =~= roots(config.dirs@.take(0))); }
@at loop 0 head
    let ghost root0 = root@;
@at loop 0 tail
    proof {
        let n = config.dirs@.len() - vp_it0.remaining().len();
        assert(config.dirs@.take(n).drop_last() =~= config.dirs@.take(n - 1));
        assert(config.dirs@.take(n).last() == config.dirs@[n - 1]);
        let x = config.dirs@[n - 1];
        if is_abs(x.1.b()) && comps(x.1.b()).len() == 0 {
            assert(comps(x.1.b()) =~= comps(slash()));
            assert(root@.len() == root0.len() + 1);
            assert(is_dot(root@.last().1.b()));
            assert(*root@.last().0 == fs_open(x.0.b()));
        } else { assert(root@ == root0); }
        assert(dirs_of(root@) =~= roots(config.dirs@.take(n)));
    }
@at loop 0 after
    proof { assert(config.dirs@.take(config.dirs@.len() as int) =~= config.dirs@); }
@@rem
@@fn v1::scan::scan
@attr #[verifier::exec_allows_no_decreases_clause]
@opt try=match
@call .sub_dir => &vp_sub_dir
@call .list_dir => &vp_list_dir
@call .list_self => &vp_list_self
@call .metadata => &vp_metadata
@call .sort_by => &mut vp_sort_by
@call .group_by => vp_group_by
@call .into_iter => vp_into_iter
@call .map => vp_map
@closure 0 |vp_p0: &(Arc<Dir>, openat::Entry, bool), vp_p1: &(Arc<Dir>, openat::Entry, bool)| -> (r: Ordering)
    ensures r == bcmp(ename(&vp_p0.1), ename(&vp_p1.1))
@closure 1 |vp_p0: &(Arc<Dir>, openat::Entry), vp_p1: &(Arc<Dir>, openat::Entry)| -> (r: Ordering)
    ensures r == bcmp(ename(&vp_p1.1), ename(&vp_p0.1))
@closure 2 |vp_p0: &(Arc<Dir>, openat::Entry)| -> (r: PathBuf)
    ensures r.b() == join(path.b(), ename(&vp_p0.1))
@closure 3 |vp_p0: (Arc<Dir>, openat::Entry)| -> (r: (Arc<Dir>, PathBuf))
    ensures *r.0 == *vp_p0.0, r.1.b() == ename(&vp_p0.1)
@ret r
@spec
    requires index.w_ok()
    ensures r is Ok ==> !index.failed() && index.fflush() // [P12 P13 P16]
        && exists|t: Seq<u8>| #[trigger] scanned(index.wcfg(), config.dirs@, t)
            && index.fin() == index.whead() + (index.body() + t) + footer_row(index.wcfg().alg, index.body() + t) + nl() // [P10 P12 P13 P16]
@at start
    let ghost ix0 = index;
    let ghost c = index.wcfg();
    let ghost root = root_queue(config.dirs@);
    let ghost mut done: Seq<Visit> = Seq::empty();
    let ghost mut ds: Seq<Dir> = Seq::empty();
    let ghost mut i: int = 0;
    let ghost mut dd: Dir = arbitrary();
    let ghost mut rows: Seq<Seq<u8>> = Seq::empty();
    let ghost mut cs: Seq<Node> = Seq::empty();
    let ghost mut q: Seq<Node> = root;
    let ghost mut qv: Seq<Q> = Seq::empty();
    proof { lemma_slash(); lemma_leads_start(c, root); }
@loop 0
    invariant
        index.w_ok(), index.wcfg() == c, index.whead() == ix0.whead(), index.fin() == ix0.fin(), index.fflush() == ix0.fflush(),
        !index.failed() ==> !ix0.failed() && index.body() == ix0.body() + walk_text(done) && leads(c, root, done, q),
        nodes(queue@) == q, q.len() == queue@.len(), qv == queue@, abs_nodes(q),
@at loop 0 before
    proof {
        lemma_q_one(queue@);
        qv = queue@;
        assert(q.len() == 1);
        assert(ix0.body() + walk_text(done) =~= ix0.body());
    }
@at loop 1 before
    let ghost failed0 = index.failed();
    let ghost body0 = index.body();
    let ghost dirs0 = dirs@;
    let ghost nd = Node { path: path.b(), dirs: dirs_of(dirs0) };
    let ghost rest = nodes(queue@);
    proof {
        lemma_q_pop(qv, queue@, qv[0]);
        ds = Seq::empty();
        lemma_collect_none(true); lemma_collect_none(false);
        assert(its(files@) =~= Seq::empty());
        assert(its(subdirs@) =~= Seq::empty());
    }
@loop 1
    invariant
        vp_it1.obeys_prophetic_iter_laws(), vp_it1.decrease() is Some,
        ds.len() <= nd.dirs.len(), ds == nd.dirs.take(ds.len() as int),
        vp_it1.remaining() == dirs0.skip(ds.len() as int),
        collected(its(files@), ds, false), collected(its(subdirs@), ds, true),
        nodes(queue@) == rest, path.b() == nd.path,
    decreases vp_it1.decrease()->0
@at loop 1 tail
    proof {
        let n = ds.len() as int;
        assert(nd.dirs.take(n + 1) =~= nd.dirs.take(n).push(nd.dirs[n]));
        ds = ds.push(dd);
        assert(dirs0.skip(n).skip(1) =~= dirs0.skip(n + 1));
    }
@at loop 1 after
    proof { assert(nd.dirs.take(nd.dirs.len() as int) =~= nd.dirs); }
    let ghost f1 = its(files@);
    let ghost s1 = its(subdirs@);
@at loop 2 before
    proof { i = 0; dd = nd.dirs[ds.len() as int]; }
@at loop 2 enter
    let ghost es = vp_it2.remaining();
    proof { lemma_list_start(es, its(files@), its(subdirs@), ds, dd); }
@loop 2
    invariant
        vp_it2.obeys_prophetic_iter_laws(), vp_it2.decrease() is Some,
        0 <= i <= es.len(), vp_it2.remaining() == es.skip(i),
        listed(es, i, its(files@), its(subdirs@), ds, dd),
    decreases vp_it2.decrease()->0
@at loop 2 head
    let ghost f0 = its(files@);
    let ghost s0 = its(subdirs@);
    proof { lemma_list_at(es, i, f0, s0, ds, dd); }
@at loop 2 tail
    proof {
        lemma_list_step(es, i, f0, s0, its(files@), its(subdirs@), ds, dd);
        i = i + 1;
        assert(es.skip(i - 1).skip(1) =~= es.skip(i));
    }
@at loop 2 exit
    proof {
        assert(i == es.len());
        lemma_list_end(es, its(files@), its(subdirs@), ds, dd);
    }
@at loop 3 before
    let ghost b0 = index.body();
    let ghost failed1 = index.failed();
    let ghost fs = its(files@);
    let ghost files0 = files@;
    proof {
        lemma_collect_sorted(f1, fs, nd.dirs, false);
        i = 0; rows = Seq::empty();
        lemma_row_start(c, fs, b0);
    }
@loop 3
    invariant
        vp_it3.obeys_prophetic_iter_laws(), vp_it3.decrease() is Some,
        0 <= i <= files0.len(), vp_it3.remaining() == files0.skip(i),
        index.w_ok(), index.wcfg() == c, index.whead() == ix0.whead(), index.fin() == ix0.fin(), index.fflush() == ix0.fflush(),
        !index.failed() ==> rowed(c, fs, rows, i, b0, index.body()) && !failed1 && !ix0.failed(),
    decreases vp_it3.decrease()->0
@at loop 3 head
    let ghost ix1 = index;
@at loop 3 tail
    proof {
        assert(fs[i] == files0[i].it());
        lemma_row_step(c, fs, rows, i, b0, ix1.failed(), ix1.body(), index.failed(), index.body());
        rows = rows.push(next_row(c, fs[i], ix1.body(), index.body()));
        i = i + 1;
        assert(files0.skip(i - 1).skip(1) =~= files0.skip(i));
    }
@at loop 3 after
    proof { if !index.failed() { lemma_row_end(c, fs, rows, b0, index.body()); } }
@at loop 4 before
    let ghost sd = subdirs@;
    let ghost rows0 = rows;
    proof {
        lemma_collect_sorted(s1, its(sd), nd.dirs, true);
        i = 0; cs = Seq::empty();
        assert(nodes(queue@) =~= cs + rest);
    }
@at loop 4 enter
    let ghost gs = vp_it4.remaining();
    proof {
        let keys = gkeys(gs);
        assert(group_ends(sd, gs, gcuts(gs), keys));
        assert forall|j: int| 0 <= j < keys.len() implies (#[trigger] keys[j]).b() == join(nd.path, ename(&sd[j].1)) by {}
        assert(keyed(nd.path, sd, keys));
        lemma_groups_start(nd, sd, gs);
    }
@loop 4
    invariant
        vp_it4.obeys_prophetic_iter_laws(), vp_it4.decrease() is Some,
        0 <= i <= gs.len(), vp_it4.remaining() == gs.skip(i),
        path.b() == nd.path,
        group_inv(nd, sd, gs, i, cs), nodes(queue@) == cs + rest, abs_nodes(nodes(queue@)),
    decreases vp_it4.decrease()->0
@at loop 4 head
    let ghost q4 = queue@;
@at loop 4 tail
    proof {
        let n1 = node(queue@[0]);
        lemma_group_dirs(queue@[0].1@, items_left(&gs[i].1));
        lemma_groups_step(nd, sd, gs, i, cs, n1);
        lemma_q_front(queue@, q4, cs, rest);
        cs = seq![n1] + cs;
        i = i + 1;
        assert(gs.skip(i - 1).skip(1) =~= gs.skip(i));
    }
@at loop 4 exit
    proof { assert(i == gs.len()); lemma_groups_end(nd, sd, gs, cs); }
@at loop 4 after
    proof {
        let v = Visit { path: nd.path, items: fs, rows: rows0, children: cs };
        if !index.failed() {
            lemma_leads_step(c, root, done, q, v);
            let (x0, r0) = (ix0.body(), dir_row(nd.path) + nl());
            assert(body0 == x0 + walk_text(done));
            assert(b0 =~= body0 + r0);
            assert(index.body() =~= b0 + cat(rows0));
            assert(visit_text(v) =~= r0 + cat(rows0));
            assert(walk_text(done.push(v)) =~= walk_text(done) + visit_text(v));
            assert(index.body() =~= ix0.body() + walk_text(done.push(v)));
        }
        done = done.push(v);
        q = nodes(queue@);
        qv = queue@;
        lemma_q_none(queue@);
    }
@at loop 0 after
    proof {
        if !index.failed() { lemma_leads_end(c, root, done, q); assert(scanned(c, config.dirs@, walk_text(done))); }
    }
@@rem
