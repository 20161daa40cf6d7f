@@module v1::merge
@use
use crate::vp::*;
use crate::spec::*;
use crate::HashTypeEnum;
use super::parser::ev;
use vstd::std_specs::cmp::PartialEqSpec;
use vstd::std_specs::iter::IteratorSpec;
use std::cmp::Ordering;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};

/// the result `r` of stepping from `o`, leaving `n`
pub open spec fn nx(o: It, ok: bool, bs: nat, r: Option<Result<Entry, ParseError>>, n: It) -> bool {
    let s = step(o, dlen(), bs);
    match r {
        Some(Ok(e)) => s.0 == Step::Ent(ev(e)) && n == clear(s.1),
        None => s.0 == Step::End && n == clear(s.1),
        Some(Err(_)) => (ok ==> s.0 == Step::Err && n == clear(s.1)) && n.row.len() == 0 && !n.ended,
    }
}
/// the result `r` of seeking from `o`, leaving `n`
pub open spec fn sk(o: It, ok: bool, bs: nat, k: Key, r: Option<Result<Entry, ParseError>>, n: It) -> bool {
    let s = seek(o, k, dlen(), bs);
    match r {
        Some(Ok(e)) => s == (Seek::Found(ev(e)), n),
        None => s == (Seek::Missing, n),
        Some(Err(_)) => (ok ==> s == (Seek::Err, n)) && n.row.len() == 0 && !n.ended,
    }
}
/// the place of an entry
pub open spec fn rk(r: Result<Entry, ParseError>) -> Option<Key> { match r { Ok(e) => Some(ent_key(ev(e))), Err(_) => None } }
pub open spec fn hk(h: Option<Result<Entry, ParseError>>) -> Option<Key> { match h { Some(r) => rk(r), None => None } }
pub open spec fn mk(m: Option<EntryKind<&Path>>) -> Option<Key> { match m { Some(k) => Some(k.key()), None => None } }
impl<'a, R: BufRead> PeekableEntryIterator<'a, R> {
    pub open spec fn wf(&self) -> bool {
        self.tail.wf() && match self.head { Some(Ok(e)) => ent_ok(ev(e)), Some(Err(_)) => true, None => true }
    }
    pub open spec fn same(&self, o: &Self) -> bool { self.tail.same(&o.tail) }
    /// seeking from `self` gives `r` and leaves the iterator at `n`, with `h` read ahead
    pub open spec fn adv(&self, k: Key, r: Option<Result<Entry, ParseError>>, h: Option<Result<Entry, ParseError>>, n: It) -> bool {
        exists|h1: Option<Result<Entry, ParseError>>, t1: It| #[trigger] self.pk(h1, t1) && match h1 {
            Some(Ok(e)) => match kcmp(ent_key(ev(e)), k) {
                Ordering::Less => h is None && sk(t1, self.tail.ok(), self.tail.bs(), k, r, n),
                Ordering::Equal => r == h1 && h is None && n == t1,
                Ordering::Greater => r is None && h == h1 && n == t1,
            },
            Some(Err(_)) => r == h1 && h is None && n == t1,
            None => r is None && h is None && n == t1,
        }
    }
    /// reading ahead from `self` gives `h` and leaves the iterator at `t`
    pub open spec fn pk(&self, h: Option<Result<Entry, ParseError>>, t: It) -> bool {
        if self.head is Some { h == self.head && t == self.tail.st() } else { nx(self.tail.st(), self.tail.ok(), self.tail.bs(), h, t) }
    }
}
impl<K, R: BufRead> MergedSignatures<K, R> {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.parsers@.len() ==> (#[trigger] self.parsers@[i]).1.wf() }
}
/// the first `n` files of `paths` have been opened as indexes
pub open spec fn opened(paths: Seq<(PathBuf, PathBuf)>, p: Seq<(PathBuf, Parser<BufReader<File>>)>, n: int) -> bool {
    p.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).0.b() == paths[i].0.b() && {
        let d = fs_file(paths[i].1.b());
        p[i].1.wf() && p[i].1.ok() == fs_file_ok(paths[i].1.b()) && first_line(d) is Some && is_header(first_line(d)->0, p[i].1.header.hash_type.0, p[i].1.header.block_size as nat)
            && p[i].1.rest() == d.skip(first_line(d)->0.len() as int + 1)
    }
}
/// what an index has left, with `h` read ahead
pub open spec fn left(h: Option<Result<Entry, ParseError>>, t: It, bs: nat) -> Option<Seq<Ent>> {
    match h {
        None => entries(t, dlen(), bs),
        Some(Err(_)) => None,
        Some(Ok(e)) => match entries(t, dlen(), bs) { None => None, Some(v) => Some(seq![ev(e)] + v) },
    }
}
/// an index that was only ever read alone is at `s` when the merge is at `t` with `h` read ahead
pub open spec fn alone(s: It, h: Option<Result<Entry, ParseError>>, t: It, bs: nat) -> bool {
    let p = step(s, dlen(), bs);
    match h {
        None => s == t || (s.ended && t.ended),
        Some(Ok(e)) => p.0 == Step::Ent(ev(e)) && clear(p.1) == t,
        Some(Err(_)) => p.0 == Step::Err && clear(p.1) == t,
    }
}
impl<'a, R: BufRead> PeekableEntryIterator<'a, R> {
    #[verifier::opaque]
    pub open spec fn left(&self) -> Option<Seq<Ent>> { left(self.head, self.tail.st(), self.tail.bs()) }
    pub open spec fn alone(&self, s: It) -> bool { alone(s, self.head, self.tail.st(), self.tail.bs()) }
    /// [P08] a merged seek returns for an index what a seek in that index alone returns
    pub proof fn lemma_adv_alone(&self, s: It, k: Key, r: Option<Result<Entry, ParseError>>, h: Option<Result<Entry, ParseError>>, n: It)
        requires self.alone(s), self.tail.ok(), self.adv(k, r, h, n)
        ensures match r {
                Some(Ok(e)) => seek(s, k, dlen(), self.tail.bs()).0 == Seek::Found(ev(e)),
                Some(Err(_)) => seek(s, k, dlen(), self.tail.bs()).0 == Seek::Err,
                None => seek(s, k, dlen(), self.tail.bs()).0 == Seek::Missing,
            },
            alone(seek(s, k, dlen(), self.tail.bs()).1, h, n, self.tail.bs())
    {
        let bs = self.tail.bs();
        lemma_step_again(s, dlen(), bs);
        lemma_step_again(self.tail.st(), dlen(), bs);
        let (h1, t1) = choose|h1: Option<Result<Entry, ParseError>>, t1: It| #[trigger] self.pk(h1, t1) && match h1 {
            Some(Ok(e)) => match kcmp(ent_key(ev(e)), k) {
                Ordering::Less => h is None && sk(t1, self.tail.ok(), self.tail.bs(), k, r, n),
                Ordering::Equal => r == h1 && h is None && n == t1,
                Ordering::Greater => r is None && h == h1 && n == t1,
            },
            Some(Err(_)) => r == h1 && h is None && n == t1,
            None => r is None && h is None && n == t1,
        };
    }
    /// [P08] stepping in a merge returns for an index what a step in that index alone returns
    pub proof fn lemma_pk_alone(&self, s: It, h: Option<Result<Entry, ParseError>>, t: It)
        requires self.alone(s), self.tail.ok(), self.pk(h, t)
        ensures alone(if h is None { clear(step(s, dlen(), self.tail.bs()).1) } else { s }, h, t, self.tail.bs()), match h {
            Some(Ok(e)) => step(s, dlen(), self.tail.bs()).0 == Step::Ent(ev(e)) && alone(clear(step(s, dlen(), self.tail.bs()).1), None, t, self.tail.bs()),
            Some(Err(_)) => step(s, dlen(), self.tail.bs()).0 == Step::Err && alone(clear(step(s, dlen(), self.tail.bs()).1), None, t, self.tail.bs()),
            None => step(s, dlen(), self.tail.bs()).0 == Step::End,
        }
    {
        lemma_step_again(s, dlen(), self.tail.bs());
        lemma_step_again(self.tail.st(), dlen(), self.tail.bs());
    }
    /// what a merge reads ahead is the first entry left
    pub proof fn lemma_pk_left(&self, h: Option<Result<Entry, ParseError>>, t: It)
        requires self.pk(h, t), self.tail.ok(), self.left() is Some
        ensures left(h, t, self.tail.bs()) == self.left(), match h {
            Some(Ok(e)) => self.left()->0.len() > 0 && self.left()->0[0] == ev(e) && entries(t, dlen(), self.tail.bs()) == Some(self.left()->0.skip(1)),
            Some(Err(_)) => false,
            None => self.left()->0.len() == 0,
        }
    {
        reveal(PeekableEntryIterator::left);
        let bs = self.tail.bs();
        lemma_step_again(self.tail.st(), dlen(), bs);
        if h is Some && h->0 is Ok {
            let e = ev(h->0->Ok_0);
            let v = entries(t, dlen(), bs)->0;
            assert((seq![e] + v).skip(1) =~= v);
        } else if h is None {
            assert(entries(t, dlen(), bs) == Some(Seq::<Ent>::empty()));
        }
    }
}
pub open spec fn same_types<K, R: BufRead>(p: Seq<(K, Parser<R>)>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).1.header.hash_type == p[0].1.header.hash_type }
pub open spec fn same_sizes<K, R: BufRead>(p: Seq<(K, Parser<R>)>) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).1.header.block_size == p[0].1.header.block_size }
/// what a merge of the indexes `p` is
pub open spec fn merge_result<K, R: BufRead>(p: Seq<(K, Parser<R>)>, r: Result<MergedSignatures<K, R>, MergeError>) -> bool {
    match r {
        Ok(m) => m.parsers@ == p && same_types(p) && same_sizes(p),
        Err(MergeError::HashTypesMismatch(v)) => !same_types(p) && v@ == Seq::new(p.len(), |i: int| p[i].1.header.hash_type),
        Err(MergeError::BlockSizesMismatch(v)) => same_types(p) && !same_sizes(p) && v@ == Seq::new(p.len(), |i: int| p[i].1.header.block_size),
        Err(_) => false,
    }
}
impl<'a, K, R: BufRead> MergedEntriesIterator<'a, K, R> {
    pub open spec fn n(&self) -> int { self.iterators@.len() as int }
    pub open spec fn at(&self, i: int) -> PeekableEntryIterator<'a, R> { self.iterators@[i].1 }
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.at(i)).wf() }
    /// the entries `v` of the indexes `ixs` are what seeking in each index alone returns
    pub open spec fn advanced(&self, f: Self, k: Key, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>) -> bool {
        v.len() == ixs.len()
        && (forall|j: int| 0 <= j < ixs.len() ==> v[j].0 == self.iterators@[#[trigger] ixs[j]].0
            && self.at(ixs[j]).adv(k, Some(v[j].1), f.at(ixs[j]).head, f.at(ixs[j]).tail.st()))
        && (forall|i: int| 0 <= i < self.n() && !ixs.contains(i) ==> (#[trigger] self.at(i)).adv(k, None, f.at(i).head, f.at(i).tail.st()))
    }
    /// `advanced`, for the first `n` indexes
    #[verifier::prophetic]
    pub open spec fn adv_all<'b>(all: Seq<&'b mut (&'a K, PeekableEntryIterator<'a, R>)>, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, k: Key, n: int) -> bool {
        is_sub(ixs, n) && v.len() == ixs.len() && n <= all.len()
        && (forall|i: int| 0 <= i < n ==> (*final(#[trigger] all[i])).0 == (*all[i]).0 && final(all[i]).1.wf() && final(all[i]).1.same(&all[i].1))
        && (forall|j: int| 0 <= j < ixs.len() ==> v[j].0 == (*all[#[trigger] ixs[j]]).0
            && all[ixs[j]].1.adv(k, Some(v[j].1), final(all[ixs[j]]).1.head, final(all[ixs[j]]).1.tail.st()))
        && (forall|i: int| 0 <= i < n && !ixs.contains(i) ==>
            all[i].1.adv(k, None, final(#[trigger] all[i]).1.head, final(all[i]).1.tail.st()))
    }
    /// the entries `v` of the indexes `ixs` are the smallest ones, and all that compare equal to them
    #[verifier::opaque]
    pub open spec fn stepped(&self, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>) -> bool {
        v.len() == ixs.len()
        && (forall|j: int| 0 <= j < ixs.len() ==> v[j].0 == self.iterators@[#[trigger] ixs[j]].0
            && f.at(ixs[j]).head is None && self.at(ixs[j]).pk(Some(v[j].1), f.at(ixs[j]).tail.st()))
        && (forall|i: int| 0 <= i < self.n() && !ixs.contains(i) ==> (#[trigger] self.at(i)).pk(f.at(i).head, f.at(i).tail.st()))
        // what is returned is smaller than what is kept, and is all the same entry
        && (forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < v.len() && !ixs.contains(i) && hk((#[trigger] f.at(i)).head) is Some && rk((#[trigger] v[j]).1) is Some
            ==> kcmp(rk(v[j].1)->0, hk(f.at(i).head)->0) == Ordering::Less)
        && (forall|j: int, l: int| 0 <= j < v.len() && 0 <= l < v.len() && rk((#[trigger] v[j]).1) is Some && rk((#[trigger] v[l]).1) is Some ==> rk(v[j].1) == rk(v[l].1))
        // an index that does not contribute has ended, or waits for another one
        && (forall|i: int| 0 <= i < self.n() && !ixs.contains(i) && (#[trigger] f.at(i)).head is Some ==> exists|j: int| 0 <= j < v.len() && rk((#[trigger] v[j]).1) is Some)
    }
    /// the first `n` indexes have been looked at and are at `mid`: `ixs` have the smallest entry so far
    #[verifier::opaque]
    pub open spec fn looked(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, ixs: Seq<int>, min: Option<Key>, n: int) -> bool {
        is_sub(ixs, n) && n <= mid.len() == o.n()
        && (forall|i: int| 0 <= i < n ==> (#[trigger] mid[i]).0 == o.iterators@[i].0 && mid[i].1.wf() && mid[i].1.same(&o.at(i)) && o.at(i).pk(mid[i].1.head, mid[i].1.tail.st()))
        && (forall|j: int| 0 <= j < ixs.len() ==> mid[#[trigger] ixs[j]].1.head is Some)
        && match min {
            None => forall|i: int| 0 <= i < n ==> hk((#[trigger] mid[i]).1.head) is None && (mid[i].1.head is Some ==> ixs.contains(i)),
            Some(m) => key_ok(m) && (exists|j: int| 0 <= j < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some)
                && forall|i: int| 0 <= i < n && hk((#[trigger] mid[i]).1.head) is Some ==>
                    if ixs.contains(i) { hk(mid[i].1.head)->0 == m } else { kcmp(m, hk(mid[i].1.head)->0) == Ordering::Less },
        }
    }
    /// what looking at the index `n`, with `h` read ahead, has to do
    pub open spec fn picks(h: Option<Result<Entry, ParseError>>, ix0: Seq<usize>, min0: Option<Key>, ix: Seq<usize>, min: Option<Key>, n: usize) -> bool {
        match hk(h) {
            Some(k) => match min0 {
                None => min == Some(k) && ix == ix0.push(n),
                Some(m) => match kcmp(k, m) {
                    Ordering::Less => min == Some(k) && ix == seq![n],
                    Ordering::Equal => min == min0 && ix == ix0.push(n),
                    Ordering::Greater => min == min0 && ix == ix0,
                },
            },
            None => min == min0 && ix == if h is Some { ix0.push(n) } else { ix0 },
        }
    }
    pub proof fn lemma_looked(o: Self, mid0: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, ix0: Seq<usize>, min0: Option<Key>, ix: Seq<usize>, min: Option<Key>, n: usize)
        requires Self::looked(o, mid0, ints(ix0), min0, n as int), n < mid.len(), mid.len() == mid0.len(),
            forall|i: int| 0 <= i < n ==> #[trigger] mid[i] == mid0[i],
            mid[n as int].0 == o.iterators@[n as int].0, mid[n as int].1.wf(), mid[n as int].1.same(&o.at(n as int)), o.at(n as int).pk(mid[n as int].1.head, mid[n as int].1.tail.st()),
            Self::picks(mid[n as int].1.head, ix0, min0, ix, min, n)
        ensures Self::looked(o, mid, ints(ix), min, n + 1)
    {
        reveal(MergedEntriesIterator::looked);
        let nn = n as int;
        let h = mid[nn].1.head;
        lemma_sub_push(ix0, nn, n);
        assert forall|i: int| 0 <= i < n + 1 && hk((#[trigger] mid[i]).1.head) is Some implies key_ok(hk(mid[i].1.head)->0) by { assert(mid[i].1.wf()); if i < n { assert(mid[i] == mid0[i]); } }
        assert forall|j: int| 0 <= j < ix0.len() implies #[trigger] mid[ints(ix0)[j]] == mid0[ints(ix0)[j]] by { }
        assert forall|j: int| 0 <= j < ints(ix).len() implies mid[#[trigger] ints(ix)[j]].1.head is Some by {
            if j < ix0.len() && ix == ix0.push(n) { assert(ints(ix)[j] == ints(ix0)[j]); } else if ix == ix0 { assert(ints(ix)[j] == ints(ix0)[j]); }
        }
        if min is Some {
            let m = min->0;
            if min0 is Some && hk(h) is Some { lemma_kcmp_min(hk(h)->0, min0->0, hk(h)->0); }
            assert(exists|j: int| 0 <= j < ints(ix).len() && hk(mid[#[trigger] ints(ix)[j]].1.head) is Some) by {
                if min == min0 {
                    let j = choose|j: int| 0 <= j < ints(ix0).len() && hk(mid0[#[trigger] ints(ix0)[j]].1.head) is Some;
                    assert(ints(ix)[j] == ints(ix0)[j]);
                    assert(mid[ints(ix)[j]] == mid0[ints(ix0)[j]]);
                } else {
                    let j = ix.len() - 1;
                    assert(ints(ix)[j] == nn);
                }
            }
            assert forall|i: int| 0 <= i < n + 1 && hk((#[trigger] mid[i]).1.head) is Some implies
                if ints(ix).contains(i) { hk(mid[i].1.head)->0 == m } else { kcmp(m, hk(mid[i].1.head)->0) == Ordering::Less }
            by {
                if i < n {
                    assert(mid[i] == mid0[i]);
                    if min0 is Some && hk(h) is Some { lemma_kcmp_min(hk(h)->0, min0->0, hk(mid[i].1.head)->0); }
                }
            }
        } else {
            assert forall|i: int| 0 <= i < n + 1 implies hk((#[trigger] mid[i]).1.head) is None && (mid[i].1.head is Some ==> ints(ix).contains(i)) by {
                if i < n { assert(mid[i] == mid0[i]); }
            }
        }
    }
    pub proof fn lemma_chosen(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, ixs: Seq<int>, min: Option<Key>)
        requires Self::looked(o, mid, ixs, min, mid.len() as int)
        ensures Self::chosen(o, mid, ixs)
    {
        reveal(MergedEntriesIterator::looked); reveal(MergedEntriesIterator::chosen);
        assert forall|j: int| 0 <= j < ixs.len() implies ixs.contains(#[trigger] ixs[j]) by { }
        assert forall|j: int| 0 <= j < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some implies min is Some && hk(mid[ixs[j]].1.head)->0 == min->0 by {
            assert(ixs.contains(ixs[j])); assert(hk(mid[ixs[j]].1.head) is Some);
        }
        assert forall|i: int| 0 <= i < mid.len() && !ixs.contains(i) && (#[trigger] mid[i]).1.head is Some implies exists|j: int| 0 <= j < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some by { }
    }
    /// every index has been looked at and is at `mid`: `ixs` have the smallest entry
    #[verifier::opaque]
    pub open spec fn chosen(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, ixs: Seq<int>) -> bool {
        mid.len() == o.n() && is_sub(ixs, o.n())
        && (forall|i: int| 0 <= i < mid.len() ==> (#[trigger] mid[i]).0 == o.iterators@[i].0 && mid[i].1.wf() && mid[i].1.same(&o.at(i)) && o.at(i).pk(mid[i].1.head, mid[i].1.tail.st()))
        && (forall|j: int| 0 <= j < ixs.len() ==> mid[#[trigger] ixs[j]].1.head is Some)
        && (forall|i: int, j: int| 0 <= i < mid.len() && 0 <= j < ixs.len() && !ixs.contains(i) && hk((#[trigger] mid[i]).1.head) is Some && hk(mid[#[trigger] ixs[j]].1.head) is Some
            ==> kcmp(hk(mid[ixs[j]].1.head)->0, hk(mid[i].1.head)->0) == Ordering::Less)
        && (forall|j: int, l: int| 0 <= j < ixs.len() && 0 <= l < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some && hk(mid[#[trigger] ixs[l]].1.head) is Some
            ==> hk(mid[ixs[j]].1.head) == hk(mid[ixs[l]].1.head))
        && (forall|i: int| 0 <= i < mid.len() && !ixs.contains(i) && (#[trigger] mid[i]).1.head is Some ==> exists|j: int| 0 <= j < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some)
    }
    /// the entries of the first `n` of `ixs` have been taken
    #[verifier::opaque]
    pub open spec fn taken(mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, cur: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, n: int) -> bool {
        cur.len() == mid.len() && v.len() == n
        && (forall|i: int| 0 <= i < mid.len() && !ixs.contains(i) ==> #[trigger] cur[i] == mid[i])
        && (forall|j: int| n <= j < ixs.len() ==> cur[#[trigger] ixs[j]] == mid[ixs[j]])
        && (forall|j: int| 0 <= j < n ==> cur[#[trigger] ixs[j]].0 == mid[ixs[j]].0 && cur[ixs[j]].1.wf() && cur[ixs[j]].1.same(&mid[ixs[j]].1)
            && cur[ixs[j]].1.head is None && cur[ixs[j]].1.tail.st() == mid[ixs[j]].1.tail.st() && v[j].0 == mid[ixs[j]].0 && mid[ixs[j]].1.head == Some(v[j].1))
    }
    pub proof fn lemma_take(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, cur: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, n: int)
        requires Self::chosen(o, mid, ixs), Self::taken(mid, cur, v, ixs, n), 0 <= n < ixs.len()
        ensures 0 <= ixs[n] < cur.len(), cur[ixs[n]].1.wf(), cur[ixs[n]].1.head is Some
    {
        reveal(MergedEntriesIterator::chosen); reveal(MergedEntriesIterator::taken);
        assert(cur[ixs[n]] == mid[ixs[n]]);
        assert(mid[ixs[n]].1.wf());
    }
    pub proof fn lemma_taken(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, cur0: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, cur: Seq<(&'a K, PeekableEntryIterator<'a, R>)>,
        v: Seq<(&'a K, Result<Entry, ParseError>)>, e: (&'a K, Result<Entry, ParseError>), ixs: Seq<int>, n: int)
        requires Self::chosen(o, mid, ixs), Self::taken(mid, cur0, v, ixs, n), 0 <= n < ixs.len(), cur.len() == cur0.len(),
            forall|i: int| 0 <= i < cur.len() && i != ixs[n] ==> #[trigger] cur[i] == cur0[i],
            cur[ixs[n]].0 == cur0[ixs[n]].0, cur[ixs[n]].1.wf(), cur[ixs[n]].1.same(&cur0[ixs[n]].1), cur[ixs[n]].1.head is None,
            cur0[ixs[n]].1.pk(Some(e.1), cur[ixs[n]].1.tail.st()), e.0 == cur0[ixs[n]].0
        ensures Self::taken(mid, cur, v.push(e), ixs, n + 1)
    {
        reveal(MergedEntriesIterator::chosen); reveal(MergedEntriesIterator::taken);
        let w = v.push(e);
        assert(ixs.contains(ixs[n]));
        assert(cur0[ixs[n]] == mid[ixs[n]] && mid[ixs[n]].1.head is Some);
        assert forall|j: int| n + 1 <= j < ixs.len() implies cur[#[trigger] ixs[j]] == mid[ixs[j]] by { assert(ixs[n] < ixs[j]); assert(cur0[ixs[j]] == mid[ixs[j]]); }
        assert forall|j: int| 0 <= j < n + 1 implies cur[#[trigger] ixs[j]].0 == mid[ixs[j]].0 && cur[ixs[j]].1.wf() && cur[ixs[j]].1.same(&mid[ixs[j]].1)
            && cur[ixs[j]].1.head is None && cur[ixs[j]].1.tail.st() == mid[ixs[j]].1.tail.st() && w[j].0 == mid[ixs[j]].0 && mid[ixs[j]].1.head == Some(w[j].1)
        by { if j < n { assert(ixs[j] < ixs[n]); assert(cur[ixs[j]] == cur0[ixs[j]]); assert(w[j] == v[j]); } }
    }
    pub proof fn lemma_taken0(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, ixs: Seq<int>)
        requires Self::chosen(o, mid, ixs)
        ensures Self::taken(mid, mid, Seq::empty(), ixs, 0)
    { reveal(MergedEntriesIterator::taken); }
    /// once everything chosen has been taken, the step is done
    pub proof fn lemma_stepped(o: Self, mid: Seq<(&'a K, PeekableEntryIterator<'a, R>)>, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>)
        requires Self::chosen(o, mid, ixs), Self::taken(mid, f.iterators@, v, ixs, ixs.len() as int)
        ensures o.stepped(f, v, ixs), f.wf(), f.same(&o)
    {
        reveal(MergedEntriesIterator::chosen); reveal(MergedEntriesIterator::taken); reveal(MergedEntriesIterator::stepped);
        assert forall|i: int| 0 <= i < o.n() implies (#[trigger] f.at(i)).wf() && f.at(i).same(&o.at(i)) && f.iterators@[i].0 == o.iterators@[i].0 by {
            assert(mid[i].1.wf());
            if ixs.contains(i) { let j = choose|j: int| 0 <= j < ixs.len() && ixs[j] == i; assert(f.iterators@[ixs[j]].1.wf()); } else { assert(f.iterators@[i] == mid[i]); }
        }
        assert forall|j: int| 0 <= j < ixs.len() implies v[j].0 == o.iterators@[#[trigger] ixs[j]].0 && f.at(ixs[j]).head is None && o.at(ixs[j]).pk(Some(v[j].1), f.at(ixs[j]).tail.st()) by {
            assert(mid[ixs[j]].1.wf());
        }
        assert forall|i: int| 0 <= i < o.n() && !ixs.contains(i) implies (#[trigger] o.at(i)).pk(f.at(i).head, f.at(i).tail.st()) by { assert(f.iterators@[i] == mid[i]); assert(mid[i].1.wf()); }
        assert forall|j: int| 0 <= j < v.len() implies rk((#[trigger] v[j]).1) == hk(mid[ixs[j]].1.head) by { assert(f.at(ixs[j]).head is None); }
        assert forall|i: int| 0 <= i < o.n() && !ixs.contains(i) implies (#[trigger] f.at(i)).head == mid[i].1.head by { assert(f.iterators@[i] == mid[i]); }
        assert forall|i: int| 0 <= i < o.n() && !ixs.contains(i) && (#[trigger] f.at(i)).head is Some implies exists|j: int| 0 <= j < v.len() && rk((#[trigger] v[j]).1) is Some by {
            assert(mid[i].1.wf());
            let j = choose|j: int| 0 <= j < ixs.len() && hk(mid[#[trigger] ixs[j]].1.head) is Some;
            assert(rk(v[j].1) is Some);
        }
        assert forall|i: int, j: int| 0 <= i < o.n() && 0 <= j < v.len() && !ixs.contains(i) && hk((#[trigger] f.at(i)).head) is Some && rk((#[trigger] v[j]).1) is Some
            implies kcmp(rk(v[j].1)->0, hk(f.at(i).head)->0) == Ordering::Less by {
            assert(hk(mid[i].1.head) is Some && hk(mid[ixs[j]].1.head) is Some);
        }
        assert forall|j: int, l: int| 0 <= j < v.len() && 0 <= l < v.len() && rk((#[trigger] v[j]).1) is Some && rk((#[trigger] v[l]).1) is Some implies rk(v[j].1) == rk(v[l].1) by {
            assert(hk(mid[ixs[j]].1.head) is Some && hk(mid[ixs[l]].1.head) is Some);
        }
    }
    /// an index that contributes to a group
    pub proof fn lemma_step_in(o: Self, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, j: int)
        requires o.stepped(f, v, ixs), f.same(&o), is_sub(ixs, o.n()), 0 <= j < v.len(), o.at(ixs[j]).tail.ok(), o.at(ixs[j]).left() is Some
        ensures v[j].1 is Ok, v[j].0 == o.iterators@[ixs[j]].0, o.at(ixs[j]).left()->0.len() > 0, o.at(ixs[j]).left()->0[0] == ev(v[j].1->Ok_0),
            f.at(ixs[j]).left() == Some(o.at(ixs[j]).left()->0.skip(1)), rk(v[j].1) == Some(ent_key(ev(v[j].1->Ok_0))), f.at(ixs[j]).tail.ok()
    {
        assert(v.len() == ixs.len()) by { reveal(MergedEntriesIterator::stepped); }
        let i = ixs[j];
        assert(o.at(i).pk(Some(v[j].1), f.at(i).tail.st()) && f.at(i).head is None && v[j].0 == o.iterators@[i].0) by { reveal(MergedEntriesIterator::stepped); }
        assert(f.at(i).same(&o.at(i))) by { assert(f.iterators@[i].0 == o.iterators@[i].0); }
        o.at(i).lemma_pk_left(Some(v[j].1), f.at(i).tail.st());
        assert(f.at(i).left() == entries(f.at(i).tail.st(), dlen(), f.at(i).tail.bs())) by { reveal(PeekableEntryIterator::left); }
    }
    /// an index that does not
    pub proof fn lemma_step_out(o: Self, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, i: int)
        requires o.stepped(f, v, ixs), f.same(&o), 0 <= i < o.n(), !ixs.contains(i), o.at(i).tail.ok(), o.at(i).left() is Some
        ensures f.at(i).left() == o.at(i).left(), f.at(i).tail.ok(),
            if f.at(i).head is Some { o.at(i).left()->0.len() > 0 && hk(f.at(i).head) == Some(ent_key(o.at(i).left()->0[0])) } else { o.at(i).left()->0.len() == 0 }
    {
        assert(o.at(i).pk(f.at(i).head, f.at(i).tail.st())) by { reveal(MergedEntriesIterator::stepped); }
        assert(f.at(i).same(&o.at(i))) by { assert(f.iterators@[i].0 == o.iterators@[i].0); }
        o.at(i).lemma_pk_left(f.at(i).head, f.at(i).tail.st());
        assert(f.at(i).left() == left(f.at(i).head, f.at(i).tail.st(), f.at(i).tail.bs())) by { reveal(PeekableEntryIterator::left); }
    }
    /// [P08] If all indexes are valid, a step returns the smallest entry left in any of them for exactly the indexes that have
    /// it first, and it is what these indexes have lost.
    pub proof fn lemma_merge_step(o: Self, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>)
        requires o.stepped(f, v, ixs), o.wf(), f.wf(), f.same(&o), is_sub(ixs, o.n()),
            forall|i: int| 0 <= i < o.n() ==> (#[trigger] o.at(i)).tail.ok() && o.at(i).left() is Some
        ensures
            forall|i: int| 0 <= i < o.n() ==> (#[trigger] f.at(i)).tail.ok() && f.at(i).left() is Some,
            // the indexes that contribute, in the order given, have lost what they contribute
            forall|j: int| 0 <= j < v.len() ==> (#[trigger] v[j]).1 is Ok && v[j].0 == o.iterators@[ixs[j]].0 && o.at(ixs[j]).left()->0.len() > 0
                && o.at(ixs[j]).left()->0[0] == ev(v[j].1->Ok_0) && f.at(ixs[j]).left()->0 == o.at(ixs[j]).left()->0.skip(1),
            forall|i: int, j: int| 0 <= i < j < v.len() ==> ixs[i] < ixs[j],
            // the others have lost nothing and only have entries that are larger
            forall|i: int| 0 <= i < o.n() && !ixs.contains(i) ==> (#[trigger] f.at(i)).left() == o.at(i).left(),
            forall|i: int, j: int| 0 <= i < o.n() && 0 <= j < v.len() && !ixs.contains(i) && (#[trigger] o.at(i)).left()->0.len() > 0
                ==> kcmp(ent_key(ev((#[trigger] v[j]).1->Ok_0)), ent_key(o.at(i).left()->0[0])) == Ordering::Less,
            forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() ==> ent_key(ev((#[trigger] v[i]).1->Ok_0)) == ent_key(ev((#[trigger] v[j]).1->Ok_0)),
            // the end is reported when nothing is left
            v.len() == 0 <==> forall|i: int| 0 <= i < o.n() ==> (#[trigger] o.at(i)).left()->0.len() == 0,
    {
        assert(v.len() == ixs.len()) by { reveal(MergedEntriesIterator::stepped); }
        assert forall|j: int| 0 <= j < v.len() implies (#[trigger] v[j]).1 is Ok && v[j].0 == o.iterators@[ixs[j]].0 && o.at(ixs[j]).left()->0.len() > 0
            && o.at(ixs[j]).left()->0[0] == ev(v[j].1->Ok_0) && f.at(ixs[j]).left() == Some(o.at(ixs[j]).left()->0.skip(1)) && rk(v[j].1) == Some(ent_key(ev(v[j].1->Ok_0))) && f.at(ixs[j]).tail.ok()
        by { Self::lemma_step_in(o, f, v, ixs, j); }
        assert forall|i: int| 0 <= i < o.n() && !ixs.contains(i) implies (#[trigger] f.at(i)).left() == o.at(i).left() && f.at(i).tail.ok()
            && (if f.at(i).head is Some { o.at(i).left()->0.len() > 0 && hk(f.at(i).head) == Some(ent_key(o.at(i).left()->0[0])) } else { o.at(i).left()->0.len() == 0 })
        by { Self::lemma_step_out(o, f, v, ixs, i); }
        assert forall|i: int| 0 <= i < o.n() implies (#[trigger] f.at(i)).tail.ok() && f.at(i).left() is Some by {
            assert(o.at(i).tail.ok());
            if ixs.contains(i) { let j = choose|j: int| 0 <= j < ixs.len() && ixs[j] == i; assert(v[j].1 is Ok); }
        }
        reveal(MergedEntriesIterator::stepped);
        if v.len() == 0 {
            assert forall|i: int| 0 <= i < o.n() implies (#[trigger] o.at(i)).left()->0.len() == 0 by {
                assert(!ixs.contains(i));
                assert(f.at(i).left() == o.at(i).left());
            }
        } else {
            assert(v[0].1 is Ok);
            assert(o.at(ixs[0]).left()->0.len() > 0);
        }
        assert forall|i: int, j: int| 0 <= i < o.n() && 0 <= j < v.len() && !ixs.contains(i) && (#[trigger] o.at(i)).left()->0.len() > 0
            implies kcmp(ent_key(ev((#[trigger] v[j]).1->Ok_0)), ent_key(o.at(i).left()->0[0])) == Ordering::Less by {
            assert(f.at(i).left() == o.at(i).left());
            assert(hk(f.at(i).head) is Some && rk(v[j].1) is Some);
        }
        assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() implies ent_key(ev((#[trigger] v[i]).1->Ok_0)) == ent_key(ev((#[trigger] v[j]).1->Ok_0)) by {
            assert(rk(v[i].1) is Some && rk(v[j].1) is Some);
        }
    }
    /// [P08] In sorted indexes everything left after a step is larger than what the step returned.
    pub proof fn lemma_merge_order(o: Self, f: Self, v: Seq<(&'a K, Result<Entry, ParseError>)>, ixs: Seq<int>, i: int, l: int)
        requires o.stepped(f, v, ixs), o.wf(), f.wf(), f.same(&o), is_sub(ixs, o.n()), v.len() > 0,
            forall|i: int| 0 <= i < o.n() ==> (#[trigger] o.at(i)).tail.ok() && o.at(i).left() is Some && sorted(o.at(i).left()->0)
                && forall|l: int| 0 <= l < o.at(i).left()->0.len() ==> ent_ok(#[trigger] o.at(i).left()->0[l]),
            0 <= i < o.n(), 0 <= l < f.at(i).left()->0.len()
        ensures v[0].1 is Ok, kcmp(ent_key(ev(v[0].1->Ok_0)), ent_key(f.at(i).left()->0[l])) == Ordering::Less, sorted(f.at(i).left()->0)
    {
        Self::lemma_merge_step(o, f, v, ixs);
        assert(v[0].1 is Ok);
        let es = o.at(i).left()->0;
        assert(sorted(es));
        let k = ent_key(ev(v[0].1->Ok_0));
        assert(v.len() == ixs.len()) by { reveal(MergedEntriesIterator::stepped); }
        assert(o.at(ixs[0]).left() is Some);
        if ixs.contains(i) {
            let j = choose|j: int| 0 <= j < ixs.len() && ixs[j] == i;
            assert(v[j].1 is Ok);
            assert(f.at(i).left()->0 == es.skip(1));
            assert(ent_key(es[0]) == k);
            assert(f.at(i).left()->0[l] == es[l + 1]);
            assert forall|a: int, b: int| 0 <= a < b < es.skip(1).len() implies kcmp(ent_key(#[trigger] es.skip(1)[a]), ent_key(#[trigger] es.skip(1)[b])) == Ordering::Less by {
                assert(es.skip(1)[a] == es[a + 1] && es.skip(1)[b] == es[b + 1]);
            }
        } else {
            assert(f.at(i).left() == o.at(i).left());
            assert(es.len() > 0);
            assert(kcmp(k, ent_key(es[0])) == Ordering::Less);
            if l > 0 {
                assert(kcmp(ent_key(es[0]), ent_key(es[l])) == Ordering::Less);
                assert(ent_ok(es[0]) && ent_ok(es[l]));
                assert(key_ok(k)) by { assert(o.at(ixs[0]).left()->0[0] == ev(v[0].1->Ok_0)); assert(ent_ok(o.at(ixs[0]).left()->0[0])); }
                lemma_kcmp_trans(k, ent_key(es[0]), ent_key(es[l]));
            }
        }
    }
    /// every index is at its beginning
    pub open spec fn starts(&self, p: Seq<(K, Parser<R>)>) -> bool {
        self.n() == p.len() && forall|i: int| 0 <= i < p.len() ==> *(#[trigger] self.iterators@[i]).0 == p[i].0 && self.at(i).head is None
            && self.at(i).tail.st() == index_start(p[i].1.rest()) && self.at(i).tail.ok() == p[i].1.ok() && self.at(i).tail.bs() == p[i].1.header.block_size
    }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.n() == o.n() && forall|i: int| 0 <= i < self.n() ==> (#[trigger] self.iterators@[i]).0 == o.iterators@[i].0 && self.at(i).same(&o.at(i))
    }
}
@@fn v1::merge::PeekableEntryIterator::new
@ret r
@spec
    ensures r.head is None, r.tail == iter
@@fn v1::merge::PeekableEntryIterator::peek
@call .next => .vp_next
@ret r
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), old(self).pk(final(self).head, final(self).tail.st()),
        match r { Some(x) => final(self).head == Some(*x), None => final(self).head is None }
@at start
    proof { lemma_step_ok(self.tail.st(), dlen(), self.tail.bs()); }
@@fn v1::merge::<PeekableEntryIterator as Iterator>::next
@ret r
@opt inherent=yes
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), final(self).head is None, old(self).pk(r, final(self).tail.st())
@@fn v1::merge::PeekableEntryIterator::advance
@ret r
@spec
    requires old(self).wf(), kind.valid()
    ensures final(self).wf(), final(self).same(old(self)), old(self).adv(kind.key(), r, final(self).head, final(self).tail.st())
@@fn v1::merge::MergedEntriesIterator::advance
@ret r
@spec
    requires old(self).wf(), to.valid()
    ensures final(self).wf(), final(self).same(old(self)),
        exists|ixs: Seq<int>| #[trigger] is_sub(ixs, old(self).n()) && old(self).advanced(*final(self), to.key(), r@, ixs)
@at loop 0 enter
    let ghost all = vp_it0.remaining();
    let ghost mut ixs = Seq::<int>::empty();
    let ghost mut i: int = 0;
@loop 0
    invariant
        old(self).wf(), to.valid(),
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some, vp_it0.remaining().len() <= all.len(),
        vp_it0.remaining() == all.skip(i), i == all.len() - vp_it0.remaining().len(), all.len() == old(self).n(),
        forall|k: int| 0 <= k < all.len() ==> *(#[trigger] all[k]) == old(self).iterators@[k],
        forall|k: int| 0 <= k < all.len() ==> *final(#[trigger] all[k]) == final(self).iterators@[k],
        Self::adv_all(all, entries@, ixs, to.key(), i),
    decreases vp_it0.decrease()->0
@at call .push#0 after
    proof {
        let ixs0 = ixs;
        ixs = ixs.push(i);
        assert(ixs[ixs0.len() as int] == i);
        assert forall|x: int| ixs0.contains(x) implies #[trigger] ixs.contains(x) by {
            let j = choose|j: int| 0 <= j < ixs0.len() && ixs0[j] == x;
            assert(ixs[j] == x);
        }
    }
@at loop 0 head
    assert(old(self).at(i).wf());
@at loop 0 tail
    proof { i = i + 1; }
@@fn v1::merge::MergedEntriesIterator::new
@call .map => vp_map
@closure 0 |vp_p0: &'a mut (K, Parser<R>)| -> (r: (&'a K, PeekableEntryIterator<'a, R>))
    requires old(vp_p0).1.wf()
    ensures *r.0 == old(vp_p0).0, r.1.head is None, r.1.tail.st() == index_start(old(vp_p0).1.rest()), r.1.tail.ok() == old(vp_p0).1.ok(),
        r.1.tail.bs() == old(vp_p0).1.header.block_size, r.1.wf()
@ret r
@spec
    requires old(merged_signatures).wf()
    ensures r.wf(), r.starts(old(merged_signatures).parsers@)
@@fn v1::merge::MergedSignatures::iter
@ret r
@spec
    requires old(self).wf()
    ensures r.wf(), r.starts(old(self).parsers@)
@@fn v1::merge::<MergedEntriesIterator as Iterator>::next
@call .enumerate => vp_enumerate
@call .next => .vp_next
@ret r
@opt inherent=yes
@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).same(old(self)), is_sub(ints(final(self).iterator_ixs@), old(self).n()),
        match r {
            Some(v) => v@.len() > 0 && old(self).stepped(*final(self), v@, ints(final(self).iterator_ixs@)),
            None => old(self).stepped(*final(self), Seq::empty(), ints(final(self).iterator_ixs@)),
        }
@at loop 0 enter
    let ghost all = vp_it0.remaining();
    let ghost mut i: int = 0;
    proof { reveal(MergedEntriesIterator::looked); }
@loop 0
    invariant
        old(self).wf(), all.len() == old(self).n(),
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some, vp_it0.remaining().len() <= all.len(),
        vp_it0.remaining() == all.skip(i), i == all.len() - vp_it0.remaining().len(),
        forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).0 == k && *all[k].1 == old(self).iterators@[k],
        forall|k: int| 0 <= k < all.len() ==> *final((#[trigger] all[k]).1) == self.iterators@[k],
        Self::looked(*old(self), self.iterators@, ints(self.iterator_ixs@), mk(min_kind), i), min_kind is Some ==> min_kind->0.valid(),
    decreases vp_it0.decrease()->0
@at loop 0 head
    assert(old(self).at(i).wf());
    let ghost ix0 = self.iterator_ixs@;
    let ghost min0 = mk(min_kind);
    let ghost mid0 = self.iterators@;
@at loop 0 tail
    proof {
        Self::lemma_looked(*old(self), mid0, self.iterators@, ix0, min0, self.iterator_ixs@, mk(min_kind), ix);
        i = i + 1;
    }
@at loop 0 exit
    proof { Self::lemma_chosen(*old(self), self.iterators@, ints(self.iterator_ixs@), mk(min_kind)); }
@at loop 1 enter
    let ghost mid = self.iterators@;
    let ghost ixs = ints(self.iterator_ixs@);
    proof { Self::lemma_taken0(*old(self), mid, ixs); assert(res@ =~= Seq::empty()); }
@loop 1
    invariant
        old(self).wf(), Self::chosen(*old(self), mid, ixs), ixs == ints(self.iterator_ixs@),
        vp_it1.obeys_prophetic_iter_laws(), vp_it1.decrease() is Some, vp_it1.remaining().len() <= ixs.len(),
        forall|k: int| 0 <= k < vp_it1.remaining().len() ==> *(#[trigger] vp_it1.remaining()[k]) == ixs[ixs.len() - vp_it1.remaining().len() + k],
        Self::taken(mid, self.iterators@, res@, ixs, ixs.len() - vp_it1.remaining().len()),
    decreases vp_it1.decrease()->0
@at loop 1 head
    let ghost cur0 = self.iterators@;
    let ghost v0 = res@;
    let ghost n = ixs.len() - vp_it1.remaining().len() - 1;
    proof { Self::lemma_take(*old(self), mid, cur0, v0, ixs, n); }
@at loop 1 tail
    proof { Self::lemma_taken(*old(self), mid, cur0, self.iterators@, v0, res@.last(), ixs, n); }
@at loop 1 exit
    proof { Self::lemma_stepped(*old(self), mid, *self, res@, ixs); if res@.len() == 0 { assert(res@ =~= Seq::empty()); } }
@@fn v1::merge::FileMergeBuilder::new
@ret r
@spec
    ensures r.paths@ == Seq::<(PathBuf, PathBuf)>::empty()
@@fn v1::merge::FileMergeBuilder::add
@spec
    ensures final(self).paths@.len() == old(self).paths@.len() + 1, final(self).paths@.drop_last() == old(self).paths@,
        final(self).paths@.last().0.b() == base_path.ar().b(), final(self).paths@.last().1.b() == signature_path.ar().b()
@at start
    let ghost old_paths = self.paths@;
@at end
    assert(self.paths@.drop_last() =~= old_paths);
@@fn v1::merge::FileMergeBuilder::finalize
@call BufReader::new => vp_bufreader
@opt try=match
@ret r
@spec
    ensures match r {
        Ok(m) => opened(self.paths@, m.parsers@, self.paths@.len() as int) && same_types(m.parsers@) && same_sizes(m.parsers@), // [P09]
        Err(MergeError::HashTypesMismatch(v)) => exists|p: Seq<(PathBuf, Parser<BufReader<File>>)>| #[trigger] opened(self.paths@, p, self.paths@.len() as int)
            && !same_types(p) && v@ == Seq::new(p.len(), |i: int| p[i].1.header.hash_type), // [P09]
        Err(MergeError::BlockSizesMismatch(v)) => exists|p: Seq<(PathBuf, Parser<BufReader<File>>)>| #[trigger] opened(self.paths@, p, self.paths@.len() as int)
            && same_types(p) && !same_sizes(p) && v@ == Seq::new(p.len(), |i: int| p[i].1.header.block_size), // [P09]
        Err(_) => true,
    }
@loop 0
    invariant
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some, vp_it0.remaining().len() <= self.paths@.len(),
        vp_it0.remaining() == self.paths@.skip(self.paths@.len() - vp_it0.remaining().len()),
        opened(self.paths@, parsers@, self.paths@.len() - vp_it0.remaining().len()),
    decreases vp_it0.decrease()->0
@@fn v1::merge::check_same
@call .take => vp_it_take
@call .skip => vp_it_skip
@call .rev => vp_it_rev
@call .any => &mut vp_it_any
@call .into_iter => vp_into_iter
@call .all => &mut vp_all
@closure 0 |v: V| -> (r: bool)
    ensures V::obeys_eq_spec() ==> r == v.eq_spec(&first)
@closure 0.any |v: V| -> (r: bool)
    ensures V::obeys_eq_spec() ==> r == !v.eq_spec(&first)
@ret r
@spec
    ensures V::obeys_eq_spec() ==> r == (forall|i: int| 1 <= i < items_of(values).len() ==> (#[trigger] items_of(values)[i]).eq_spec(&items_of(values)[0])) // [P09]
@at call .all|.any#0 before
    proof {
        let all = items_of(values);
        assert(iter.remaining() =~= all.skip(1));
        assert(forall|i: int| 1 <= i < all.len() ==> #[trigger] all[i] == items_left(&iter)[i - 1]);
        assert(forall|i: int| 0 <= i < items_left(&iter).len() ==> #[trigger] items_left(&iter)[i] == all[i + 1]);
    }
@@fn v1::merge::MergedSignatures::new
@call .take => vp_it_take
@call .skip => vp_it_skip
@call .rev => vp_it_rev
@call .any => &mut vp_it_any
@call .into_iter => vp_into_iter
@call .map => vp_map
@closure 0 |p: &(K, Parser<R>)| -> (r: HashType)
    ensures r == p.1.header.hash_type
@closure 1 |p: &(K, Parser<R>)| -> (r: u64)
    ensures r == p.1.header.block_size
@ret r
@spec
    ensures merge_result(items_of(parsers), r) // [P09]
@at start
    let ghost p = items_of(parsers);
@at call check_same#0 before
    proof {
        assert(hash_types@ =~= Seq::new(p.len(), |i: int| p[i].1.header.hash_type));
        if forall|i: int| 1 <= i < items_of(&hash_types).len() ==> (#[trigger] items_of(&hash_types)[i]).eq_spec(&items_of(&hash_types)[0]) {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1.header.hash_type == p[0].1.header.hash_type by {
                assert(*items_of(&hash_types)[i] == p[i].1.header.hash_type && *items_of(&hash_types)[0] == p[0].1.header.hash_type);
            }
        }
    }
@at call check_same#1 before
    proof {
        assert(block_sizes@ =~= Seq::new(p.len(), |i: int| p[i].1.header.block_size));
        if forall|i: int| 1 <= i < items_of(&block_sizes).len() ==> (#[trigger] items_of(&block_sizes)[i]).eq_spec(&items_of(&block_sizes)[0]) {
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).1.header.block_size == p[0].1.header.block_size by {
                assert(*items_of(&block_sizes)[i] == p[i].1.header.block_size && *items_of(&block_sizes)[0] == p[0].1.header.block_size);
            }
        }
    }
@@rem
