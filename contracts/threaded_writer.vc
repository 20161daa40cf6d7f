@@module v1::threaded_writer
@use
use crate::vp::*;
use crate::spec::*;
use super::hash::HashOutput;
use super::writer::*;
@ghost
broadcast use {crate::vp::vp_axioms, crate::vp::fmt_axioms, crate::spec::seq_facts};
impl<F: io::Write, H: Hash> ThreadedWriter<F, H> {
    pub open spec fn tw_inv(&self) -> bool {
        self.file.hw_inv() && self.hash.w_inv() && self.block_size > 0 && self.hash.written() == Seq::<u8>::empty()
    }
    #[verifier::prophetic]
    pub open spec fn tw_same(&self, o: &Self) -> bool {
        self.tw_inv() && self.block_size == o.block_size && self.file.hd() == o.file.hd() && self.queue_limit == o.queue_limit
            && self.file.file.w_fin() == o.file.file.w_fin() && self.file.file.w_fflush() == o.file.file.w_fflush()
    }
}
/// the text of a queued operation
pub open spec fn optext(op: Operation) -> Seq<u8> {
    match op {
        Operation::StartDir(p) => dir_row(p.b()) + nl(),
        Operation::File(f) => match fut_val(&f) {
            Ok(e) => file_start(e.file_name.b(), e.exe, e.size as nat) + e.hashes.b() + nl(),
            Err(_) => Seq::empty(),
        },
        Operation::Symlink(d, e) => link_row(ename(&e), fs_link(&*d, ename(&e))) + nl(),
    }
}
pub open spec fn opfailed(op: Operation) -> bool { op is File && fut_val(&op->File_0) is Err }
pub open spec fn qtext(q: Seq<Operation>) -> Seq<u8>
    decreases q.len()
{
    if q.len() == 0 { Seq::empty() } else { optext(q[0]) + qtext(q.skip(1)) }
}
pub open spec fn qfailed(q: Seq<Operation>) -> bool { exists|i: int| 0 <= i < q.len() && opfailed(#[trigger] q[i]) }
proof fn lemma_qtext_push(q: Seq<Operation>, op: Operation)
    ensures qtext(q.push(op)) == qtext(q) + optext(op), qfailed(q.push(op)) == (qfailed(q) || opfailed(op))
    decreases q.len()
{
    if q.len() == 0 {
        assert(q.push(op).skip(1) =~= Seq::<Operation>::empty());
        assert(qtext(q.push(op).skip(1)) =~= Seq::<u8>::empty());
        assert(qtext(q.push(op)) =~= qtext(q) + optext(op));
    } else {
        lemma_qtext_push(q.skip(1), op);
        assert(q.push(op).skip(1) =~= q.skip(1).push(op));
        assert(qtext(q.push(op)) =~= qtext(q) + optext(op));
    }
    assert(q.push(op)[q.len() as int] == op);
    assert(forall|i: int| 0 <= i < q.len() ==> q.push(op)[i] == q[i]);
}
proof fn lemma_qtext_front(q: Seq<Operation>, op: Operation)
    ensures qtext(seq![op] + q) == optext(op) + qtext(q), qfailed(seq![op] + q) == (opfailed(op) || qfailed(q))
{
    let s = seq![op] + q;
    assert(s.skip(1) =~= q);
    assert(s[0] == op);
    assert(forall|i: int| 0 <= i < q.len() ==> q[i] == s[i + 1]);
    assert(forall|i: int| 0 < i < s.len() ==> s[i] == q[i - 1]);
}
proof fn lemma_qtext_pop(q: Seq<Operation>, op: Operation, r: Seq<Operation>)
    requires q.len() > 0, q[0] == op, r == q.skip(1)
    ensures qtext(q) == optext(op) + qtext(r), qfailed(q) == (opfailed(op) || qfailed(r))
{
    assert(seq![op] + r =~= q);
    lemma_qtext_front(r, op);
}
proof fn lemma_qtext_fronts(q: Seq<Operation>)
    ensures forall|op: Operation| #![trigger seq![op] + q] qtext(seq![op] + q) == optext(op) + qtext(q) && qfailed(seq![op] + q) == (opfailed(op) || qfailed(q))
{
    assert forall|op: Operation| #![trigger seq![op] + q] qtext(seq![op] + q) == optext(op) + qtext(q) && qfailed(seq![op] + q) == (opfailed(op) || qfailed(q)) by {
        lemma_qtext_front(q, op);
    }
}
@@type impl v1::threaded_writer::<ThreadedWriter as Writer>
@items
    open spec fn w_ok(&self) -> bool { self.tw_inv() }
    open spec fn body(&self) -> Seq<u8> { self.file.digest.written() + qtext(self.queue@) }
    open spec fn failed(&self) -> bool { qfailed(self.queue@) }
    open spec fn whead(&self) -> Seq<u8> { self.file.hd() }
    open spec fn wcfg(&self) -> Cfg { Cfg { alg: H::alg(), resets: H::resets(), bs: self.block_size as nat } }
    open spec fn th(h: H::Output) -> Seq<u8> { h.hb() }
    #[verifier::prophetic]
    open spec fn fin(&self) -> Seq<u8> { self.file.file.w_fin() }
    #[verifier::prophetic]
    open spec fn fflush(&self) -> bool { self.file.file.w_fflush() }
@@fn v1::threaded_writer::ThreadedWriter::new
@ret r
@call CpuPool::new => vp_pool_new
@at start
    proof { lemma_names(); }
@spec
    requires f.w_inv(), hash.w_inv(), hash.written() == Seq::<u8>::empty(), block_size > 0, threads < 1_000_000_000
    ensures r is Ok ==> r->Ok_0.w_ok() && r->Ok_0.body() == Seq::<u8>::empty() && !r->Ok_0.failed()
        && r->Ok_0.wcfg() == (Cfg { alg: H::alg(), resets: H::resets(), bs: block_size as nat })
        && r->Ok_0.fin() == f.w_fin() && r->Ok_0.fflush() == f.w_fflush()
        && r->Ok_0.whead() == f.written() + header_row(H::alg(), block_size as nat) + nl() // [P10 P12 P17]
@@fn v1::threaded_writer::ThreadedWriter::poll_item
@ret r
@call .read_link => &vp_read_link
@call .wait => vp_wait
@call executor::spawn => vp_task
@call .poll_future_notify => &mut vp_poll_notify
@spec
    requires (*old(self)).tw_inv()
    ensures r is Ok ==> (*final(self)).tw_same(&*old(self)),
        r is Ok && r->Ok_0 ==> (*final(self)).queue@ == (*old(self)).queue@ && !opfailed(item)
            && (*final(self)).file.digest.written() == (*old(self)).file.digest.written() + optext(item), // [P10 P11 P12 P13 P16]
        r is Ok && blocking ==> r->Ok_0,
        r is Ok && !r->Ok_0 ==> (exists|op: Operation| (*final(self)).queue@ == #[trigger] (seq![op] + (*old(self)).queue@) && optext(op) == optext(item) && opfailed(op) == opfailed(item))
            && (*final(self)).file == (*old(self)).file // [P10 P11 P12 P13 P16]
@at end
    proof {
        lemma_flags();
        let row = optext(item);
        assert(self.file.file.written() =~= old(self).file.file.written() + row);
        lemma_hw(old(self).file, self.file, row);
    }
@@fn v1::threaded_writer::ThreadedWriter::poll_queue
@ret r
@spec
    requires (*old(self)).tw_inv()
    ensures r is Ok ==> (*final(self)).tw_same(&*old(self)) && (*final(self)).failed() == (*old(self)).failed() && (*final(self)).body() == (*old(self)).body() // [P10 P11 P12 P13 P16]
@loop 0
    invariant
        self.tw_same(&*old(self)), self.failed() == old(self).failed(), self.body() == old(self).body(),
    decreases self.queue@.len()
@at loop 0 next
    let ghost q0 = self.queue@;
    let ghost d0 = self.file.digest.written();
@at loop 0 head
    proof {
        let q1 = self.queue@;
        lemma_qtext_pop(q0, item, q1);
        lemma_qtext_fronts(q1);
        assert((d0 + optext(item)) + qtext(q1) =~= d0 + (optext(item) + qtext(q1)));
    }
@@fn v1::threaded_writer::ThreadedWriter::wait_queue
@ret r
@spec
    requires (*old(self)).tw_inv()
    ensures r is Ok ==> (*final(self)).tw_same(&*old(self)) && (*final(self)).queue@.len() == 0 && !(*old(self)).failed()
        && (*final(self)).body() == (*old(self)).body() // [P10 P11 P12 P13 P16]
@loop 0
    invariant
        self.tw_same(&*old(self)), self.failed() == old(self).failed(), self.body() == old(self).body(),
    decreases self.queue@.len()
@at loop 0 next
    let ghost q0 = self.queue@;
    let ghost d0 = self.file.digest.written();
@at loop 0 head
    proof {
        let q1 = self.queue@;
        lemma_qtext_pop(q0, item, q1);
        lemma_qtext_fronts(q1);
        assert((d0 + optext(item)) + qtext(q1) =~= d0 + (optext(item) + qtext(q1)));
    }
@at end
    proof { assert(self.queue@ =~= Seq::<Operation>::empty()); assert(self.body() =~= self.file.digest.written()); }
@@fn v1::threaded_writer::<ThreadedWriter as Writer>::start_dir
@at end
    proof {
        lemma_qtext_push(old(self).queue@, self.queue@.last());
        assert(self.queue@ =~= old(self).queue@.push(self.queue@.last()));
        assert(self.body() =~= old(self).body() + dir_row(path.b()) + nl());
    }
@@fn v1::threaded_writer::<ThreadedWriter as Writer>::add_symlink
@at start
    let ghost row = link_row(ename(&entry), fs_link(&**dir, ename(&entry)));
@at end
    proof {
        lemma_qtext_push(old(self).queue@, self.queue@.last());
        assert(self.queue@ =~= old(self).queue@.push(self.queue@.last()));
        assert(self.body() =~= old(self).body() + row + nl());
    }
@@fn v1::threaded_writer::<ThreadedWriter as Writer>::add_file
@opt own=hash
@opt write=string
@call .open_file => &vp_open_file
@call .spawn_fn => &vp_spawn_fn
@closure 0 || -> (r: Result<FileEntry, Error>)
    requires hash.w_inv(), hash.written() == Seq::<u8>::empty(), block_size > 0
    ensures r is Ok ==> r->Ok_0.file_name.b() == nm && r->Ok_0.exe == exe && r->Ok_0.size == size
        && (exists|h: Seq<u8>| r->Ok_0.hashes.b() == #[trigger] hashes_text(h, dlen()) && h == digs(c.alg, c.resets, Seq::empty(), data, c.bs, ceil_div(size, c.bs)))
@at start
    let ghost nm = ename(&entry);
    let ghost data = fs_data(&**dir, nm);
    let ghost size = fs_size(&**dir, nm);
    let ghost exe = is_exe(fs_mode(&**dir, nm));
    let ghost c = self.wcfg();
@at loop 0 before
    let ghost mut hs: Seq<u8> = Seq::empty();
    let ghost mut i: nat = 0;
    proof {
        lemma_flags();
        assert(data.skip(0) =~= data); lemma_digs(c.alg, c.resets, Seq::empty(), data, c.bs, 0); assert(hashes_text(hs, dlen()) =~= Seq::<u8>::empty());
    }
@loop 0
    invariant
        hash.w_inv(), hash.written() == hst(H::resets(), Seq::empty(), data, c.bs, i),
        buf.b() == hashes_text(hs, dlen()),
        hs.len() == dlen() * i, n == (if i * c.bs <= size { size - i * c.bs } else { 0 }), i > 0 ==> (i - 1) * c.bs < size,
        hs == digs(c.alg, c.resets, Seq::empty(), data, c.bs, i) && f.rd_data() == data.skip(imin((i * c.bs) as int, data.len() as int)),
    decreases n
@at loop 0 tail
    proof {
        lemma_block_step(data, c.bs, i);
        lemma_hstep(c.alg, c.resets, Seq::empty(), data, c.bs, i);
        lemma_hashes_text_push(hs, h.hb(), dlen());
        hs = hs + h.hb();
        i = i + 1;
    }
@at loop 0 after
    proof { lemma_ceil(size, c.bs, i); }
@at end
    proof {
        let op = self.queue@.last();
        lemma_qtext_push(old(self).queue@, op);
        assert(self.queue@ =~= old(self).queue@.push(op));
        assert(self.body() =~= old(self).body() + optext(op));
        if !opfailed(op) {
            let h = choose|h: Seq<u8>| fut_val(&op->File_0)->Ok_0.hashes.b() == #[trigger] hashes_text(h, dlen()) && h == digs(c.alg, c.resets, Seq::empty(), data, c.bs, ceil_div(size, c.bs));
            lemma_digs(c.alg, c.resets, Seq::empty(), data, c.bs, ceil_div(size, c.bs));
            assert(hashes_of(c, size, data, h));
            assert(optext(op) =~= file_row(nm, exe, size, h, dlen()) + nl());
            assert(is_file_row(c, nm, exe, size, data, optext(op)));
        }
    }
@@fn v1::threaded_writer::<ThreadedWriter as Writer>::get_hash
@ret r
@spec
    ensures r is Ok ==> (*final(self)).queue@.len() == 0 // [P10 P11 P12 P13 P16]
@@fn v1::threaded_writer::<ThreadedWriter as Writer>::done
@at end
    proof { assert(vp_self.body() =~= vp_self.file.digest.written()); }
@@rem
