@@module v1::parser
@use
use crate::vp::*;
use crate::spec::*;
use crate::HashTypeEnum;
use vstd::utf8::encode_utf8;
@ghost
broadcast use {crate::vp::vp_axioms, crate::spec::seq_facts};
use vstd::std_specs::iter::IteratorSpec;

impl<'a> vstd::std_specs::iter::IteratorSpecImpl for HashesIter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.0.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a [u8]> { self.0.remaining() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.0.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { self.0.decrease() }
    open spec fn peek(&self, i: int) -> Option<&'a [u8]> { self.0.peek(i) }
}

impl<'a> vstd::std_specs::iter::IteratorSpecImpl for HexHashesIter<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.0.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Hexlified<'a>> { let r = self.0.remaining(); Seq::new(r.len(), |i: int| Hexlified(r[i])) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.0.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { self.0.decrease() }
    open spec fn peek(&self, i: int) -> Option<Hexlified<'a>> { match self.0.peek(i) { Some(x) => Some(Hexlified(x)), None => None } }
}

impl Hashes {
    pub open spec fn wf(&self) -> bool { self.data@.len() % dlen() == 0 }
    pub open spec fn block(&self, i: int) -> Seq<u8> { self.data@.subrange(i * dlen(), (i + 1) * dlen()) }
}
/// derived
impl Clone for Header {
    #[verifier::external_body]
    fn clone(&self) -> (r: Header)
        ensures r.hash_type == self.hash_type, r.block_size == self.block_size, r.version.b() == self.version.b()
    { unimplemented!() }
}
impl Header {
    pub open spec fn wf(&self) -> bool { self.block_size > 0 && self.version.b() == "v1".b() }
}
impl<R: BufRead> Parser<R> {
    pub open spec fn wf(&self) -> bool { self.header.wf() }
    pub open spec fn rest(&self) -> Seq<u8> { self.reader.rd_data() }
    pub open spec fn ok(&self) -> bool { self.reader.rd_ok() }
}
/// the entry as the format understands it
pub open spec fn ev(e: Entry) -> Ent {
    match e {
        Entry::Dir(p) => Ent::Dir(p.b()),
        Entry::File { path, exe, size, hashes } => Ent::File { path: path.b(), exe, size: size as nat, hashes: hashes.data@ },
        Entry::Link(p, d) => Ent::Link(p.b(), d.b()),
    }
}

impl<'a, R: BufRead> EntryIterator<'a, R> {
    pub open spec fn st(&self) -> It {
        It { data: (*self.reader).rd_data(), row: self.current_row@, dir: self.current_dir.b(), ended: self.exhausted, lost: self.lost }
    }
    pub open spec fn ok(&self) -> bool { (*self.reader).rd_ok() }
    pub open spec fn ht(&self) -> HashType { self.hash_type }
    pub open spec fn bs(&self) -> nat { self.block_size as nat }
    pub open spec fn wf(&self) -> bool { self.block_size > 0 }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.block_size == o.block_size && self.hash_type == o.hash_type && (*self.reader).rd_ok() == (*o.reader).rd_ok()
    }
}
impl<'a, R: BufRead> vstd::std_specs::iter::IteratorSpecImpl for EntryIterator<'a, R> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { false }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<Result<Entry, ParseError>> { Seq::empty() }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { false }
    open spec fn decrease(&self) -> Option<nat> { None }
    open spec fn peek(&self, i: int) -> Option<Result<Entry, ParseError>> { None }
}
impl<P> vstd::std_specs::cmp::OrdSpecImpl for EntryKind<P> where P: AsRef<Path> + PartialEq + Eq {
    open spec fn obeys_cmp_spec() -> bool { false }
    open spec fn cmp_spec(&self, other: &Self) -> Ordering { arbitrary() }
}
impl<P> vstd::std_specs::cmp::PartialOrdSpecImpl for EntryKind<P> where P: AsRef<Path> + PartialEq + Eq {
    open spec fn obeys_partial_cmp_spec() -> bool { false }
    open spec fn partial_cmp_spec(&self, other: &Self) -> Option<Ordering> { arbitrary() }
}
impl<P: AsRef<Path>> EntryKind<P> {
    /// the path of the entry
    pub open spec fn p(&self) -> Seq<u8> { match *self { EntryKind::Dir(p) => p.ar().b(), EntryKind::File(p) => p.ar().b() } }
    pub open spec fn valid(&self) -> bool { match *self { EntryKind::Dir(p) => is_abs(p.ar().b()), EntryKind::File(p) => file_path_ok(p.ar().b()) } }
    pub open spec fn key(&self) -> Key { match *self { EntryKind::Dir(p) => dir_key(p.ar().b()), EntryKind::File(p) => file_key(p.ar().b()) } }
}
@@fn v1::parser::EntryKind::path
@ret r
@spec
    ensures r.b() == self.p()
@@fn v1::parser::EntryKind::as_ref
@ret r
@spec
    ensures r is Dir == self is Dir, r.p() == self.p(), r.valid() == self.valid(), r.key() == self.key()
@@fn v1::parser::EntryKind::cloned
@ret r
@spec
    ensures r is Dir == self is Dir, r.p() == self.p(), r.valid() == self.valid(), r.key() == self.key()
@@fn v1::parser::<EntryKind as Ord>::cmp
@ret r
@opt panic=!(self.valid() && other.valid())
@spec
    ensures self.valid() && other.valid() ==> r == kcmp(self.key(), other.key())
@@fn v1::parser::<EntryKind as PartialOrd>::partial_cmp
@ret r
@spec
    ensures self.valid() && other.valid() ==> r == Some(kcmp(self.key(), other.key()))
@@fn v1::parser::Entry::path
@ret r
@spec
    ensures r.b() == ent_path(ev(*self))
@@fn v1::parser::Entry::kind
@ret r
@spec
    ensures r.p() == ent_path(ev(*self)), r is Dir == self is Dir,
        r.valid() == ent_ok(ev(*self)), r.key() == ent_key(ev(*self))

@@fn v1::parser::hex_to_digit
@ret r
@spec
    ensures is_hexd(v) <==> r is Ok, r is Ok ==> r->Ok_0 == hexval(v)
@at start
    assert(0x30 <= v <= 0x39 ==> v & 0x0f == v - 0x30) by (bit_vector);
    assert(0x41 <= v <= 0x46 ==> v & 0x0f == v - 0x40) by (bit_vector);
    assert(0x61 <= v <= 0x66 ==> v & 0x0f == v - 0x60) by (bit_vector);

@@fn v1::parser::parse_hex
@ret r
@spec
    requires v@.len() >= 2
    ensures (is_hexd(v@[0]) && is_hexd(v@[1])) <==> r is Ok,
        r is Ok ==> r->Ok_0 == unhexbyte(v@[0], v@[1])
@at start
    proof { lemma_nibbles(); }

@@fn v1::parser::hex_to_digit_unchecked
@ret r
@spec
    requires is_hexd(v)
    ensures r == hexval(v)
@at start
    assert(0x30 <= v <= 0x39 ==> v & 0x0f == v - 0x30) by (bit_vector);
    assert(0x41 <= v <= 0x46 ==> v & 0x0f == v - 0x40) by (bit_vector);
    assert(0x61 <= v <= 0x66 ==> v & 0x0f == v - 0x60) by (bit_vector);

@@fn v1::parser::parse_hex_unchecked
@ret r
@spec
    requires v@.len() >= 2, is_hexd(v@[0]), is_hexd(v@[1])
    ensures r == unhexbyte(v@[0], v@[1])
@at start
    proof { lemma_nibbles(); }

@@fn v1::parser::is_hex
@ret r
@spec
    ensures r == is_hexd(c)

@@fn v1::parser::is_hex_encoding
@ret r
@spec
    ensures r == is_esc(s@)

@@fn v1::parser::parse_field
@ret r
@spec
    ensures field_ok(data@) <==> r is Ok,
        r is Ok ==> r->Ok_0.0@ == field(data@) && r->Ok_0.1@ == field_tail(data@)
@closure 0 |vp_p0: &u8| -> (r: bool)
    ensures r == (*vp_p0 == 0x20)
@at start
    proof {
        lemma_space_at(data@);
        let n = data@.len() as int;
        assert(vp_at(space_at(data@)) && data@.subrange(0, 0) =~= Seq::<u8>::empty() && data@.subrange(n, n) =~= Seq::<u8>::empty());
    }

@@fn v1::parser::parse_u64
@ret r
@spec
    ensures match r {
        Ok(p) => field_ok(data@) && parse_dec(field(data@)) == Some(p.0 as nat) && p.1@ == field_tail(data@),
        Err(_) => !field_ok(data@) || parse_dec(field(data@)) is None,
    }
@at start
    proof { lemma_not_dec(field(data@)); }

@@fn v1::parser::parse_os_str
@ret r
@spec
    ensures field_ok(data@) <==> r is Ok,
        r is Ok ==> r->Ok_0.0.b() == field(data@) && r->Ok_0.1@ == field_tail(data@)

@@fn v1::parser::parse_path_buf
@ret r
@spec
    ensures field_ok(data@) <==> r is Ok,
        r is Ok ==> r->Ok_0.0.b() == unescape(field(data@)) && r->Ok_0.1@ == field_tail(data@)

@@fn v1::parser::parse_path
@ret r
@spec
    ensures field_ok(data@) <==> r is Ok,
        r is Ok ==> r->Ok_0.0.b() == unescape(field(data@)) && r->Ok_0.1@ == field_tail(data@)

@@fn v1::parser::is_file_name
@ret r
@spec
    ensures r == is_name(path.b())

@@fn v1::parser::unescape_hex
@ret r
@spec
    ensures r.b() == unescape(s.b())
@loop 0
    invariant bytes@ == s.b(), i <= bytes@.len(), forall|j: int| 0 <= j < i ==> !is_esc(#[trigger] bytes@.skip(j))
    decreases bytes@.len() - i
@at return 0
    proof { lemma_unescape_noesc(s.b()); }
@loop 1
    invariant bytes@ == s.b(), i <= bytes@.len(), v@ + unescape(bytes@.skip(i as int)) == unescape(bytes@)
    decreases bytes@.len() - i
@at loop 1 before
    proof { lemma_unescape_prefix(bytes@, i as int); assert(v@ =~= bytes@.take(i as int)); }
@at loop 1 head
    let ghost v0 = v@;
    let ghost i0 = i as int;
    let ghost rest = bytes@.skip(i0);
@at loop 1 tail
    proof {
        if is_esc(rest) { assert(rest.skip(4) =~= bytes@.skip(i0 + 4)); }
        assert(rest.skip(1) =~= bytes@.skip(i0 + 1));
        assert(v0 + unescape(rest) =~= v@ + unescape(bytes@.skip(i as int)));
    }
@at end
    proof { assert(bytes@.skip(i as int) =~= Seq::<u8>::empty()); assert(v@ =~= unescape(s.b())); }

@@fn v1::parser::parse_hashes
@ret r
@spec
    ensures match r {
        Ok(p) => parse_hashes_spec(data@, dlen(), hashes_num as nat) == Some((p.0@, p.1@)),
        Err(_) => parse_hashes_spec(data@, dlen(), hashes_num as nat) is None,
    }
@at start
    let ghost data0 = data@;
@loop 0
    invariant
        digest_len == dlen(), hash_len == 2 * dlen(), i <= hashes_num,
        parse_hashes_spec(data0, dlen(), hashes_num as nat) == (match parse_hashes_spec(data@, dlen(), (hashes_num - i) as nat) {
            None => None, Some(p) => Some((buf@ + p.0, p.1)) }),
    decreases hashes_num - i
@at loop 0 head
    let ghost buf0 = buf@;
    let ghost row0 = data@;
    proof { lemma_space_at(data@); }
@loop 1
    invariant
        hash@.len() == 64, buf@ == buf0 + unhex(hash@.take(64 - 2 * vp_it1.remaining().len())),
        all_hex(hash@.take(64 - 2 * vp_it1.remaining().len())), vp_it1.remaining().len() <= 32,
        vp_it1.obeys_prophetic_iter_laws(), vp_it1.will_return_none(), vp_it1.decrease() is Some,
        forall|k: int| 0 <= k < vp_it1.remaining().len() ==> (#[trigger] vp_it1.remaining()[k])@ =~= hash@.subrange(64 - 2 * vp_it1.remaining().len() + 2 * k, 64 - 2 * vp_it1.remaining().len() + 2 * k + 2),
    decreases vp_it1.decrease()->0
@at loop 0 tail
    proof {
        assert(hash@.take(64) =~= field(row0));
        assert(buf@ =~= buf0 + unhex(field(row0)));
        assert forall|x: Seq<u8>| #[trigger] (buf@ + x) == buf0 + (unhex(field(row0)) + x) by {
            assert(buf@ + x =~= buf0 + (unhex(field(row0)) + x));
        }
    }
@at end
    proof { if i == hashes_num { assert(buf@ + Seq::<u8>::empty() =~= buf@); } }
@@fn v1::parser::Hashes::new
@ret r
@spec
    ensures r.data == data, r.hash_type == hash_type, r.block_size == block_size

@@fn v1::parser::Hashes::len
@ret r
@spec
    ensures r == self.data@.len() / dlen()

@@fn v1::parser::Hashes::get
@ret r
@spec
    ensures match r {
        Some(h) => (idx + 1) * dlen() <= self.data@.len() && h@ == self.block(idx as int),
        None => (idx + 1) * dlen() > self.data@.len(),
    }
@at start
    proof { assert(self.data.len() <= usize::MAX); }

@@fn v1::parser::Hashes::block_size
@ret r
@spec
    ensures r == self.block_size

@@fn v1::parser::Hashes::hash_type
@ret r
@spec
    ensures r == self.hash_type

@@fn v1::parser::Hashes::iter
@ret r
@spec
    requires self.wf()
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        r.remaining().len() == self.data@.len() / dlen(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == self.block(i)

@@fn v1::parser::Hashes::hex_iter
@ret r
@spec
    requires self.wf()
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        r.remaining().len() == self.data@.len() / dlen(),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i]).0@ == self.block(i)

@@fn v1::parser::Hashes::hash_file
@ret r
@spec
    requires block_size > 0
    ensures r is Ok ==> r->Ok_0.0 == f.rd_data().len() && r->Ok_0.1.wf() && r->Ok_0.1.hash_type == hash && r->Ok_0.1.block_size == block_size
        && r->Ok_0.1.data@.len() == dlen() * ceil_div(f.rd_data().len(), block_size as nat) // [P14]
        && r->Ok_0.1.data@ == digs(hash.0, alg_resets(hash.0), Seq::empty(), f.rd_data(), block_size as nat, ceil_div(f.rd_data().len(), block_size as nat)) // [P14]
        && (hash.0 != crate::HashTypeEnum::Blake3_256 ==> r->Ok_0.1.data@ == block_hashes(hash.0, f.rd_data(), block_size as nat, ceil_div(f.rd_data().len(), block_size as nat))) // [P14]

@@fn v1::parser::Hashes::_hash_file
@attr #[verifier::allow_complex_invariants]
@ret r
@call .extend => &mut vp_extend
@spec
    requires block_size > 0, h.w_inv(), h.written() == Seq::<u8>::empty()
    ensures r is Ok ==> r->Ok_0.0 == f.rd_data().len() && r->Ok_0.1.wf() && r->Ok_0.1.hash_type == typ && r->Ok_0.1.block_size == block_size
        && r->Ok_0.1.data@.len() == dlen() * ceil_div(f.rd_data().len(), block_size as nat) // [P14]
        && r->Ok_0.1.data@ == digs(H::alg(), H::resets(), Seq::empty(), f.rd_data(), block_size as nat, ceil_div(f.rd_data().len(), block_size as nat)) // [P14]
        && (H::resets() ==> r->Ok_0.1.data@ == block_hashes(H::alg(), f.rd_data(), block_size as nat, ceil_div(f.rd_data().len(), block_size as nat))) // [P14]
@at start
    let ghost data = f.rd_data();
    let ghost n = f.rd_data().len();
    let ghost b = block_size as nat;
    let ghost mut i: nat = 0;
    proof { assert(data.skip(0) =~= data); ax_stream(data); lemma_digs(H::alg(), H::resets(), Seq::empty(), data, b, 0); }
@loop 0
    invariant_except_break
        f.rd_data() == data.skip(imin((i * b) as int, n as int)),
    invariant
        h.w_inv(), h.written() == hst(H::resets(), Seq::empty(), data, b, i),
        size == imin((i * b) as int, n as int),
        buf@.len() == dlen() * i, i > 0 ==> (i - 1) * b < n,
        buf@ == digs(H::alg(), H::resets(), Seq::empty(), data, b, i),
    ensures i * b >= n
    decreases f.rd_data().len()
@at loop 0 head
    proof { lemma_block_step(data, b, i); lemma_hstep(H::alg(), H::resets(), Seq::empty(), data, b, i); }
@at call .extend#0 after
    proof { i = i + 1; }
@at loop 0 after
    proof { lemma_ceil(n, b, i); lemma_digs(H::alg(), H::resets(), Seq::empty(), data, b, i); }

@@fn v1::parser::Hashes::check_file
@ret r
@spec
    requires self.wf(), self.block_size > 0
    ensures r is Ok ==>
        r->Ok_0 == (self.data@ == digs(self.hash_type.0, alg_resets(self.hash_type.0), Seq::empty(), f.rd_data(), self.block_size as nat, ceil_div(f.rd_data().len(), self.block_size as nat))), // [P14]
        r is Ok && self.hash_type.0 != crate::HashTypeEnum::Blake3_256 ==>
        r->Ok_0 == (self.data@ == block_hashes(self.hash_type.0, f.rd_data(), self.block_size as nat, ceil_div(f.rd_data().len(), self.block_size as nat))) // [P14]

@@fn v1::parser::Hashes::_check_file
@ret r
@spec
    requires self.wf(), self.block_size > 0, h.w_inv(), h.written() == Seq::<u8>::empty()
    ensures r is Ok ==>
        r->Ok_0 == (self.data@ == digs(H::alg(), H::resets(), Seq::empty(), f.rd_data(), self.block_size as nat, ceil_div(f.rd_data().len(), self.block_size as nat))), // [P14]
        r is Ok && H::resets() ==>
        r->Ok_0 == (self.data@ == block_hashes(H::alg(), f.rd_data(), self.block_size as nat, ceil_div(f.rd_data().len(), self.block_size as nat))) // [P14]
@at start
    let ghost data = f.rd_data();
    let ghost n = f.rd_data().len();
    let ghost b = self.block_size as nat;
    let ghost want = digs(H::alg(), H::resets(), Seq::empty(), f.rd_data(), self.block_size as nat, ceil_div(f.rd_data().len(), self.block_size as nat));
    let ghost k = ceil_div(n, b);
    proof { assert(data.skip(0) =~= data); lemma_ceil_is(n, b); lemma_digs_all(H::alg(), H::resets(), Seq::empty(), data, b, k); lemma_digs(H::alg(), H::resets(), Seq::empty(), data, b, k); lemma_digs(H::alg(), H::resets(), Seq::empty(), data, b, 0); }
@loop 0
    invariant
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= self.data@.len() / dlen(),
        forall|j: int| 0 <= j < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[j])@ == self.block(self.data@.len() / dlen() - vp_it0.remaining().len() + j),
        h.w_inv(),
        ({
            let i = (self.data@.len() / dlen() - vp_it0.remaining().len()) as nat;
            h.written() == hst(H::resets(), Seq::empty(), data, b, i) && f.rd_data() == data.skip(imin((i * b) as int, n as int)) && i <= k && (i > 0 ==> (i - 1) * b < n)
            && self.data@.take((i * dlen()) as int) == digs(H::alg(), H::resets(), Seq::empty(), data, b, i)
        }),
    decreases vp_it0.decrease()->0
@at loop 0 enter
    proof {
        let i = (self.data@.len() / dlen() - vp_it0.remaining().len()) as nat;
        assert(i == 0 && self.data@.take((i * dlen()) as int) =~= Seq::empty() && digs(H::alg(), H::resets(), Seq::empty(), data, b, i) =~= Seq::empty());
    }
@at loop 0 head
    let ghost i = (self.data@.len() / dlen() - vp_it0.remaining().len() - 1) as nat;
    proof {
        lemma_block_step(data, b, i);
        lemma_hstep(H::alg(), H::resets(), Seq::empty(), data, b, i);
        if i * b >= n { lemma_ceil(n, b, i); }
        if i >= k { assert(i * b >= k * b) by (nonlinear_arith) requires i >= k; }
        assert(i < k ==> want.subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == dg(H::alg(), hst(H::resets(), Seq::empty(), data, b, i) + block_of(data, b, i)));
        assert(self.block(i as int) == self.data@.subrange((i * dlen()) as int, ((i + 1) * dlen()) as int));
    }
@at loop 0 tail
    proof {
        assert(self.data@.take(((i + 1) * dlen()) as int) =~= self.data@.take((i * dlen()) as int) + self.block(i as int));
        assert(((i + 1) - 1) * b == i * b);
    }
@at loop 0 after
    proof {
        let m = self.data@.len() / dlen();
        if m * b >= n { lemma_ceil(n, b, m); }
        if m >= k { assert(m * b >= k * b) by (nonlinear_arith) requires m >= k; }
        assert(self.data@.take((m * dlen()) as int) =~= self.data@);
    }

@@fn v1::parser::<HashesIter as Iterator>::next

@@fn v1::parser::<HexHashesIter as Iterator>::next
@opt map=option

@@fn v1::parser::Entry::parse
@ret r
@spec
    requires block_size > 0
    ensures match r {
        Ok(Some(e)) => parse_row(row@, current_dir.b(), dlen(), block_size as nat) == Some(Some(ev(e)))
            && (e is File ==> e->hashes.hash_type == hash_type && e->hashes.block_size == block_size),
        Ok(None) => parse_row(row@, current_dir.b(), dlen(), block_size as nat) == Some(None::<Ent>),
        Err(_) => parse_row(row@, current_dir.b(), dlen(), block_size as nat) is None,
    }
@at start
    proof { lemma_strlits(); lemma_blocks(block_size); }

@@fn v1::parser::Footer::parse
@ret r
@spec
    ensures match r {
        Ok(f) => parse_footer(row@, dlen()) == Some(f.0@),
        Err(_) => parse_footer(row@, dlen()) is None,
    }
@@fn v1::parser::read_line
@ret r
@spec
    requires old(buf)@.len() == 0
    ensures (*final(reader)).rd_ok() == (*old(reader)).rd_ok(), 
        match r {
            Ok(_) => first_line((*old(reader)).rd_data()) == Some(final(buf)@)
                && (*final(reader)).rd_data() == (*old(reader)).rd_data().skip(final(buf)@.len() as int + 1),
            Err(_) => (final(buf)@.len() == 0 ==> (*final(reader)).rd_data() == (*old(reader)).rd_data())
                && ((*old(reader)).rd_ok() ==> first_line((*old(reader)).rd_data()) is None
                    && final(buf)@ == (*old(reader)).rd_data() && (*final(reader)).rd_data() == Seq::<u8>::empty()),
        }
@at start
    proof { lemma_first_line((*reader).rd_data()); }

@@type v1::parser::Header
@derive
@@fn v1::parser::Header::parse
@call .split_whitespace => vp_split_whitespace
@call .splitn => vp_str_splitn
@call HashType::from_str => HashType::vp_from_str
@ret r
@spec
    ensures match r {
        Ok(h) => is_header(row@, h.hash_type.0, h.block_size as nat) && h.wf(), // [P17]
        Err(_) => forall|a: HashTypeEnum, n: nat| !is_header(row@, a, n), // [P17]
    }
@at start
    proof { lemma_names(); lemma_names_differ(); lemma_str_is("block_size"); lemma_str_is("v1"); lemma_str_is("DIRSIGNATURE"); }
@at call .split_whitespace#0 after
    let ghost w = words(line@);
    proof {
        assert forall|c: Seq<char>| #[trigger] encode_utf8(c) == row@ implies c == line@ by { encode_utf8_injective(c, line@); }
        if w.len() >= 1 { lemma_sig_split(encode_utf8(w[0])); }
        if w.len() >= 3 { lemma_kv_split(encode_utf8(w[2])); }
        assert((bs_key() + seq![0x3du8]).len() == 11);
    }

@@fn v1::parser::Header::get_version
@ret r
@spec
    ensures r.b() == self.version.b() // [P17]
@@fn v1::parser::Header::get_hash_type
@ret r
@spec
    ensures r == self.hash_type // [P17]
@@fn v1::parser::Header::get_block_size
@ret r
@spec
    ensures r == self.block_size // [P17]
@@fn v1::parser::Parser::new
@ret r
@spec
    ensures match r {
        Ok(p) => p.wf() && first_line(reader.rd_data()) is Some && is_header(first_line(reader.rd_data())->0, p.header.hash_type.0, p.header.block_size as nat) // [P17]
            && p.rest() == reader.rd_data().skip(first_line(reader.rd_data())->0.len() as int + 1) && p.ok() == reader.rd_ok(),
        Err(_) => reader.rd_ok() ==> first_line(reader.rd_data()) is None || forall|a: HashTypeEnum, n: nat| !is_header(first_line(reader.rd_data())->0, a, n), // [P17]
    }
@@fn v1::parser::Parser::get_header
@ret r
@spec
    ensures r.hash_type == self.header.hash_type, r.block_size == self.header.block_size, r.version.b() == self.header.version.b() // [P17]
@@fn v1::parser::Parser::iter
@ret r
@spec
    requires old(self).wf()
    ensures r.st() == (It { data: old(self).rest(), row: Seq::empty(), dir: Seq::empty(), ended: false, lost: false }),
        r.ok() == old(self).ok(), r.bs() == old(self).header.block_size, r.ht() == old(self).header.hash_type, r.wf()
@@fn v1::parser::Parser::into_reader
@ret r
@spec
    ensures r == self.reader

@@fn v1::parser::EntryIterator::new
@ret r
@spec
    requires block_size > 0
    ensures r.st() == (It { data: (*old(reader)).rd_data(), row: Seq::empty(), dir: Seq::empty(), ended: false, lost: false }),
        r.ok() == (*old(reader)).rd_ok(), r.bs() == block_size, r.ht() == hash_type, r.wf()

@@fn v1::parser::EntryIterator::_parse_entry
@ret r
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(Some(e)) => step(old(self).st(), dlen(), old(self).bs()) == (Step::Ent(ev(e)), final(self).st()),
            Ok(None) => step(old(self).st(), dlen(), old(self).bs()) == (Step::End, final(self).st()),
            Err(_) => (old(self).ok() ==> step(old(self).st(), dlen(), old(self).bs()) == (Step::Err, final(self).st()))
                && !final(self).st().ended && final(self).st().dir == old(self).st().dir,
        }
@at start
    proof { ax_count(self.current_row_num); }

@@fn v1::parser::EntryIterator::parse_entry
@ret r
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Ok(Some(e)) => step(old(self).st(), dlen(), old(self).bs()) == (Step::Ent(ev(e)), final(self).st()),
            Ok(None) => step(old(self).st(), dlen(), old(self).bs()) == (Step::End, final(self).st()),
            Err(_) => (old(self).ok() ==> step(old(self).st(), dlen(), old(self).bs()) == (Step::Err, final(self).st()))
                && !final(self).st().ended && final(self).st().dir == old(self).st().dir,
        }

@@fn v1::parser::EntryIterator::advance
@ret r
@spec
    requires old(self).wf(), kind.valid()
    ensures final(self).same(old(self)),
        match r {
            Some(Ok(e)) => seek(old(self).st(), kind.key(), dlen(), old(self).bs()) == (Seek::Found(ev(e)), final(self).st()),
            None => seek(old(self).st(), kind.key(), dlen(), old(self).bs()) == (Seek::Missing, final(self).st()),
            Some(Err(_)) => (old(self).ok() ==> seek(old(self).st(), kind.key(), dlen(), old(self).bs()) == (Seek::Err, final(self).st()))
                && final(self).st().row.len() == 0 && !final(self).st().ended,
        }
@loop 0
    invariant
        self.wf(), self.same(old(self)),
        seek(old(self).st(), kind.key(), dlen(), old(self).bs()) == seek(self.st(), kind.key(), dlen(), self.bs()),
    decreases measure(self.st())
@at loop 0 head
    proof {
        lemma_step_measure(self.st(), dlen(), self.bs());
        lemma_step_ok(self.st(), dlen(), self.bs());
    }

@@fn v1::parser::<EntryIterator as Iterator>::next
@ret r
@opt inherent=yes
@spec
    requires old(self).wf()
    ensures final(self).same(old(self)),
        match r {
            Some(Ok(e)) => step(old(self).st(), dlen(), old(self).bs()).0 == Step::Ent(ev(e))
                && final(self).st() == clear(step(old(self).st(), dlen(), old(self).bs()).1),
            None => step(old(self).st(), dlen(), old(self).bs()).0 == Step::End
                && final(self).st() == clear(step(old(self).st(), dlen(), old(self).bs()).1),
            Some(Err(_)) => (old(self).ok() ==> step(old(self).st(), dlen(), old(self).bs()).0 == Step::Err
                    && final(self).st() == clear(step(old(self).st(), dlen(), old(self).bs()).1))
                && final(self).st().row.len() == 0 && !final(self).st().ended,
        }
@@fn v1::parser::<Hexlified as LowerHex>::fmt
@opt inherent=yes
@opt panic=self.0@.len() != 32
@call .enumerate => vp_enumerate
@opt bits=yes
@call .precision => &vp_precision
@call .write_str => vp_write_str
@ret r
@spec
    requires fprec(old(f)) is None || fprec(old(f))->0 <= 64
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + hex(self.0@).take(if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }) // [P10 P11]
@loop 0
    invariant
        data@ == self.0@, data@.len() == 32, max_digits <= 64, max_digits == (if fprec(old(f)) is None { 64 } else { fprec(old(f))->0 as int }),
        *f == *old(f),
        vp_it0.obeys_prophetic_iter_laws(), vp_it0.decrease() is Some,
        vp_it0.remaining().len() <= todo, max_digits <= 2 * todo <= 64,
        forall|k: int| 0 <= k < vp_it0.remaining().len() ==> (#[trigger] vp_it0.remaining()[k]).0 == todo - vp_it0.remaining().len() + k
            && *vp_it0.remaining()[k].1 == data@[todo - vp_it0.remaining().len() + k],
        hex_filled(res@, data@, todo - vp_it0.remaining().len()),
    decreases vp_it0.decrease()->0
@at loop 0 before
    proof { lemma_unnibble(); lemma_hex_none(res@, data@); }
@at loop 0 enter
    let ghost todo = vp_it0.remaining().len();
@at loop 0 head
    let ghost res0 = res@;
@at loop 0 tail
    proof {
        let (ga, gb) = (hexdig(data@[i as int] as int / 16), hexdig(data@[i as int] as int % 16));
        assert(res@ =~= res0.update(2 * i as int, ga).update(2 * i as int + 1, gb));
        lemma_hex_step(res0, res@, data@, i as int, ga, gb);
    }
@at loop 0 exit
    proof { lemma_hex_done(data@, res@, max_digits as int, todo as int); }
@@rem
