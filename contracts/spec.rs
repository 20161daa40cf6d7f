//! The index format as mathematics: specification functions and lemmas.
//! Nothing in this file is executable and nothing in it is assumed.
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::vp::Bytes;
use std::cmp::Ordering;

verus! {

/// length of every supported digest in bytes
#[verifier::inline]
pub open spec fn dlen() -> nat { 32 }

pub broadcast proof fn lemma_sub_full<A>(s: Seq<A>, k: int)
    requires k == s.len()
    ensures #[trigger] s.subrange(0, k) == s
{ assert(s.subrange(0, k) =~= s); }
pub broadcast group seq_facts { lemma_sub_full, lemma_rev_bcmp, lemma_rev_ncmp }

// ---------------------------------------------------------------- hex digits
pub open spec fn is_hexd(c: u8) -> bool {
    (0x30 <= c && c <= 0x39) || (0x41 <= c && c <= 0x46) || (0x61 <= c && c <= 0x66)
}
pub open spec fn hexval(c: u8) -> int {
    if 0x30 <= c && c <= 0x39 { c - 0x30 } else if 0x41 <= c && c <= 0x46 { c - 0x41 + 10 } else { c - 0x61 + 10 }
}
/// lowercase hex digit of n < 16
pub open spec fn hexdig(n: int) -> u8 {
    if n < 10 { (0x30 + n) as u8 } else { (0x61 + n - 10) as u8 }
}
pub open spec fn hexbyte(b: u8) -> Seq<u8> {
    seq![hexdig(b as int / 16), hexdig(b as int % 16)]
}
/// lowercase hex of a byte string
pub open spec fn hex(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { hexbyte(s[0]) + hex(s.skip(1)) }
}
pub open spec fn unhexbyte(a: u8, b: u8) -> u8 {
    (hexval(a) * 16 + hexval(b)) as u8
}
pub open spec fn all_hex(s: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_hexd(#[trigger] s[i])
}
/// the byte string written as the hex digits s (pairs)
pub open spec fn unhex(s: Seq<u8>) -> Seq<u8> {
    Seq::new((s.len() / 2) as nat, |i: int| unhexbyte(s[2 * i], s[2 * i + 1]))
}

/// putting two hex digits together with shift and or
pub proof fn lemma_nibbles()
    ensures forall|a: u8, b: u8| a < 16 && b < 16 ==> (#[trigger] ((a << 4) | b)) == a * 16 + b
{
    assert(forall|a: u8, b: u8| a < 16 && b < 16 ==> (#[trigger] ((a << 4) | b)) == a * 16 + b) by (bit_vector);
}

/// the two digits of a byte with shift and mask
pub proof fn lemma_unnibble()
    ensures forall|a: u8| (#[trigger] (a >> 4)) == a / 16, forall|a: u8| (#[trigger] (a & 0xF)) == a % 16
{
    assert(forall|a: u8| (#[trigger] (a >> 4)) == a / 16) by (bit_vector);
    assert(forall|a: u8| (#[trigger] (a & 0xF)) == a % 16) by (bit_vector);
}
/// the first n digits of the hex of 32 bytes
pub proof fn lemma_hex_prefix(data: Seq<u8>, res: Seq<u8>, n: int, m: int)
    requires data.len() == 32, res.len() == 64, 0 <= n <= 2 * m <= 64,
        forall|k: int| 0 <= k < m ==> (#[trigger] res[2 * k]) == hexbyte(data[k])[0] && res[2 * k + 1] == hexbyte(data[k])[1]
    ensures res.take(n) == hex(data).take(n), forall|i: int| 0 <= i < n ==> #[trigger] res.take(n)[i] < 0x80
{
    lemma_hex_len(data);
    assert forall|i: int| 0 <= i < n implies #[trigger] res.take(n)[i] == hex(data)[i] && res.take(n)[i] < 0x80 by {
        let k = i / 2;
        assert(i == 2 * k || i == 2 * k + 1);
        lemma_hex_index(data, k);
        lemma_hexbyte(data[k]);
        assert(res[2 * k] == hexbyte(data[k])[0]);
        lemma_hexd_ascii(res[2 * k]); lemma_hexd_ascii(res[2 * k + 1]);
    }
    assert(res.take(n) =~= hex(data).take(n));
}
/// the first `n` bytes are there as digits
#[verifier::opaque]
pub open spec fn hex_filled(res: Seq<u8>, data: Seq<u8>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> (#[trigger] res[2 * k]) == hexbyte(data[k])[0] && res[2 * k + 1] == hexbyte(data[k])[1]
}
pub proof fn lemma_hex_none(res: Seq<u8>, data: Seq<u8>)
    ensures hex_filled(res, data, 0)
{ reveal(hex_filled); }
pub proof fn lemma_hex_step(res0: Seq<u8>, res: Seq<u8>, data: Seq<u8>, i: int, a: u8, b: u8)
    requires hex_filled(res0, data, i), 0 <= i < data.len(), 2 * i + 1 < res0.len(),
        res == res0.update(2 * i, a).update(2 * i + 1, b),
        a == hexdig(data[i] as int / 16), b == hexdig(data[i] as int % 16)
    ensures hex_filled(res, data, i + 1)
{
    reveal(hex_filled);
    assert forall|k: int| 0 <= k < i + 1 implies (#[trigger] res[2 * k]) == hexbyte(data[k])[0] && res[2 * k + 1] == hexbyte(data[k])[1] by {
        if k < i { assert(res[2 * k] == res0[2 * k] && res[2 * k + 1] == res0[2 * k + 1]); }
    }
}
pub proof fn lemma_hex_done(data: Seq<u8>, res: Seq<u8>, n: int, m: int)
    requires data.len() == 32, res.len() == 64, 0 <= n <= 2 * m <= 64, hex_filled(res, data, m)
    ensures res.subrange(0, n) == hex(data).take(n), forall|i: int| 0 <= i < n ==> #[trigger] res.subrange(0, n)[i] < 0x80
{
    reveal(hex_filled);
    lemma_hex_prefix(data, res, n, m);
    assert(res.subrange(0, n) =~= res.take(n));
}
pub proof fn lemma_hexd_ascii(c: u8)
    requires is_hexd(c)
    ensures c < 0x80
{}

pub proof fn lemma_hexdig(n: int)
    requires 0 <= n < 16
    ensures is_hexd(hexdig(n)), hexval(hexdig(n)) == n, hexdig(n) != 0x20, hexdig(n) != 0x0a
{}

pub proof fn lemma_hexbyte(b: u8)
    ensures hexbyte(b).len() == 2, is_hexd(hexbyte(b)[0]), is_hexd(hexbyte(b)[1]),
        unhexbyte(hexbyte(b)[0], hexbyte(b)[1]) == b
{
    lemma_hexdig(b as int / 16);
    lemma_hexdig(b as int % 16);
}

pub proof fn lemma_hex_len(s: Seq<u8>)
    ensures hex(s).len() == 2 * s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_hex_len(s.skip(1)); }
}

pub proof fn lemma_hex_index(s: Seq<u8>, i: int)
    requires 0 <= i < s.len()
    ensures hex(s).len() == 2 * s.len(), hex(s)[2 * i] == hexbyte(s[i])[0], hex(s)[2 * i + 1] == hexbyte(s[i])[1]
    decreases s.len()
{
    lemma_hex_len(s);
    lemma_hex_len(s.skip(1));
    if i > 0 {
        lemma_hex_index(s.skip(1), i - 1);
        assert(s.skip(1)[i - 1] == s[i]);
    }
}

pub proof fn lemma_hex_roundtrip(s: Seq<u8>)
    ensures hex(s).len() == 2 * s.len(), all_hex(hex(s)), unhex(hex(s)) == s
{
    lemma_hex_len(s);
    assert forall|i: int| 0 <= i < hex(s).len() implies is_hexd(#[trigger] hex(s)[i]) by {
        lemma_hex_index(s, i / 2);
        lemma_hexbyte(s[i / 2]);
        assert(i == 2 * (i / 2) || i == 2 * (i / 2) + 1);
    }
    assert forall|i: int| 0 <= i < s.len() implies unhex(hex(s))[i] == s[i] by {
        lemma_hex_index(s, i);
        lemma_hexbyte(s[i]);
    }
    assert(unhex(hex(s)) =~= s);
}

pub proof fn lemma_hex_append(a: Seq<u8>, b: Seq<u8>)
    ensures hex(a + b) == hex(a) + hex(b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(hex(a) + hex(b) =~= hex(b));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_hex_append(a.skip(1), b);
        assert(hex(a + b) =~= hex(a) + hex(b));
    }
}

// ------------------------------------------------------------------- escapes
pub open spec fn needs_esc(b: u8) -> bool { b <= 0x20 || b >= 0x7F || b == 0x5c }
pub open spec fn esc1(b: u8) -> Seq<u8> {
    if needs_esc(b) { seq![0x5cu8, 0x78u8] + hexbyte(b) } else { seq![b] }
}
pub open spec fn escape(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { esc1(s[0]) + escape(s.skip(1)) }
}
pub open spec fn is_esc(s: Seq<u8>) -> bool {
    s.len() >= 4 && s[0] == 0x5c && s[1] == 0x78 && is_hexd(s[2]) && is_hexd(s[3])
}
pub open spec fn unescape(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_esc(s) { seq![unhexbyte(s[2], s[3])] + unescape(s.skip(4)) }
    else { seq![s[0]] + unescape(s.skip(1)) }
}

pub proof fn lemma_escape_roundtrip(s: Seq<u8>)
    ensures unescape(escape(s)) == s
    decreases s.len()
{
    if s.len() > 0 {
        let b = s[0];
        let t = escape(s.skip(1));
        lemma_escape_roundtrip(s.skip(1));
        lemma_hexbyte(b);
        let e = esc1(b) + t;
        if needs_esc(b) {
            assert(e[0] == 0x5c && e[1] == 0x78 && e[2] == hexbyte(b)[0] && e[3] == hexbyte(b)[1]);
            assert(is_esc(e));
            assert(e.skip(4) =~= t);
        } else {
            assert(e[0] == b);
            assert(!is_esc(e));
            assert(e.skip(1) =~= t);
        }
        assert(seq![b] + s.skip(1) =~= s);
    } else {
        assert(s =~= Seq::<u8>::empty());
    }
}

pub proof fn lemma_escape_append(a: Seq<u8>, b: Seq<u8>)
    ensures escape(a + b) == escape(a) + escape(b)
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(escape(a) + escape(b) =~= escape(b));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_escape_append(a.skip(1), b);
        assert(escape(a + b) =~= escape(a) + escape(b));
    }
}

pub proof fn lemma_escape_push(a: Seq<u8>, b: u8)
    ensures escape(a.push(b)) == escape(a) + esc1(b)
{
    lemma_escape_append(a, seq![b]);
    assert(a + seq![b] =~= a.push(b));
    assert(seq![b].skip(1) =~= Seq::<u8>::empty());
    assert(escape(seq![b].skip(1)) =~= Seq::<u8>::empty());
    assert(escape(seq![b]) =~= esc1(b));
}

/// printable ASCII other than space
pub open spec fn graphic(c: u8) -> bool { 0x21 <= c && c <= 0x7e }

pub proof fn lemma_escape_graphic(s: Seq<u8>)
    ensures forall|i: int| 0 <= i < escape(s).len() ==> graphic(#[trigger] escape(s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        lemma_escape_graphic(s.skip(1));
        let b = s[0];
        lemma_hexbyte(b);
        lemma_hexdig(b as int / 16);
        lemma_hexdig(b as int % 16);
        let t = escape(s.skip(1));
        assert forall|i: int| 0 <= i < escape(s).len() implies graphic(#[trigger] escape(s)[i]) by {
            if i < esc1(b).len() {
                assert(escape(s)[i] == esc1(b)[i]);
            } else {
                assert(escape(s)[i] == t[i - esc1(b).len()]);
            }
        }
    }
}

pub proof fn lemma_escape_nonempty(s: Seq<u8>)
    ensures (escape(s).len() == 0) <==> (s.len() == 0), escape(s).len() >= s.len()
    decreases s.len()
{
    if s.len() > 0 { lemma_hexbyte(s[0]); lemma_escape_nonempty(s.skip(1)); }
}

pub proof fn lemma_unescape_noesc(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> !is_esc(#[trigger] s.skip(i))
    ensures unescape(s) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert(s.skip(0) =~= s);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies !is_esc(#[trigger] s.skip(1).skip(i)) by {
            assert(s.skip(1).skip(i) =~= s.skip(i + 1));
        }
        lemma_unescape_noesc(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else {
        assert(s =~= Seq::<u8>::empty());
    }
}

/// a prefix without escapes is kept as it is
pub proof fn lemma_unescape_prefix(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> !is_esc(#[trigger] s.skip(i))
    ensures unescape(s) == s.take(k) + unescape(s.skip(k))
    decreases k
{
    if k == 0 {
        assert(s.skip(0) =~= s);
        assert(s.take(0) + unescape(s) =~= unescape(s));
    } else {
        assert(s.skip(0) =~= s);
        assert forall|i: int| 0 <= i < k - 1 implies !is_esc(#[trigger] s.skip(1).skip(i)) by {
            assert(s.skip(1).skip(i) =~= s.skip(i + 1));
        }
        lemma_unescape_prefix(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(seq![s[0]] + s.skip(1).take(k - 1) =~= s.take(k));
        assert(unescape(s) =~= s.take(k) + unescape(s.skip(k)));
    }
}

// ------------------------------------------------------------------ decimals
pub open spec fn is_dec(c: u8) -> bool { 0x30 <= c && c <= 0x39 }
pub open spec fn dec(n: nat) -> Seq<u8>
    decreases n
{
    if n < 10 { seq![(0x30 + n) as u8] } else { dec(n / 10) + seq![(0x30 + n % 10) as u8] }
}
pub open spec fn dec_val(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec_val(s.drop_last()) * 10 + (s.last() - 0x30) as nat }
}
pub open spec fn all_dec(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dec(#[trigger] s[i]) }
/// what `u64::from_str_radix(s, 10)` accepts
pub open spec fn dec_digits(s: Seq<u8>) -> Seq<u8> {
    if s.len() > 0 && s[0] == 0x2b { s.skip(1) } else { s }
}
pub open spec fn parse_dec(s: Seq<u8>) -> Option<nat> {
    let d = dec_digits(s);
    if d.len() > 0 && all_dec(d) && dec_val(d) <= u64::MAX { Some(dec_val(d)) } else { None }
}

pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, all_dec(dec(n)), dec_val(dec(n)) == n
    decreases n
{
    if n < 10 {
        assert(dec(n).drop_last() =~= Seq::<u8>::empty());
        assert(dec_val(Seq::<u8>::empty()) == 0);
    } else {
        lemma_dec(n / 10);
        let d = dec(n);
        assert(d.drop_last() =~= dec(n / 10));
        assert(d.last() == (0x30 + n % 10) as u8);
        assert(n == (n / 10) * 10 + n % 10);
        assert forall|i: int| 0 <= i < d.len() implies is_dec(#[trigger] d[i]) by {
            if i < d.len() - 1 { assert(d[i] == dec(n / 10)[i]); }
        }
    }
}

pub proof fn lemma_dec_roundtrip(n: nat)
    requires n <= u64::MAX
    ensures parse_dec(dec(n)) == Some(n), dec(n).len() > 0, all_dec(dec(n))
{
    lemma_dec(n);
    assert(is_dec(dec(n)[0]));
    assert(dec_digits(dec(n)) == dec(n));
}

pub proof fn lemma_not_dec(s: Seq<u8>)
    ensures (exists|i: int| 0 <= i < s.len() && s[i] >= 0x80) ==> parse_dec(s) is None
{
    if exists|i: int| 0 <= i < s.len() && s[i] >= 0x80 {
        let i = choose|i: int| 0 <= i < s.len() && s[i] >= 0x80;
        let d = dec_digits(s);
        if d.len() < s.len() { assert(i > 0 ==> d[i - 1] == s[i]); }
        if all_dec(d) { if d.len() < s.len() { assert(is_dec(d[i - 1])); } else { assert(is_dec(d[i])); } }
    }
}

// -------------------------------------------------------------------- fields
pub open spec fn space_at(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0x20 { 0 } else { 1 + space_at(s.skip(1)) }
}
pub open spec fn field(s: Seq<u8>) -> Seq<u8> { s.take(space_at(s)) }
pub open spec fn field_tail(s: Seq<u8>) -> Seq<u8> {
    if space_at(s) < s.len() { s.skip(space_at(s) + 1) } else { Seq::empty() }
}
/// a field may be read here
pub open spec fn field_ok(s: Seq<u8>) -> bool { !(s.len() > 0 && s[0] == 0x20) }

pub proof fn lemma_space_at(s: Seq<u8>)
    ensures 0 <= space_at(s) <= s.len(),
        forall|i: int| 0 <= i < space_at(s) ==> s[i] != 0x20,
        space_at(s) < s.len() ==> s[space_at(s)] == 0x20
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0x20 {} else {
        lemma_space_at(s.skip(1));
        assert forall|i: int| 0 <= i < space_at(s) implies s[i] != 0x20 by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
pub proof fn lemma_space_unique(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != 0x20, k < s.len() ==> s[k] == 0x20
    ensures space_at(s) == k
{
    lemma_space_at(s);
    if space_at(s) < k { assert(s[space_at(s)] != 0x20); }
    if k < space_at(s) { assert(s[k] != 0x20); }
}
/// reading back a field that is followed by a space or ends the row
pub proof fn lemma_field_of(a: Seq<u8>, rest: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] != 0x20
    ensures field(a + seq![0x20u8] + rest) == a, field_tail(a + seq![0x20u8] + rest) == rest,
        field(a) == a, field_tail(a) == Seq::<u8>::empty(),
        a.len() > 0 ==> field_ok(a + seq![0x20u8] + rest) && field_ok(a)
{
    let s = a + seq![0x20u8] + rest;
    lemma_space_unique(s, a.len() as int);
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int + 1) =~= rest);
    lemma_space_unique(a, a.len() as int);
    assert(a.take(a.len() as int) =~= a);
    if a.len() > 0 { assert(a[0] != 0x20); assert(s[0] == a[0]); }
}

/// length of the first line including its end (or of everything)
pub open spec fn line_len(s: Seq<u8>, byte: u8) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] == byte { 1 } else { 1 + line_len(s.skip(1), byte) }
}
pub proof fn lemma_line_len(s: Seq<u8>, byte: u8)
    ensures 0 <= line_len(s, byte) <= s.len(), s.len() > 0 ==> line_len(s, byte) > 0,
        forall|i: int| 0 <= i < line_len(s, byte) - 1 ==> s[i] != byte,
        line_len(s, byte) < s.len() ==> s[line_len(s, byte) - 1] == byte,
    decreases s.len()
{
    if s.len() == 0 || s[0] == byte {} else {
        lemma_line_len(s.skip(1), byte);
        assert forall|i: int| 0 <= i < line_len(s, byte) - 1 implies s[i] != byte by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}

// --------------------------------------------------------------------- paths
/// `Path::join` on bytes
pub open spec fn join(dir: Seq<u8>, name: Seq<u8>) -> Seq<u8> {
    if name.len() > 0 && name[0] == 0x2f { name }
    else if dir.len() == 0 || dir.last() == 0x2f { dir + name }
    else { dir + seq![0x2fu8] + name }
}
pub open spec fn is_abs(p: Seq<u8>) -> bool { p.len() > 0 && p[0] == 0x2f }
/// a single normal path component
pub open spec fn is_name(n: Seq<u8>) -> bool {
    n.len() > 0 && !(n.len() == 1 && n[0] == 0x2e) && !(n.len() == 2 && n[0] == 0x2e && n[1] == 0x2e) && !n.contains(0x2f)
}

// --------------------------------------------------------------------- order
pub open spec fn rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub open spec fn nat_cmp(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
/// lexicographic order of byte strings
pub open spec fn bcmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] != b[0] { nat_cmp(a[0] as int, b[0] as int) }
    else { bcmp(a.skip(1), b.skip(1)) }
}
pub open spec fn is_dotdot(c: Seq<u8>) -> bool { c.len() == 2 && c[0] == 0x2e && c[1] == 0x2e }
/// order of path components: `..` is before every name
pub open spec fn ncmp(a: Seq<u8>, b: Seq<u8>) -> Ordering {
    if is_dotdot(a) || is_dotdot(b) { nat_cmp(if is_dotdot(a) { 0 } else { 1 }, if is_dotdot(b) { 0 } else { 1 }) }
    else { bcmp(a, b) }
}
/// order of directories: component by component
pub open spec fn ccmp(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if ncmp(a[0], b[0]) != Ordering::Equal { ncmp(a[0], b[0]) }
    else { ccmp(a.skip(1), b.skip(1)) }
}

pub proof fn lemma_bcmp(a: Seq<u8>, b: Seq<u8>)
    ensures bcmp(b, a) == rev(bcmp(a, b)), bcmp(a, b) == Ordering::Equal <==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_bcmp(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    }
}
pub broadcast proof fn lemma_rev_bcmp(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] crate::vp::ord_rev(bcmp(a, b)) == bcmp(b, a)
{ lemma_bcmp(a, b); }
pub broadcast proof fn lemma_rev_ncmp(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] crate::vp::ord_rev(ncmp(a, b)) == ncmp(b, a)
{ lemma_ncmp(a, b); }
pub proof fn lemma_bcmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures bcmp(a, b) == Ordering::Less && bcmp(b, c) == Ordering::Less ==> bcmp(a, c) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_bcmp_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
pub proof fn lemma_ncmp(a: Seq<u8>, b: Seq<u8>)
    ensures ncmp(b, a) == rev(ncmp(a, b)), ncmp(a, b) == Ordering::Equal <==> a == b
{
    lemma_bcmp(a, b);
    if is_dotdot(a) && is_dotdot(b) { assert(a =~= b); }
}
pub proof fn lemma_ncmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures ncmp(a, b) == Ordering::Less && ncmp(b, c) == Ordering::Less ==> ncmp(a, c) == Ordering::Less
{
    lemma_bcmp_trans(a, b, c);
}
pub proof fn lemma_ccmp(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    ensures ccmp(b, a) == rev(ccmp(a, b)), ccmp(a, b) == Ordering::Equal <==> a == b
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_ncmp(a[0], b[0]);
        lemma_ccmp(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    }
}
pub proof fn lemma_ccmp_trans(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, c: Seq<Seq<u8>>)
    ensures ccmp(a, b) == Ordering::Less && ccmp(b, c) == Ordering::Less ==> ccmp(a, c) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_ncmp(a[0], b[0]); lemma_ncmp(b[0], c[0]); lemma_ncmp(a[0], c[0]);
        lemma_ncmp_trans(a[0], b[0], c[0]);
        lemma_ccmp_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
/// a directory is before everything below it
pub proof fn lemma_ccmp_below(a: Seq<Seq<u8>>, t: Seq<Seq<u8>>)
    requires t.len() > 0
    ensures ccmp(a, a + t) == Ordering::Less
    decreases a.len()
{
    if a.len() > 0 {
        lemma_ncmp(a[0], a[0]);
        lemma_ccmp_below(a.skip(1), t);
        assert((a + t).skip(1) =~= a.skip(1) + t);
    } else { assert(a + t =~= t); }
}
/// and everything below it is before the next sibling
pub proof fn lemma_ccmp_sibling(d: Seq<Seq<u8>>, x: Seq<u8>, y: Seq<u8>, t: Seq<Seq<u8>>, u: Seq<Seq<u8>>)
    requires ncmp(x, y) == Ordering::Less
    ensures ccmp(d + seq![x] + t, d + seq![y] + u) == Ordering::Less
    decreases d.len()
{
    if d.len() > 0 {
        lemma_ncmp(d[0], d[0]);
        lemma_ccmp_sibling(d.skip(1), x, y, t, u);
        assert((d + seq![x] + t).skip(1) =~= d.skip(1) + seq![x] + t);
        assert((d + seq![y] + u).skip(1) =~= d.skip(1) + seq![y] + u);
    } else {
        assert((d + seq![x] + t)[0] == x);
        assert((d + seq![y] + u)[0] == y);
    }
}

/// position of the first slash
pub open spec fn slash_at(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0x2f { 0 } else { 1 + slash_at(s.skip(1)) }
}
pub proof fn lemma_slash_at(s: Seq<u8>)
    ensures 0 <= slash_at(s) <= s.len(), forall|i: int| 0 <= i < slash_at(s) ==> s[i] != 0x2f,
        slash_at(s) < s.len() ==> s[slash_at(s)] == 0x2f
    decreases s.len()
{
    if s.len() == 0 || s[0] == 0x2f {} else {
        lemma_slash_at(s.skip(1));
        assert forall|i: int| 0 <= i < slash_at(s) implies s[i] != 0x2f by {
            if i > 0 { assert(s[i] == s.skip(1)[i - 1]); }
        }
    }
}
pub open spec fn real_comp(c: Seq<u8>) -> bool { c.len() > 0 && !is1(c, 0x2e) }
/// the components of an absolute path after the root
pub open spec fn comps(p: Seq<u8>) -> Seq<Seq<u8>>
    decreases p.len() via comps_dec
{
    if p.len() == 0 { Seq::empty() } else {
        let k = slash_at(p);
        let t = if k < p.len() { comps(p.skip(k + 1)) } else { Seq::empty() };
        if real_comp(p.take(k)) { seq![p.take(k)] + t } else { t }
    }
}
#[via_fn]
proof fn comps_dec(p: Seq<u8>) { lemma_slash_at(p); }

pub proof fn lemma_comps_name(n: Seq<u8>)
    requires is_name(n)
    ensures comps(n) == seq![n], comps(Seq::<u8>::empty()) == Seq::<Seq<u8>>::empty()
{
    lemma_slash_at(n);
    assert(slash_at(n) == n.len());
    assert(n.take(n.len() as int) =~= n);
    assert(seq![n] + Seq::<Seq<u8>>::empty() =~= seq![n]);
}
pub proof fn lemma_comps_cat(a: Seq<u8>, n: Seq<u8>)
    ensures comps(a + seq![0x2fu8] + n) == comps(a) + comps(n)
    decreases a.len()
{
    let s = a + seq![0x2fu8] + n;
    lemma_slash_at(a);
    lemma_slash_at(s);
    let k = slash_at(a);
    if slash_at(s) < k { assert(s[slash_at(s)] == a[slash_at(s)]); }
    if slash_at(s) > k { assert(s[k] == 0x2f); }
    assert(slash_at(s) == k);
    assert(s.take(k) =~= a.take(k));
    if k < a.len() {
        lemma_comps_cat(a.skip(k + 1), n);
        assert(s.skip(k + 1) =~= a.skip(k + 1) + seq![0x2fu8] + n);
        assert(comps(s) =~= comps(a) + comps(n));
    } else {
        assert(s.skip(k + 1) =~= n);
        if a.len() == 0 { assert(!real_comp(a.take(0))); }
        assert(comps(s) =~= comps(a) + comps(n));
    }
}
/// joining one name adds one component
pub proof fn lemma_comps_join(d: Seq<u8>, n: Seq<u8>)
    requires is_abs(d), is_name(n)
    ensures comps(join(d, n)) == comps(d).push(n), is_abs(join(d, n)), file_path_ok(join(d, n)),
        file_key(join(d, n)) == (Key { dir: comps(d), file: true, name: n })
{
    lemma_comps_name(n);
    assert(n[0] != 0x2f) by { if n[0] == 0x2f { assert(n.contains(0x2f)); } }
    if d.last() == 0x2f {
        let e = d.drop_last();
        assert(d + n =~= e + seq![0x2fu8] + n);
        assert(d =~= e + seq![0x2fu8] + Seq::<u8>::empty());
        lemma_comps_cat(e, n);
        lemma_comps_cat(e, Seq::empty());
        assert(comps(e) + Seq::<Seq<u8>>::empty() =~= comps(e));
    } else {
        lemma_comps_cat(d, n);
    }
    assert(comps(join(d, n)) =~= comps(d).push(n));
    assert(comps(join(d, n)).drop_last() =~= comps(d));
}

/// the place of an entry: its directory, whether it is a file or a symlink, and its name
pub ghost struct Key { pub dir: Seq<Seq<u8>>, pub file: bool, pub name: Seq<u8> }
pub open spec fn kcmp(a: Key, b: Key) -> Ordering {
    let d = ccmp(a.dir, b.dir);
    if d != Ordering::Equal { d }
    else if a.file != b.file { if b.file { Ordering::Less } else { Ordering::Greater } }
    else if a.file { bcmp(a.name, b.name) }
    else { Ordering::Equal }
}
pub open spec fn key_ok(k: Key) -> bool { !k.file ==> k.name.len() == 0 }
pub open spec fn dir_key(p: Seq<u8>) -> Key { Key { dir: comps(p), file: false, name: Seq::empty() } }
pub open spec fn file_key(p: Seq<u8>) -> Key { Key { dir: comps(p).drop_last(), file: true, name: comps(p).last() } }
pub open spec fn file_path_ok(p: Seq<u8>) -> bool { is_abs(p) && comps(p).len() > 0 && !is_dotdot(comps(p).last()) }

/// P06: the order is total
pub proof fn lemma_kcmp(a: Key, b: Key)
    requires key_ok(a), key_ok(b)
    ensures kcmp(b, a) == rev(kcmp(a, b)), kcmp(a, b) == Ordering::Equal <==> a == b
{
    lemma_ccmp(a.dir, b.dir);
    lemma_bcmp(a.name, b.name);
    if !a.file && !b.file { assert(a.name =~= b.name); }
}
pub proof fn lemma_kcmp_trans(a: Key, b: Key, c: Key)
    ensures kcmp(a, b) == Ordering::Less && kcmp(b, c) == Ordering::Less ==> kcmp(a, c) == Ordering::Less
{
    lemma_ccmp(a.dir, b.dir); lemma_ccmp(b.dir, c.dir); lemma_ccmp(a.dir, c.dir);
    lemma_ccmp_trans(a.dir, b.dir, c.dir);
    lemma_bcmp_trans(a.name, b.name, c.name);
}

// --------------------------------------------------------------------- rows
pub ghost enum Ent {
    Dir(Seq<u8>),
    File { path: Seq<u8>, exe: bool, size: nat, hashes: Seq<u8> },
    Link(Seq<u8>, Seq<u8>),
}

pub open spec fn ent_path(e: Ent) -> Seq<u8> {
    match e { Ent::Dir(p) => p, Ent::File { path, .. } => path, Ent::Link(p, _) => p }
}
pub open spec fn ent_key(e: Ent) -> Key { if e is Dir { dir_key(ent_path(e)) } else { file_key(ent_path(e)) } }
pub open spec fn ent_ok(e: Ent) -> bool { if e is Dir { is_abs(ent_path(e)) } else { file_path_ok(ent_path(e)) } }

/// number of blocks
pub open spec fn ceil_div(a: nat, b: nat) -> nat { if b == 0 { 0 } else { (a / b + (if a % b == 0 { 0nat } else { 1nat })) as nat } }

/// n hashes of dl bytes at the start of the row s: the bytes and what is left
pub open spec fn parse_hashes_spec(s: Seq<u8>, dl: nat, n: nat) -> Option<(Seq<u8>, Seq<u8>)>
    decreases n
{
    if n == 0 { Some((Seq::empty(), s)) }
    else if !field_ok(s) || field(s).len() != 2 * dl || dl == 0 || !all_hex(field(s)) { None }
    else {
        match parse_hashes_spec(field_tail(s), dl, (n - 1) as nat) {
            None => None,
            Some(p) => Some((unhex(field(s)) + p.0, p.1)),
        }
    }
}

pub open spec fn is1(s: Seq<u8>, c: u8) -> bool { s.len() == 1 && s[0] == c }
pub proof fn lemma_strlits()
    ensures "f".b() == seq![0x66u8], "x".b() == seq![0x78u8], "s".b() == seq![0x73u8],
        forall|s: Seq<u8>, c: u8| #[trigger] is1(s, c) <==> s == seq![c],
{
    reveal_strlit("f"); is_ascii_chars_encode_utf8("f"@);
    reveal_strlit("x"); is_ascii_chars_encode_utf8("x"@);
    reveal_strlit("s"); is_ascii_chars_encode_utf8("s"@);
    assert("f".b() =~= seq![0x66u8]);
    assert("x".b() =~= seq![0x78u8]);
    assert("s".b() =~= seq![0x73u8]);
    assert forall|s: Seq<u8>, c: u8| #[trigger] is1(s, c) <==> s == seq![c] by {
        if is1(s, c) { assert(s =~= seq![c]); }
    }
}
pub proof fn lemma_blocks(b: u64)
    ensures forall|a: u64| b > 0 && #[trigger] (a % b) != 0 ==> a / b < u64::MAX
{
    assert forall|a: u64| b > 0 && #[trigger] (a % b) != 0 implies a / b < u64::MAX by {
        assert(a / b < 0xffff_ffff_ffff_ffff) by(nonlinear_arith) requires b > 0, a % b != 0, 0 <= a <= 0xffff_ffff_ffff_ffff;
    }
}
pub open spec fn sp2() -> Seq<u8> { seq![0x20u8, 0x20u8] }

/// the meaning of a row in directory `dir`: None is an error, Some(None) is
/// not an entry (a footer or garbage)
pub open spec fn parse_row(row: Seq<u8>, dir: Seq<u8>, dl: nat, bs: nat) -> Option<Option<Ent>> {
    if row.len() >= 1 && row[0] == 0x2f {
        if field_tail(row).len() > 0 { None } else { Some(Some(Ent::Dir(unescape(field(row))))) }
    } else if row.len() >= 2 && row[0] == 0x20 && row[1] == 0x20 {
        let r1 = row.skip(2);
        let name = unescape(field(r1));
        let r2 = field_tail(r1);
        let kind = field(r2);
        let r3 = field_tail(r2);
        if !field_ok(r1) || !is_name(name) || !is_abs(dir) || !field_ok(r2) { None }
        else if is1(kind, 0x66) || is1(kind, 0x78) {
            if !field_ok(r3) { None } else {
                match parse_dec(field(r3)) {
                    None => None,
                    Some(size) => match parse_hashes_spec(field_tail(r3), dl, ceil_div(size, bs)) {
                        None => None,
                        Some(p) => if p.1.len() > 0 { None } else {
                            Some(Some(Ent::File { path: join(dir, name), exe: is1(kind, 0x78), size, hashes: p.0 }))
                        },
                    },
                }
            }
        } else if is1(kind, 0x73) {
            if !field_ok(r3) || field_tail(r3).len() > 0 { None }
            else { Some(Some(Ent::Link(join(dir, name), unescape(field(r3))))) }
        } else { None }
    } else { Some(None) }
}

/// the row of a file or a directory, or the last row
pub proof fn lemma_unhex_step(s: Seq<u8>, k: int)
    requires s.len() % 2 == 0, 0 <= k, 2 * k + 2 <= s.len()
    ensures unhex(s.take(2 * k)).push(unhexbyte(s[2 * k], s[2 * k + 1])) == unhex(s.take(2 * k + 2))
{
    assert(unhex(s.take(2 * k)).push(unhexbyte(s[2 * k], s[2 * k + 1])) =~= unhex(s.take(2 * k + 2)));
}

pub open spec fn parse_footer(row: Seq<u8>, dl: nat) -> Option<Seq<u8>> {
    match parse_hashes_spec(row, dl, 1) {
        None => None,
        Some(p) => if p.1.len() > 0 { None } else { Some(p.0) },
    }
}

// ------------------------------------------------------------------ iteration
/// the state of an iterator over an index
pub ghost struct It { pub data: Seq<u8>, pub row: Seq<u8>, pub dir: Seq<u8>, pub ended: bool, pub lost: bool }
pub ghost enum Step { Err, End, Ent(Ent) }
pub open spec fn first_line(data: Seq<u8>) -> Option<Seq<u8>> {
    let n = line_len(data, 0x0a);
    if n > 0 && data[n - 1] == 0x0a { Some(data.take(n - 1)) } else { None }
}
/// what the buffered row means
pub open spec fn row_step(s: It, dl: nat, bs: nat) -> (Step, It) {
    match parse_row(s.row, s.dir, dl, bs) {
        None => (Step::Err, s),
        Some(None) =>
            if parse_footer(s.row, dl) is None { (Step::Err, s) }
            else if s.data.len() > 0 { (Step::Err, It { data: s.data.skip(1), lost: true, ..s }) }
            else { (Step::End, It { ended: true, ..s }) },
        Some(Some(e)) => (Step::Ent(e), if e is Dir { It { dir: e->Dir_0, ..s } } else { s }),
    }
}
/// the next entry, which stays in the buffer
pub open spec fn step(s: It, dl: nat, bs: nat) -> (Step, It) {
    if s.ended { (Step::End, s) }
    else if s.lost { (Step::Err, s) }
    else if s.row.len() > 0 { row_step(s, dl, bs) }
    else {
        match first_line(s.data) {
            None => (Step::Err, It { data: Seq::empty(), row: s.data, lost: s.data.len() > 0, ..s }),
            Some(l) => row_step(It { data: s.data.skip(l.len() as int + 1), row: l, ..s }, dl, bs),
        }
    }
}
pub open spec fn clear(s: It) -> It { It { row: Seq::empty(), ..s } }
pub open spec fn measure(s: It) -> nat { s.data.len() + (if s.row.len() > 0 { 1nat } else { 0 }) }

pub proof fn lemma_first_line(d: Seq<u8>)
    ensures match first_line(d) {
        None => line_len(d, 0x0a) == d.len() && (d.len() > 0 ==> d[d.len() - 1] != 0x0a),
        Some(l) => line_len(d, 0x0a) == l.len() + 1 <= d.len() && d[l.len() as int] == 0x0a && d.take(l.len() as int) == l
            && (forall|i: int| 0 <= i < l.len() ==> l[i] != 0x0a),
    }
{
    lemma_line_len(d, 0x0a);
}
pub proof fn lemma_step_measure(s: It, dl: nat, bs: nat)
    ensures step(s, dl, bs).0 is Ent ==> measure(clear(step(s, dl, bs).1)) < measure(s)
        && step(s, dl, bs).1.row.len() > 0 && !step(s, dl, bs).1.ended && !step(s, dl, bs).1.lost
{
    lemma_first_line(s.data);
}

/// every accepted entry has a valid path
pub proof fn lemma_row_ok(row: Seq<u8>, dir: Seq<u8>, dl: nat, bs: nat)
    ensures match parse_row(row, dir, dl, bs) { Some(Some(e)) => ent_ok(e) && row.len() > 0
            && (!(e is Dir) ==> is_abs(dir) && ent_key(e).dir == comps(dir) && is_name(ent_key(e).name)), _ => true }
{
    if row.len() >= 1 && row[0] == 0x2f {
        lemma_space_at(row);
        assert(space_at(row) > 0);
        let f = field(row);
        assert(f[0] == 0x2f);
        assert(!is_esc(f));
        assert(unescape(f)[0] == 0x2f);
    } else if row.len() >= 2 && row[0] == 0x20 && row[1] == 0x20 {
        let name = unescape(field(row.skip(2)));
        if is_abs(dir) && is_name(name) { lemma_comps_join(dir, name); }
    }
}
pub proof fn lemma_step_ok(s: It, dl: nat, bs: nat)
    ensures match step(s, dl, bs).0 { Step::Ent(e) => ent_ok(e), _ => true }
{
    match first_line(s.data) {
        None => {}
        Some(l) => { lemma_row_ok(l, s.dir, dl, bs); }
    }
    lemma_row_ok(s.row, s.dir, dl, bs);
}

// --------------------------------------------------------------------- seeking
pub ghost enum Seek { Err, Missing, Found(Ent) }
pub open spec fn seek(s: It, k: Key, dl: nat, bs: nat) -> (Seek, It)
    decreases measure(s) via seek_dec
{
    let (r, t) = step(s, dl, bs);
    match r {
        Step::Err => (Seek::Err, clear(t)),
        Step::End => (Seek::Missing, t),
        Step::Ent(e) => match kcmp(ent_key(e), k) {
            Ordering::Less => seek(clear(t), k, dl, bs),
            Ordering::Greater => (Seek::Missing, t),
            Ordering::Equal => (Seek::Found(e), clear(t)),
        },
    }
}
#[via_fn]
proof fn seek_dec(s: It, k: Key, dl: nat, bs: nat) { lemma_step_measure(s, dl, bs); }

// ------------------------------------------------------------- the index text
pub open spec fn nl() -> Seq<u8> { seq![0x0au8] }
pub open spec fn sp() -> Seq<u8> { seq![0x20u8] }
/// the names of the hash types in a header
pub open spec fn alg_name(a: crate::HashTypeEnum) -> Seq<u8> {
    match a {
        crate::HashTypeEnum::Sha512_256 => seq![0x73u8, 0x68, 0x61, 0x35, 0x31, 0x32, 0x2f, 0x32, 0x35, 0x36],
        crate::HashTypeEnum::Blake2b_256 => seq![0x62u8, 0x6c, 0x61, 0x6b, 0x65, 0x32, 0x62, 0x2f, 0x32, 0x35, 0x36],
        crate::HashTypeEnum::Blake3_256 => seq![0x62u8, 0x6c, 0x61, 0x6b, 0x65, 0x33, 0x2f, 0x32, 0x35, 0x36],
    }
}
/// "DIRSIGNATURE.v1"
pub open spec fn signature() -> Seq<u8> {
    seq![0x44u8, 0x49, 0x52, 0x53, 0x49, 0x47, 0x4e, 0x41, 0x54, 0x55, 0x52, 0x45, 0x2e, 0x76, 0x31]
}
/// "block_size"
pub open spec fn bs_key() -> Seq<u8> {
    seq![0x62u8, 0x6c, 0x6f, 0x63, 0x6b, 0x5f, 0x73, 0x69, 0x7a, 0x65]
}
pub proof fn lemma_names()
    ensures "sha512/256".b() == alg_name(crate::HashTypeEnum::Sha512_256), "blake2b/256".b() == alg_name(crate::HashTypeEnum::Blake2b_256),
        "blake3/256".b() == alg_name(crate::HashTypeEnum::Blake3_256), "DIRSIGNATURE".b() + seq![0x2eu8] + "v1".b() == signature(), "block_size".b() == bs_key(),
{
    reveal_strlit("sha512/256"); is_ascii_chars_encode_utf8("sha512/256"@);
    reveal_strlit("blake2b/256"); is_ascii_chars_encode_utf8("blake2b/256"@);
    reveal_strlit("blake3/256"); is_ascii_chars_encode_utf8("blake3/256"@);
    reveal_strlit("DIRSIGNATURE"); is_ascii_chars_encode_utf8("DIRSIGNATURE"@);
    reveal_strlit("v1"); is_ascii_chars_encode_utf8("v1"@);
    reveal_strlit("block_size"); is_ascii_chars_encode_utf8("block_size"@);
    assert("sha512/256".b() =~= alg_name(crate::HashTypeEnum::Sha512_256));
    assert("blake2b/256".b() =~= alg_name(crate::HashTypeEnum::Blake2b_256));
    assert("blake3/256".b() =~= alg_name(crate::HashTypeEnum::Blake3_256));
    assert("DIRSIGNATURE".b() + seq![0x2eu8] + "v1".b() =~= signature());
    assert("block_size".b() =~= bs_key());
}
pub proof fn lemma_names_differ()
    ensures forall|a: crate::HashTypeEnum, b: crate::HashTypeEnum| #[trigger] alg_name(a) == #[trigger] alg_name(b) ==> a == b
{
    let x = alg_name(crate::HashTypeEnum::Sha512_256); let y = alg_name(crate::HashTypeEnum::Blake2b_256); let z = alg_name(crate::HashTypeEnum::Blake3_256);
    assert(x[0] != y[0] && x[0] != z[0] && y[6] != z[6]);
}
pub open spec fn header_row(a: crate::HashTypeEnum, bs: nat) -> Seq<u8> {
    signature() + sp() + alg_name(a) + sp() + bs_key() + seq![0x3du8] + dec(bs)
}
pub open spec fn footer_row(a: crate::HashTypeEnum, body: Seq<u8>) -> Seq<u8> { hex(crate::vp::dg(a, body)) }
/// " " and the digits of each digest of a string of digests
pub open spec fn hashes_text(h: Seq<u8>, dl: nat) -> Seq<u8>
    decreases h.len()
{
    if h.len() < dl || dl == 0 { Seq::empty() } else { sp() + hex(h.take(dl as int)) + hashes_text(h.skip(dl as int), dl) }
}
pub open spec fn dir_row(p: Seq<u8>) -> Seq<u8> { escape(p) }
pub open spec fn file_start(name: Seq<u8>, exe: bool, size: nat) -> Seq<u8> {
    sp2() + escape(name) + sp() + (if exe { seq![0x78u8] } else { seq![0x66u8] }) + sp() + dec(size)
}
pub open spec fn file_row(name: Seq<u8>, exe: bool, size: nat, hashes: Seq<u8>, dl: nat) -> Seq<u8> {
    file_start(name, exe, size) + hashes_text(hashes, dl)
}
pub open spec fn link_row(name: Seq<u8>, dest: Seq<u8>) -> Seq<u8> {
    sp2() + escape(name) + sp() + seq![0x73u8] + sp() + escape(dest)
}
pub proof fn lemma_hashes_text_push(h: Seq<u8>, d: Seq<u8>, dl: nat)
    requires h.len() % dl == 0, d.len() == dl, dl > 0
    ensures hashes_text(h + d, dl) == hashes_text(h, dl) + sp() + hex(d), (h + d).len() % dl == 0
    decreases h.len()
{
    if h.len() < dl {
        assert(h.len() == 0) by (nonlinear_arith) requires h.len() % dl == 0, h.len() < dl, dl > 0;
        assert(h + d =~= d);
        assert(d.take(dl as int) =~= d);
        assert(d.skip(dl as int) =~= Seq::<u8>::empty());
        assert(hashes_text(d.skip(dl as int), dl) =~= Seq::<u8>::empty());
        assert(hashes_text(h, dl) =~= Seq::<u8>::empty());
        assert(hashes_text(h + d, dl) =~= hashes_text(h, dl) + sp() + hex(d));
    } else {
        let t = h.skip(dl as int);
        vstd::arithmetic::div_mod::lemma_mod_sub_multiples_vanish(h.len() as int, dl as int);
        lemma_hashes_text_push(t, d, dl);
        assert((h + d).take(dl as int) =~= h.take(dl as int));
        assert((h + d).skip(dl as int) =~= t + d);
        assert((h + d).len() >= dl);
        assert(hashes_text(h + d, dl) == sp() + hex(h.take(dl as int)) + hashes_text(t + d, dl));
        assert(hashes_text(h + d, dl) =~= hashes_text(h, dl) + sp() + hex(d));
    }
    vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(h.len() as int, dl as int);
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
/// the i-th block of a file
pub open spec fn block_of(data: Seq<u8>, bs: nat, i: nat) -> Seq<u8> {
    data.subrange(imin((i * bs) as int, data.len() as int), imin(((i + 1) * bs) as int, data.len() as int))
}
/// the digests of the first n blocks
pub open spec fn block_hashes(a: crate::HashTypeEnum, data: Seq<u8>, bs: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { block_hashes(a, data, bs, (n - 1) as nat) + crate::vp::dg(a, block_of(data, bs, (n - 1) as nat)) }
}
/// what a hasher holds after i blocks of a file, when it held w0 before: a
/// hasher that resets holds nothing, one that does not holds all it was given
pub open spec fn hst(r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, i: nat) -> Seq<u8> {
    if r { Seq::empty() } else { w0 + data.take(imin((i * bs) as int, data.len() as int)) }
}
/// the digests that such a hasher gives after each of the first n blocks
pub open spec fn digs(a: crate::HashTypeEnum, r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, n: nat) -> Seq<u8>
    decreases n
{
    if n == 0 { Seq::empty() } else { digs(a, r, w0, data, bs, (n - 1) as nat) + crate::vp::dg(a, hst(r, w0, data, bs, (n - 1) as nat) + block_of(data, bs, (n - 1) as nat)) }
}
/// one more block
pub proof fn lemma_hstep(a: crate::HashTypeEnum, r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, i: nat)
    requires bs > 0
    ensures digs(a, r, w0, data, bs, i + 1) == digs(a, r, w0, data, bs, i) + crate::vp::dg(a, hst(r, w0, data, bs, i) + block_of(data, bs, i)),
        (if r { Seq::empty() } else { hst(r, w0, data, bs, i) + block_of(data, bs, i) }) == hst(r, w0, data, bs, i + 1),
        r ==> hst(r, w0, data, bs, i) + block_of(data, bs, i) == block_of(data, bs, i),
{
    lemma_block_step(data, bs, i);
    let n = data.len() as int;
    assert(data.take(imin((i * bs) as int, n)) + block_of(data, bs, i) =~= data.take(imin(((i + 1) * bs) as int, n)));
    if r { assert(Seq::<u8>::empty() + block_of(data, bs, i) =~= block_of(data, bs, i)); }
    else { assert(hst(r, w0, data, bs, i) + block_of(data, bs, i) =~= hst(r, w0, data, bs, i + 1)); }
}
/// a hasher that resets gives the digests of the blocks themselves
pub proof fn lemma_digs(a: crate::HashTypeEnum, r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, n: nat)
    requires bs > 0
    ensures r ==> digs(a, r, w0, data, bs, n) == block_hashes(a, data, bs, n), digs(a, r, w0, data, bs, n).len() == n * dlen(),
        w0.len() == 0 ==> hst(r, w0, data, bs, 0) == w0,
        n == 0 ==> digs(a, r, w0, data, bs, n) == Seq::<u8>::empty(),
    decreases n
{
    broadcast use crate::vp::ax_dg_len;
    assert(w0 + data.take(0) =~= w0);
    assert(w0.len() == 0 ==> w0 =~= Seq::<u8>::empty());
    if n > 0 {
        lemma_digs(a, r, w0, data, bs, (n - 1) as nat);
        lemma_hstep(a, r, w0, data, bs, (n - 1) as nat);
    }
}
/// ... one by one
pub proof fn lemma_digs_at(a: crate::HashTypeEnum, r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, n: nat, i: nat)
    requires i < n, bs > 0
    ensures digs(a, r, w0, data, bs, n).len() == n * dlen(),
        digs(a, r, w0, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, hst(r, w0, data, bs, i) + block_of(data, bs, i)),
    decreases n
{
    broadcast use crate::vp::ax_dg_len;
    lemma_digs(a, r, w0, data, bs, (n - 1) as nat);
    lemma_digs(a, r, w0, data, bs, n);
    let p = digs(a, r, w0, data, bs, (n - 1) as nat);
    let d = crate::vp::dg(a, hst(r, w0, data, bs, (n - 1) as nat) + block_of(data, bs, (n - 1) as nat));
    if i == n - 1 {
        assert((p + d).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) =~= d);
    } else {
        lemma_digs_at(a, r, w0, data, bs, (n - 1) as nat, i);
        assert((p + d).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) =~= p.subrange((i * dlen()) as int, ((i + 1) * dlen()) as int));
    }
}
pub proof fn lemma_digs_all(a: crate::HashTypeEnum, r: bool, w0: Seq<u8>, data: Seq<u8>, bs: nat, n: nat)
    requires bs > 0
    ensures digs(a, r, w0, data, bs, n).len() == n * dlen(),
        forall|i: nat| i < n ==> digs(a, r, w0, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, hst(r, w0, data, bs, i) + #[trigger] block_of(data, bs, i)),
{
    lemma_digs(a, r, w0, data, bs, n);
    assert forall|i: nat| i < n implies digs(a, r, w0, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, hst(r, w0, data, bs, i) + #[trigger] block_of(data, bs, i)) by {
        lemma_digs_at(a, r, w0, data, bs, n, i);
    }
}
pub proof fn lemma_block_step(data: Seq<u8>, bs: nat, i: nat)
    requires bs > 0
    ensures
        data.skip(imin((i * bs) as int, data.len() as int)).take(imin(bs as int, data.len() - imin((i * bs) as int, data.len() as int))) == block_of(data, bs, i),
        data.skip(imin((i * bs) as int, data.len() as int)).skip(imin(bs as int, data.len() - imin((i * bs) as int, data.len() as int))) == data.skip(imin(((i + 1) * bs) as int, data.len() as int)),
        (i + 1) * bs == i * bs + bs, i * bs >= 0
{
    assert((i + 1) * bs == i * bs + bs) by (nonlinear_arith);
    assert(i * bs >= 0) by (nonlinear_arith) requires bs > 0;
    assert(data.skip(imin((i * bs) as int, data.len() as int)).take(imin(bs as int, data.len() - imin((i * bs) as int, data.len() as int))) =~= block_of(data, bs, i));
    assert(data.skip(imin((i * bs) as int, data.len() as int)).skip(imin(bs as int, data.len() - imin((i * bs) as int, data.len() as int))) =~= data.skip(imin(((i + 1) * bs) as int, data.len() as int)));
}
/// the number of blocks of n bytes
pub proof fn lemma_ceil(n: nat, bs: nat, i: nat)
    requires bs > 0, i > 0 ==> (i - 1) * bs < n, i * bs >= n
    ensures i == ceil_div(n, bs)
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, bs as int);
    let q = n / bs; let r = n % bs;
    assert(n == bs * q + r);
    assert(r < bs);
    if r == 0 {
        assert(i == q) by (nonlinear_arith) requires bs > 0, n == bs * q + r, r == 0, i > 0 ==> (i - 1) * bs < n, i * bs >= n;
    } else {
        assert(i == q + 1) by (nonlinear_arith) requires bs > 0, n == bs * q + r, 0 < r < bs, i > 0 ==> (i - 1) * bs < n, i * bs >= n;
    }
}
pub proof fn lemma_flags()
    ensures "x".b() == seq![0x78u8], "f".b() == seq![0x66u8]
{
    reveal_strlit("x"); is_ascii_chars_encode_utf8("x"@);
    reveal_strlit("f"); is_ascii_chars_encode_utf8("f"@);
    assert("x".b() =~= seq![0x78u8]);
    assert("f".b() =~= seq![0x66u8]);
}
/// the executable bit of the owner
pub open spec fn is_exe(mode: u32) -> bool { mode & 0o100 > 0 }
/// whether a digest forgets its input when it is finished
pub open spec fn alg_resets(a: crate::HashTypeEnum) -> bool { !(a is Blake3_256) }
/// what a writer of indexes works with: the hash type, the block size and
/// whether the hasher forgets everything when it gives a digest
pub ghost struct Cfg { pub alg: crate::HashTypeEnum, pub resets: bool, pub bs: nat }
/// the digests of a row: those of the file's own blocks; from a hasher that
/// does not reset, digests of all it was given so far
pub open spec fn hashes_of(c: Cfg, size: nat, data: Seq<u8>, h: Seq<u8>) -> bool {
    h.len() == dlen() * ceil_div(size, c.bs)
        && (c.resets ==> h == block_hashes(c.alg, data, c.bs, ceil_div(size, c.bs)))
        && exists|w0: Seq<u8>| h == #[trigger] digs(c.alg, c.resets, w0, data, c.bs, ceil_div(size, c.bs))
}
/// a row of a file with this content, with the digests of its own blocks
pub open spec fn is_file_row(c: Cfg, name: Seq<u8>, exe: bool, size: nat, data: Seq<u8>, t: Seq<u8>) -> bool {
    exists|h: Seq<u8>| #[trigger] file_row(name, exe, size, h, dlen()) + nl() == t && hashes_of(c, size, data, h)
}

/// ceil_div is the number of blocks
pub proof fn lemma_ceil_is(n: nat, bs: nat)
    requires bs > 0
    ensures ceil_div(n, bs) * bs >= n, ceil_div(n, bs) > 0 ==> (ceil_div(n, bs) - 1) * bs < n
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, bs as int);
    let q = n / bs; let r = n % bs;
    assert(n == bs * q + r && 0 <= r < bs);
    assert(q * bs >= 0 && q * bs == bs * q) by (nonlinear_arith) requires q >= 0, bs > 0;
    let c = ceil_div(n, bs);
    if r == 0 { assert(c == q);
        assert((q - 1) * bs == q * bs - bs) by (nonlinear_arith);
    } else { assert(c == q + 1);
        assert((q + 1) * bs == q * bs + bs) by (nonlinear_arith);
    }
}
/// the digests of the blocks one by one
pub proof fn lemma_bh(a: crate::HashTypeEnum, data: Seq<u8>, bs: nat, n: nat, i: nat)
    requires i < n
    ensures block_hashes(a, data, bs, n).len() == n * dlen(),
        block_hashes(a, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, block_of(data, bs, i)),
    decreases n
{
    broadcast use crate::vp::ax_dg_len;
    lemma_bh_len(a, data, bs, (n - 1) as nat);
    lemma_bh_len(a, data, bs, n);
    let p = block_hashes(a, data, bs, (n - 1) as nat);
    let d = crate::vp::dg(a, block_of(data, bs, (n - 1) as nat));
    if i == n - 1 {
        assert((p + d).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) =~= d);
    } else {
        lemma_bh(a, data, bs, (n - 1) as nat, i);
        assert((p + d).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) =~= p.subrange((i * dlen()) as int, ((i + 1) * dlen()) as int));
    }
}
pub proof fn lemma_bh_len(a: crate::HashTypeEnum, data: Seq<u8>, bs: nat, n: nat)
    ensures block_hashes(a, data, bs, n).len() == n * dlen()
    decreases n
{
    broadcast use crate::vp::ax_dg_len;
    if n > 0 { lemma_bh_len(a, data, bs, (n - 1) as nat); }
}
pub proof fn lemma_bh_all(a: crate::HashTypeEnum, data: Seq<u8>, bs: nat, n: nat)
    ensures block_hashes(a, data, bs, n).len() == n * dlen(),
        forall|i: nat| i < n ==> block_hashes(a, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, #[trigger] block_of(data, bs, i)),
{
    lemma_bh_len(a, data, bs, n);
    assert forall|i: nat| i < n implies block_hashes(a, data, bs, n).subrange((i * dlen()) as int, ((i + 1) * dlen()) as int) == crate::vp::dg(a, #[trigger] block_of(data, bs, i)) by {
        lemma_bh(a, data, bs, n, i);
    }
}

/// the hash type that the first 32 bytes of an index name
pub open spec fn checksum_alg(s: Seq<u8>, a: crate::HashTypeEnum) -> bool {
    let n = alg_name(a);
    s.len() >= 32 && s.take(16) == signature() + sp() && s.skip(16).take(n.len() as int) == n && s[16 + n.len() as int] == 0x20u8
}
/// the digest in the last line of an index
pub open spec fn checksum(s: Seq<u8>) -> Option<Seq<u8>> {
    let d = s.subrange(s.len() - 65, s.len() - 1);
    if (exists|a: crate::HashTypeEnum| #[trigger] checksum_alg(s, a)) && s.len() >= 66 && s[s.len() - 66] == 0x0au8 && s[s.len() - 1] == 0x0au8 && all_hex(d) {
        Some(unhex(d))
    } else { None }
}

/// a string with the bytes of another is that string
pub proof fn lemma_str_is(l: &str)
    ensures forall|s: &str| #[trigger] s.b() == l.b() ==> s == l
{
    assert forall|s: &str| #[trigger] s.b() == l.b() implies s == l by {
        encode_utf8_decode_utf8(s@); encode_utf8_decode_utf8(l@);
        crate::vp::ax_str_ext(s, l);
    }
}
pub proof fn lemma_sig()
    ensures signature() + sp() == seq![68u8, 73u8, 82u8, 83u8, 73u8, 71u8, 78u8, 65u8, 84u8, 85u8, 82u8, 69u8, 46u8, 118u8, 49u8, 32u8]
{
    assert(signature() + sp() =~= seq![68u8, 73u8, 82u8, 83u8, 73u8, 71u8, 78u8, 65u8, 84u8, 85u8, 82u8, 69u8, 46u8, 118u8, 49u8, 32u8]);
}

pub proof fn lemma_alg_chars()
    ensures forall|a: crate::HashTypeEnum| 10 <= (#[trigger] alg_name(a)).len() <= 11,
        forall|a: crate::HashTypeEnum, j: int| 0 <= j < alg_name(a).len() ==> 0x20 < #[trigger] alg_name(a)[j] < 0x7f
{
}
pub proof fn lemma_checksum_alg(all: Seq<u8>)
    ensures forall|a: crate::HashTypeEnum| #[trigger] checksum_alg(all, a) ==> 10 <= alg_name(a).len() <= 11
        && alg_name(a) == all.take(32).subrange(16, 16 + alg_name(a).len() as int)
        && (forall|j: int| 0 <= j < alg_name(a).len() ==> 0x20 < #[trigger] all.take(32)[16 + j] < 0x7f) && all.take(32)[16 + alg_name(a).len() as int] == 0x20
{
    lemma_alg_chars();
    assert forall|a: crate::HashTypeEnum| #[trigger] checksum_alg(all, a) implies 10 <= alg_name(a).len() <= 11
        && alg_name(a) == all.take(32).subrange(16, 16 + alg_name(a).len() as int)
        && (forall|j: int| 0 <= j < alg_name(a).len() ==> 0x20 < #[trigger] all.take(32)[16 + j] < 0x7f) && all.take(32)[16 + alg_name(a).len() as int] == 0x20 by {
        let n = alg_name(a);
        assert(all.take(32).subrange(16, 16 + n.len() as int) =~= all.skip(16).take(n.len() as int));
        assert forall|j: int| 0 <= j < n.len() implies 0x20 < #[trigger] all.take(32)[16 + j] < 0x7f by {
            assert(all.take(32).subrange(16, 16 + n.len() as int)[j] == n[j]);
        }
    }
}

/// a whole index
pub open spec fn index_text(a: crate::HashTypeEnum, bs: nat, body: Seq<u8>) -> Seq<u8> {
    header_row(a, bs) + nl() + body + footer_row(a, body) + nl()
}
/// [P15] the checksum of an index is the digest in its footer
pub proof fn lemma_checksum_of_index(a: crate::HashTypeEnum, bs: nat, body: Seq<u8>)
    requires body.len() == 0 || body.last() == 0x0a
    ensures checksum(index_text(a, bs, body)) == Some(crate::vp::dg(a, body))
{
    broadcast use crate::vp::ax_dg_len;
    let s = index_text(a, bs, body);
    let h = header_row(a, bs);
    let f = footer_row(a, body);
    let n = alg_name(a).len() as int;
    lemma_dec(bs);
    lemma_alg_chars();
    lemma_hex_roundtrip(crate::vp::dg(a, body));
    assert(s.take(16) =~= signature() + sp());
    assert(s.skip(16).take(n) =~= alg_name(a));
    assert(s[16 + n] == 0x20u8);
    assert(s.len() == h.len() + 1 + body.len() + 65);
    assert(checksum_alg(s, a));
    assert(s.subrange(s.len() - 65, s.len() - 1) =~= f);
    if body.len() == 0 { assert(s[s.len() - 66] == nl()[0]); } else { assert(s[s.len() - 66] == body.last()); }
    assert(s[s.len() - 1] == 0x0au8);
}

// -------------------------------------------------------------------- header
/// Unicode white space
pub open spec fn is_ws(c: char) -> bool {
    let n = c as u32;
    (9 <= n && n <= 13) || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || (0x2000 <= n && n <= 0x200a)
        || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000
}
pub open spec fn ws_at(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 || is_ws(s[0]) { 0 } else { 1 + ws_at(s.skip(1)) }
}
/// the words of a text
pub open spec fn words(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len() via words_dec
{
    if s.len() == 0 { Seq::empty() }
    else if is_ws(s[0]) { words(s.skip(1)) }
    else { seq![s.take(ws_at(s))] + words(s.skip(ws_at(s))) }
}
#[via_fn]
proof fn words_dec(s: Seq<char>) { lemma_ws_at(s); }
pub proof fn lemma_ws_at(s: Seq<char>)
    ensures 0 <= ws_at(s) <= s.len(), forall|i: int| 0 <= i < ws_at(s) ==> !is_ws(s[i]), ws_at(s) < s.len() ==> is_ws(s[ws_at(s)]),
        s.len() > 0 && !is_ws(s[0]) ==> ws_at(s) > 0,
    decreases s.len()
{
    if s.len() == 0 || is_ws(s[0]) {} else {
        lemma_ws_at(s.skip(1));
        assert forall|i: int| 0 <= i < ws_at(s) implies !is_ws(s[i]) by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } }
    }
}
pub proof fn lemma_word(a: Seq<char>, rest: Seq<char>)
    requires a.len() > 0, forall|i: int| 0 <= i < a.len() ==> !is_ws(a[i])
    ensures words(a + seq![' '] + rest) == seq![a] + words(rest), words(a) == seq![a]
{
    let s = a + seq![' '] + rest;
    lemma_ws_at(s); lemma_ws_at(a);
    if ws_at(s) < a.len() { assert(s[ws_at(s)] == a[ws_at(s)]); }
    if ws_at(s) > a.len() { assert(s[a.len() as int] == ' '); assert(is_ws(' ')); }
    assert(s.take(a.len() as int) =~= a);
    assert(!is_ws(s[0])) by { assert(s[0] == a[0]); }
    let t = s.skip(a.len() as int);
    assert(t[0] == ' ' && is_ws(' '));
    assert(t.skip(1) =~= rest);
    assert(words(t) == words(rest));
    assert(a.take(a.len() as int) =~= a);
    assert(a.skip(a.len() as int) =~= Seq::<char>::empty());
    assert(words(Seq::<char>::empty()) =~= Seq::<Seq<char>>::empty());
    assert(words(a) =~= seq![a]);
}
/// what a header with these words says
pub open spec fn header_words(w: Seq<Seq<char>>, a: crate::HashTypeEnum, n: nat) -> bool {
    let kv = bs_key() + seq![0x3du8];
    &&& w.len() >= 3
    &&& encode_utf8(w[0]) == signature()
    &&& encode_utf8(w[1]) == alg_name(a)
    &&& encode_utf8(w[2]).len() >= kv.len() && encode_utf8(w[2]).take(kv.len() as int) == kv
    &&& parse_dec(encode_utf8(w[2]).skip(kv.len() as int)) == Some(n)
    &&& n > 0
}
/// a header line with these values
pub open spec fn is_header(row: Seq<u8>, a: crate::HashTypeEnum, n: nat) -> bool {
    exists|c: Seq<char>| #[trigger] encode_utf8(c) == row && header_words(words(c), a, n)
}
/// the text of ASCII bytes
pub open spec fn ascii(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
pub open spec fn is_ascii7(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 0x80 }
pub proof fn lemma_ascii(s: Seq<u8>)
    requires is_ascii7(s)
    ensures encode_utf8(ascii(s)) == s
{
    is_ascii_chars_encode_utf8(ascii(s));
    assert(encode_utf8(ascii(s)) =~= s);
}
/// three printable words make a line of these three words
proof fn lemma_three_words(w0: Seq<u8>, w1: Seq<u8>, w2: Seq<u8>, row: Seq<u8>)
    requires w0.len() > 0, w1.len() > 0, w2.len() > 0, row == w0 + sp() + w1 + sp() + w2,
        forall|i: int| 0 <= i < w0.len() ==> 0x20 < #[trigger] w0[i] < 0x7f,
        forall|i: int| 0 <= i < w1.len() ==> 0x20 < #[trigger] w1[i] < 0x7f,
        forall|i: int| 0 <= i < w2.len() ==> 0x20 < #[trigger] w2[i] < 0x7f,
    ensures encode_utf8(ascii(row)) == row, words(ascii(row)) == seq![ascii(w0), ascii(w1), ascii(w2)],
        encode_utf8(ascii(w0)) == w0, encode_utf8(ascii(w1)) == w1, encode_utf8(ascii(w2)) == w2,
{
    let c = ascii(row);
    assert(is_ascii7(row));
    lemma_ascii(w0); lemma_ascii(w1); lemma_ascii(w2); lemma_ascii(row);
    assert(c =~= ascii(w0) + seq![' '] + (ascii(w1) + seq![' '] + ascii(w2)));
    lemma_word(ascii(w0), ascii(w1) + seq![' '] + ascii(w2));
    lemma_word(ascii(w1), ascii(w2));
    lemma_word(ascii(w2), Seq::empty());
    assert(words(c) =~= seq![ascii(w0), ascii(w1), ascii(w2)]);
}
proof fn lemma_header_has(a: crate::HashTypeEnum, n: nat)
    requires 0 < n <= u64::MAX
    ensures encode_utf8(ascii(header_row(a, n))) == header_row(a, n), header_words(words(ascii(header_row(a, n))), a, n)
{
    let kv = bs_key() + seq![0x3du8];
    let row = header_row(a, n);
    lemma_dec_roundtrip(n);
    lemma_alg_chars();
    let w0 = signature(); let w1 = alg_name(a); let w2 = kv + dec(n);
    assert(row =~= w0 + sp() + w1 + sp() + w2);
    assert forall|i: int| 0 <= i < w2.len() implies 0x20 < #[trigger] w2[i] < 0x7f by {
        if i >= kv.len() { assert(is_dec(dec(n)[i - kv.len()])); }
    }
    lemma_three_words(w0, w1, w2, row);
    assert(w2.take(kv.len() as int) =~= kv);
    assert(w2.skip(kv.len() as int) =~= dec(n));
}
proof fn lemma_header_one(w: Seq<Seq<char>>, a: crate::HashTypeEnum, n: nat, b: crate::HashTypeEnum, m: nat)
    requires header_words(w, a, n), header_words(w, b, m)
    ensures a == b, m == n
{
    lemma_names_differ();
}
/// [P17] a header that a writer writes has the values it was written for, and no others
pub proof fn lemma_header_row(a: crate::HashTypeEnum, n: nat)
    requires 0 < n <= u64::MAX
    ensures is_header(header_row(a, n), a, n),
        forall|b: crate::HashTypeEnum, m: nat| is_header(header_row(a, n), b, m) ==> a == b && m == n
{
    let row = header_row(a, n);
    lemma_header_has(a, n);
    let c = ascii(row);
    assert forall|b: crate::HashTypeEnum, m: nat| is_header(row, b, m) implies a == b && m == n by {
        let d = choose|d: Seq<char>| #[trigger] encode_utf8(d) == row && header_words(words(d), b, m);
        encode_utf8_injective(c, d);
        lemma_header_one(words(c), a, n, b, m);
    }
}
pub proof fn encode_utf8_injective(c: Seq<char>, d: Seq<char>)
    requires encode_utf8(c) == encode_utf8(d)
    ensures c == d
{
    encode_utf8_decode_utf8(c); encode_utf8_decode_utf8(d);
}

/// k is the first place of a byte, or the end
pub open spec fn split_at(s: Seq<u8>, c: u8, k: int) -> bool {
    0 <= k <= s.len() && (forall|i: int| 0 <= i < k ==> #[trigger] s[i] != c) && (k < s.len() ==> s[k] == c)
}
/// splitting at the first dot tells the signature
pub proof fn lemma_sig_split(b: Seq<u8>)
    ensures forall|k: int| #[trigger] split_at(b, 0x2e, k) ==>
        (b == signature() <==> b.take(k) == "DIRSIGNATURE".b() && k < b.len() && b.skip(k + 1) == "v1".b())
{
    lemma_names();
    let m = "DIRSIGNATURE".b(); let v = "v1".b();
    lemma_magic();
    assert forall|k: int| #[trigger] split_at(b, 0x2e, k) implies
        (b == signature() <==> b.take(k) == m && k < b.len() && b.skip(k + 1) == v) by {
        if b == signature() {
            let sg = signature();
            assert(sg.len() == 15 && sg[12] == 0x2e);
            assert forall|i: int| 0 <= i < 12 implies #[trigger] sg[i] != 0x2e by { assert(m[i] == sg[i]); }
            assert(k == 12);
        }
        if b.take(k) == m && k < b.len() && b.skip(k + 1) == v {
            assert(m.len() == 12);
            assert(k == 12);
            assert(b =~= b.take(k) + seq![0x2eu8] + b.skip(k + 1));
            assert(signature() =~= m + seq![0x2eu8] + v);
        }
    }
}
pub proof fn lemma_magic()
    ensures "DIRSIGNATURE".b() == signature().take(12), "v1".b() == signature().skip(13),
{
    reveal_strlit("DIRSIGNATURE"); is_ascii_chars_encode_utf8("DIRSIGNATURE"@);
    reveal_strlit("v1"); is_ascii_chars_encode_utf8("v1"@);
    assert("DIRSIGNATURE".b() =~= signature().take(12));
    assert("v1".b() =~= signature().skip(13));
}
pub proof fn lemma_kv_split(b: Seq<u8>)
    ensures forall|k: int| #[trigger] split_at(b, 0x3d, k) ==> {
        let kv = bs_key() + seq![0x3du8];
        &&& kv.len() == 11
        &&& ((b.len() >= 11 && b.take(11) == kv) <==> (b.take(k) == bs_key() && k < b.len()))
        &&& (b.take(k) == bs_key() && k < b.len() ==> k == 10)
    }
{
    let kv = bs_key() + seq![0x3du8];
    assert forall|k: int| #[trigger] split_at(b, 0x3d, k) implies
        ((b.len() >= 11 && b.take(11) == kv) <==> (b.take(k) == bs_key() && k < b.len())) && (b.take(k) == bs_key() && k < b.len() ==> k == 10) by {
        if b.len() >= 11 && b.take(11) == kv {
            assert forall|i: int| 0 <= i < 11 implies b[i] == kv[i] by { assert(b[i] == b.take(11)[i]); }
            if k < 10 { assert(b[k] == kv[k] && kv[k] != 0x3d); }
            assert(b[10] == 0x3d);
            assert(b.take(10) =~= bs_key());
        }
        if b.take(k) == bs_key() && k < b.len() {
            assert(k == 10);
            assert(b.take(11) =~= kv) by { assert(b.take(11) =~= b.take(10).push(b[10])); }
        }
    }
}

// ------------------------------------------------------- emitted and read back
/// an entry handed to a writer of an index
pub ghost enum Call {
    Dir(Seq<u8>),
    File { name: Seq<u8>, exe: bool, size: nat, hashes: Seq<u8> },
    Link { name: Seq<u8>, dest: Seq<u8> },
}
pub open spec fn call_ok(c: Call, dir: Seq<u8>, bs: nat) -> bool {
    match c {
        Call::Dir(p) => is_abs(p),
        Call::File { name, exe, size, hashes } => is_name(name) && is_abs(dir) && size <= u64::MAX && hashes.len() == ceil_div(size, bs) * dlen(),
        Call::Link { name, dest } => is_name(name) && is_abs(dir),
    }
}
pub open spec fn call_row(c: Call) -> Seq<u8> {
    match c {
        Call::Dir(p) => dir_row(p),
        Call::File { name, exe, size, hashes } => file_row(name, exe, size, hashes, dlen()),
        Call::Link { name, dest } => link_row(name, dest),
    }
}
pub open spec fn call_ent(c: Call, dir: Seq<u8>) -> Ent {
    match c {
        Call::Dir(p) => Ent::Dir(p),
        Call::File { name, exe, size, hashes } => Ent::File { path: join(dir, name), exe, size, hashes },
        Call::Link { name, dest } => Ent::Link(join(dir, name), dest),
    }
}
pub open spec fn call_dir(c: Call, dir: Seq<u8>) -> Seq<u8> { if c is Dir { c->Dir_0 } else { dir } }
pub open spec fn calls_ok(cs: Seq<Call>, dir: Seq<u8>, bs: nat) -> bool
    decreases cs.len()
{
    cs.len() == 0 || (call_ok(cs[0], dir, bs) && calls_ok(cs.skip(1), call_dir(cs[0], dir), bs))
}
pub open spec fn calls_text(cs: Seq<Call>) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { call_row(cs[0]) + nl() + calls_text(cs.skip(1)) }
}
pub open spec fn calls_ents(cs: Seq<Call>, dir: Seq<u8>) -> Seq<Ent>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { seq![call_ent(cs[0], dir)] + calls_ents(cs.skip(1), call_dir(cs[0], dir)) }
}
/// all entries of an index, when it is valid to its end
pub open spec fn entries(s: It, dl: nat, bs: nat) -> Option<Seq<Ent>>
    decreases measure(s) via entries_dec
{
    let (r, t) = step(s, dl, bs);
    match r {
        Step::Err => None,
        Step::End => Some(Seq::empty()),
        Step::Ent(e) => match entries(clear(t), dl, bs) { None => None, Some(v) => Some(seq![e] + v) },
    }
}
#[via_fn]
proof fn entries_dec(s: It, dl: nat, bs: nat) { lemma_step_measure(s, dl, bs); }
pub open spec fn no_nl(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x0a }

pub proof fn lemma_dir_row(p: Seq<u8>, dir: Seq<u8>, bs: nat)
    requires is_abs(p)
    ensures parse_row(dir_row(p), dir, dlen(), bs) == Some(Some(Ent::Dir(p))), dir_row(p).len() > 0, no_nl(dir_row(p))
{
    let e = escape(p);
    lemma_escape_graphic(p); lemma_escape_roundtrip(p); lemma_escape_nonempty(p);
    assert(e[0] == esc1(p[0])[0]);
    lemma_field_of(e, Seq::empty());
}
pub proof fn lemma_hashes_row(h: Seq<u8>, n: nat)
    requires h.len() == n * dlen()
    ensures no_nl(hashes_text(h, dlen())),
        n == 0 ==> hashes_text(h, dlen()) == Seq::<u8>::empty(),
        n > 0 ==> hashes_text(h, dlen()).len() > 1 && hashes_text(h, dlen())[0] == 0x20,
        parse_hashes_spec(if n == 0 { Seq::empty() } else { hashes_text(h, dlen()).skip(1) }, dlen(), n) == Some((h, Seq::<u8>::empty()))
    decreases n
{
    if n == 0 {
        assert(h =~= Seq::<u8>::empty());
    } else {
        let d = h.take(dlen() as int);
        let r = h.skip(dlen() as int);
        let x = hex(d);
        let t = hashes_text(r, dlen());
        lemma_hashes_row(r, (n - 1) as nat);
        lemma_hex_roundtrip(d);
        assert forall|i: int| 0 <= i < x.len() implies x[i] != 0x20 && #[trigger] x[i] != 0x0a by { assert(is_hexd(x[i])); }
        assert(hashes_text(h, dlen()) == sp() + x + t);
        let s = hashes_text(h, dlen()).skip(1);
        let rest = if n == 1 { Seq::empty() } else { t.skip(1) };
        lemma_field_of(x, rest);
        if n == 1 { assert(s =~= x); } else { assert(s =~= x + seq![0x20u8] + rest); }
        assert(d + r =~= h);
        assert(field(s) == x && field_tail(s) == rest && field_ok(s));
    }
}
pub proof fn lemma_file_row(name: Seq<u8>, exe: bool, size: nat, hashes: Seq<u8>, dir: Seq<u8>, bs: nat)
    requires is_name(name), is_abs(dir), size <= u64::MAX, hashes.len() == ceil_div(size, bs) * dlen()
    ensures parse_row(file_row(name, exe, size, hashes, dlen()), dir, dlen(), bs) == Some(Some(Ent::File { path: join(dir, name), exe, size, hashes })),
        file_row(name, exe, size, hashes, dlen()).len() > 0, no_nl(file_row(name, exe, size, hashes, dlen()))
{
    let row = file_row(name, exe, size, hashes, dlen());
    let n = ceil_div(size, bs);
    let e = escape(name);
    lemma_escape_graphic(name); lemma_escape_roundtrip(name); lemma_escape_nonempty(name);
    lemma_dec_roundtrip(size);
    lemma_hashes_row(hashes, n);
    let ht = hashes_text(hashes, dlen());
    let k = if exe { seq![0x78u8] } else { seq![0x66u8] };
    let d = dec(size);
    assert forall|i: int| 0 <= i < d.len() implies d[i] != 0x20 && #[trigger] d[i] != 0x0a by { assert(is_dec(d[i])); }
    let r3 = d + ht;
    let r2 = k + seq![0x20u8] + r3;
    let r1 = e + seq![0x20u8] + r2;
    assert(row =~= sp2() + r1);
    assert(row.skip(2) =~= r1);
    lemma_field_of(e, r2);
    lemma_field_of(k, r3);
    let t = if n == 0 { Seq::empty() } else { ht.skip(1) };
    lemma_field_of(d, t);
    if n == 0 { assert(r3 =~= d); } else { assert(r3 =~= d + seq![0x20u8] + t); }
    assert(row[0] == 0x20 && row[1] == 0x20);
    assert(is1(k, 0x78) == exe);
    assert(no_nl(e) && no_nl(d));
    assert(row =~= sp2() + e + sp() + k + sp() + d + ht);
}
pub proof fn lemma_link_row(name: Seq<u8>, dest: Seq<u8>, dir: Seq<u8>, bs: nat)
    requires is_name(name), is_abs(dir)
    ensures parse_row(link_row(name, dest), dir, dlen(), bs) == Some(Some(Ent::Link(join(dir, name), dest))),
        link_row(name, dest).len() > 0, no_nl(link_row(name, dest))
{
    let row = link_row(name, dest);
    let e = escape(name); let d = escape(dest);
    lemma_escape_graphic(name); lemma_escape_roundtrip(name); lemma_escape_nonempty(name);
    lemma_escape_graphic(dest); lemma_escape_roundtrip(dest);
    let k = seq![0x73u8];
    let r2 = k + seq![0x20u8] + d;
    let r1 = e + seq![0x20u8] + r2;
    assert(row =~= sp2() + r1);
    assert(row.skip(2) =~= r1);
    lemma_field_of(e, r2);
    lemma_field_of(k, d);
    lemma_field_of(d, Seq::empty());
    assert(row[0] == 0x20 && row[1] == 0x20);
    assert(no_nl(e) && no_nl(d));
}
/// one emitted row is read back as the entry it was written for
pub proof fn lemma_call_row(c: Call, dir: Seq<u8>, bs: nat)
    requires call_ok(c, dir, bs)
    ensures parse_row(call_row(c), dir, dlen(), bs) == Some(Some(call_ent(c, dir))), call_row(c).len() > 0, no_nl(call_row(c))
{
    match c {
        Call::Dir(p) => lemma_dir_row(p, dir, bs),
        Call::File { name, exe, size, hashes } => lemma_file_row(name, exe, size, hashes, dir, bs),
        Call::Link { name, dest } => lemma_link_row(name, dest, dir, bs),
    }
}
pub proof fn lemma_line(row: Seq<u8>, rest: Seq<u8>)
    requires no_nl(row)
    ensures first_line(row + nl() + rest) == Some(row), (row + nl() + rest).skip(row.len() as int + 1) == rest
{
    let s = row + nl() + rest;
    lemma_line_len(s, 0x0a);
    let n = line_len(s, 0x0a);
    assert(s[row.len() as int] == 0x0a);
    if n - 1 < row.len() { assert(n > 0); assert(s[n - 1] == row[n - 1]); assert(s[n - 1] == 0x0a || n == s.len()); }
    if n - 1 > row.len() { assert(s[row.len() as int] != 0x0a); }
    assert(s.take(n - 1) =~= row);
    assert(s.skip(row.len() as int + 1) =~= rest);
}
pub proof fn lemma_footer(d: Seq<u8>, dir: Seq<u8>, bs: nat)
    requires d.len() == dlen()
    ensures parse_row(hex(d), dir, dlen(), bs) == Some(None::<Ent>), parse_footer(hex(d), dlen()) == Some(d), no_nl(hex(d)), hex(d).len() == 64
{
    lemma_hex_roundtrip(d);
    let x = hex(d);
    assert forall|i: int| 0 <= i < x.len() implies x[i] != 0x20 && #[trigger] x[i] != 0x0a && x[i] != 0x2f by { assert(is_hexd(x[i])); }
    lemma_field_of(x, Seq::empty());
    assert(parse_hashes_spec(field_tail(x), dlen(), 0) == Some((Seq::<u8>::empty(), Seq::<u8>::empty())));
    assert(unhex(x) + Seq::<u8>::empty() =~= d);
    assert(parse_hashes_spec(x, dlen(), 1) == Some((d, Seq::<u8>::empty())));
}
/// [P02] what is emitted is read back: all entries, then the end
pub proof fn lemma_read_back(cs: Seq<Call>, dir: Seq<u8>, d: Seq<u8>, bs: nat)
    requires calls_ok(cs, dir, bs), d.len() == dlen()
    ensures entries(It { data: calls_text(cs) + hex(d) + nl(), row: Seq::empty(), dir, ended: false, lost: false }, dlen(), bs) == Some(calls_ents(cs, dir))
    decreases cs.len()
{
    let s = It { data: calls_text(cs) + hex(d) + nl(), row: Seq::empty(), dir, ended: false, lost: false };
    if cs.len() == 0 {
        lemma_footer(d, dir, bs);
        assert(s.data =~= hex(d) + nl() + Seq::<u8>::empty());
        lemma_line(hex(d), Seq::empty());
        assert(step(s, dlen(), bs).0 is End);
    } else {
        let row = call_row(cs[0]);
        let rest = calls_text(cs.skip(1)) + hex(d) + nl();
        lemma_call_row(cs[0], dir, bs);
        assert(s.data =~= row + nl() + rest);
        lemma_line(row, rest);
        let t = It { data: rest, row: Seq::empty(), dir: call_dir(cs[0], dir), ended: false, lost: false };
        assert(step(s, dlen(), bs).0 == Step::Ent(call_ent(cs[0], dir)));
        assert(clear(step(s, dlen(), bs).1) == t);
        lemma_read_back(cs.skip(1), call_dir(cs[0], dir), d, bs);
    }
}
/// the text grows by a row with every entry that is written
pub proof fn lemma_calls_push(cs: Seq<Call>, c: Call)
    ensures calls_text(cs.push(c)) == calls_text(cs) + call_row(c) + nl()
    decreases cs.len()
{
    if cs.len() == 0 {
        assert(cs.push(c).skip(1) =~= Seq::<Call>::empty());
        assert(calls_text(cs.push(c).skip(1)) =~= Seq::<u8>::empty());
        assert(calls_text(cs.push(c)) =~= calls_text(cs) + call_row(c) + nl());
    } else {
        assert(cs.push(c).skip(1) =~= cs.skip(1).push(c));
        lemma_calls_push(cs.skip(1), c);
        assert(calls_text(cs.push(c)) =~= calls_text(cs) + call_row(c) + nl());
    }
}
/// [P02] a whole emitted index has the header, the rows and nothing else, and is read back
pub proof fn lemma_emitted_index(a: crate::HashTypeEnum, bs: nat, cs: Seq<Call>)
    requires calls_ok(cs, Seq::empty(), bs), 0 < bs <= u64::MAX
    ensures ({
        let t = index_text(a, bs, calls_text(cs));
        &&& first_line(t) == Some(header_row(a, bs))
        &&& is_header(header_row(a, bs), a, bs)
        &&& forall|b: crate::HashTypeEnum, m: nat| is_header(header_row(a, bs), b, m) ==> a == b && m == bs
        &&& entries(It { data: t.skip(header_row(a, bs).len() as int + 1), row: Seq::empty(), dir: Seq::empty(), ended: false, lost: false }, dlen(), bs)
            == Some(calls_ents(cs, Seq::empty()))
    })
{
    broadcast use crate::vp::ax_dg_len;
    let body = calls_text(cs);
    let h = header_row(a, bs);
    lemma_header_row(a, bs);
    lemma_header_no_nl(a, bs);
    lemma_line(h, body + footer_row(a, body) + nl());
    assert(index_text(a, bs, body) =~= h + nl() + (body + footer_row(a, body) + nl()));
    lemma_read_back(cs, Seq::empty(), crate::vp::dg(a, body), bs);
}
pub proof fn lemma_header_no_nl(a: crate::HashTypeEnum, bs: nat)
    ensures no_nl(header_row(a, bs))
{
    lemma_dec(bs);
    lemma_alg_chars();
    let h = header_row(a, bs);
    let n = alg_name(a).len();
    assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] != 0x0a by {
        if i < 15 {} else if i == 15 {} else if i < 16 + n { assert(h[i] == alg_name(a)[i - 16]); }
        else if i < 28 + n {} else { assert(h[i] == dec(bs)[i - 28 - n]); assert(is_dec(dec(bs)[i - 28 - n])); }
    }
}

// ---------------------------------------------------------------------- merging
/// the state of an iterator at the beginning of the rows
pub open spec fn index_start(data: Seq<u8>) -> It { It { data, row: Seq::empty(), dir: Seq::empty(), ended: false, lost: false } }
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
/// a set of indexes below `n`, in ascending order
pub open spec fn is_sub(ixs: Seq<int>, n: int) -> bool {
    (forall|j: int| 0 <= j < ixs.len() ==> 0 <= #[trigger] ixs[j] < n) && (forall|i: int, j: int| 0 <= i < j < ixs.len() ==> ixs[i] < ixs[j])
}

pub proof fn lemma_sub_push(v: Seq<usize>, n: int, ix: usize)
    requires is_sub(ints(v), n), ix == n
    ensures is_sub(ints(v.push(ix)), n + 1), is_sub(ints(v), n + 1), ints(v.push(ix)) == ints(v).push(n), !ints(v).contains(n),
        is_sub(ints(seq![ix]), n + 1), ints(seq![ix]).contains(n), ints(v.push(ix)).contains(n), !ints(v).contains(n),
        forall|x: int| #[trigger] ints(seq![ix]).contains(x) <==> x == n,
        forall|x: int| #[trigger] ints(v.push(ix)).contains(x) <==> ints(v).contains(x) || x == n,
{
    let p = v.push(ix);
    assert(ints(p) =~= ints(v).push(n));
    assert(ints(p)[v.len() as int] == n);
    assert(ints(seq![ix])[0] == n);
    assert forall|x: int| #[trigger] ints(p).contains(x) <==> ints(v).contains(x) || x == n by {
        if ints(v).contains(x) {
            let j = choose|j: int| 0 <= j < v.len() && ints(v)[j] == x;
            assert(ints(p)[j] == x);
        }
    }
}
/// what is smaller than the smallest is smaller than all
pub proof fn lemma_kcmp_min(a: Key, m: Key, b: Key)
    requires key_ok(a), key_ok(m), key_ok(b)
    ensures kcmp(a, m) == Ordering::Less && (m == b || kcmp(m, b) == Ordering::Less) ==> kcmp(a, b) == Ordering::Less,
        kcmp(a, m) == Ordering::Equal <==> a == m, kcmp(a, m) == Ordering::Greater ==> kcmp(m, a) == Ordering::Less
{
    lemma_kcmp(a, m);
    lemma_kcmp(m, b);
    lemma_kcmp_trans(a, m, b);
}

/// a step that leaves its row in the buffer can be repeated
pub proof fn lemma_step_again(s: It, dl: nat, bs: nat)
    ensures step(s, dl, bs).0 is Ent ==> step(step(s, dl, bs).1, dl, bs) == step(s, dl, bs), step(s, dl, bs).0 is End ==> step(s, dl, bs).1.ended
{
    lemma_first_line(s.data);
}
/// the first of the entries that is not smaller than `k`
pub open spec fn from_key(es: Seq<Ent>, k: Key) -> Seq<Ent>
    decreases es.len()
{
    if es.len() > 0 && kcmp(ent_key(es[0]), k) == Ordering::Less { from_key(es.skip(1), k) } else { es }
}
/// [P07] Seeking in a valid index consumes the entries smaller than the one sought, and that one if it is there.
pub proof fn lemma_seek_entries(s: It, k: Key, dl: nat, bs: nat)
    requires entries(s, dl, bs) is Some
    ensures ({
        let es = from_key(entries(s, dl, bs)->0, k);
        let (r, t) = seek(s, k, dl, bs);
        if es.len() > 0 && kcmp(ent_key(es[0]), k) == Ordering::Equal { r == Seek::Found(es[0]) && entries(t, dl, bs) == Some(es.skip(1)) }
        else { r == Seek::Missing && entries(t, dl, bs) == Some(es) }
    })
    decreases measure(s)
{
    lemma_step_measure(s, dl, bs);
    lemma_step_again(s, dl, bs);
    let (r, t) = step(s, dl, bs);
    if let Step::Ent(e) = r {
        let v = entries(clear(t), dl, bs)->0;
        let es = entries(s, dl, bs)->0;
        assert(es == seq![e] + v);
        assert(es.skip(1) =~= v);
        if kcmp(ent_key(e), k) == Ordering::Less { lemma_seek_entries(clear(t), k, dl, bs); }
    }
}
/// no entry smaller than `k` is left, and the one sought is the first if it is there and the entries are in order
pub proof fn lemma_from_key(es: Seq<Ent>, k: Key)
    requires forall|i: int| 0 <= i < es.len() ==> key_ok(ent_key(#[trigger] es[i])), key_ok(k)
    ensures ({
        let n = es.len() - from_key(es, k).len();
        &&& 0 <= n && from_key(es, k) == es.skip(n)
        &&& forall|i: int| 0 <= i < n ==> kcmp(ent_key(#[trigger] es[i]), k) == Ordering::Less
        &&& sorted(es) ==> forall|i: int| 0 <= i < es.len() ==> (i < n <==> kcmp(ent_key(#[trigger] es[i]), k) == Ordering::Less)
    })
    decreases es.len()
{
    if es.len() > 0 && kcmp(ent_key(es[0]), k) == Ordering::Less {
        let t = es.skip(1);
        lemma_from_key(t, k);
        assert forall|i: int| 0 <= i < es.len() - from_key(es, k).len() implies kcmp(ent_key(#[trigger] es[i]), k) == Ordering::Less by { if i > 0 { assert(es[i] == t[i - 1]); } }
        assert(t.skip(t.len() - from_key(es, k).len()) =~= es.skip(es.len() - from_key(es, k).len()));
        if sorted(es) {
            assert(sorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies kcmp(ent_key(#[trigger] t[i]), ent_key(#[trigger] t[j])) == Ordering::Less by { assert(t[i] == es[i + 1] && t[j] == es[j + 1]); } }
            assert forall|i: int| 0 <= i < es.len() implies (i < es.len() - from_key(es, k).len() <==> kcmp(ent_key(#[trigger] es[i]), k) == Ordering::Less) by { if i > 0 { assert(es[i] == t[i - 1]); } }
        }
    } else {
        assert(es.skip(0) =~= es);
        if sorted(es) {
            assert forall|i: int| 0 <= i < es.len() implies kcmp(ent_key(#[trigger] es[i]), k) != Ordering::Less by {
                if i > 0 { assert(kcmp(ent_key(es[0]), ent_key(es[i])) == Ordering::Less); lemma_kcmp(ent_key(es[0]), k); lemma_kcmp_trans(ent_key(es[0]), ent_key(es[i]), k); }
            }
        }
    }
}
/// the entries are strictly ascending
pub open spec fn sorted(es: Seq<Ent>) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> kcmp(ent_key(#[trigger] es[i]), ent_key(#[trigger] es[j])) == Ordering::Less }

// ------------------------------------------------------------------ scanning
/// a name met in a directory: a file, a symlink or a subdirectory
pub ghost struct Item { pub d: openat::Dir, pub name: Seq<u8>, pub link: bool }
/// a directory of the index: its path, and the directories that are shown there
pub ghost struct Node { pub path: Seq<u8>, pub dirs: Seq<openat::Dir> }
/// what the scan does at one directory
pub ghost struct Visit { pub path: Seq<u8>, pub items: Seq<Item>, pub rows: Seq<Seq<u8>>, pub children: Seq<Node> }

pub open spec fn is_dot(n: Seq<u8>) -> bool { n.len() == 1 && n[0] == 0x2e }
/// the directory that a name stands for in a directory
pub open spec fn sub_of(d: &openat::Dir, name: Seq<u8>) -> openat::Dir { if is_dot(name) { *d } else { crate::vp::fs_sub(d, name) } }
pub open spec fn wanted(k: openat::SimpleType, sub: bool) -> bool {
    if sub { k == openat::SimpleType::Dir } else { k == openat::SimpleType::File || k == openat::SimpleType::Symlink }
}
/// what the name is in the directory: itself when it is of the wanted kind, or nothing
pub open spec fn item_in(d: openat::Dir, k: Seq<u8>, sub: bool) -> Seq<Item> {
    if crate::vp::fs_has(&d, k) && wanted(crate::vp::fs_kind(&d, k), sub) {
        seq![Item { d, name: k, link: crate::vp::fs_kind(&d, k) == openat::SimpleType::Symlink }]
    } else { Seq::empty() }
}
/// what has the name in the directories, in their order
pub open spec fn named_in(ds: Seq<openat::Dir>, k: Seq<u8>, sub: bool) -> Seq<Item>
    decreases ds.len()
{
    if ds.len() == 0 { Seq::empty() } else { named_in(ds.drop_last(), k, sub) + item_in(ds.last(), k, sub) }
}
/// the items of the name, in their order
pub open spec fn of_name(s: Seq<Item>, k: Seq<u8>) -> Seq<Item>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last().name == k { of_name(s.drop_last(), k).push(s.last()) }
    else { of_name(s.drop_last(), k) }
}
/// exactly the items of the directories, the ones of one name in the order of the directories
#[verifier::opaque]
pub open spec fn collected(s: Seq<Item>, ds: Seq<openat::Dir>, sub: bool) -> bool {
    forall|k: Seq<u8>| #[trigger] of_name(s, k) == named_in(ds, k, sub)
}
/// .. and of those names of one more directory
#[verifier::opaque]
pub open spec fn collecting(s: Seq<Item>, ds: Seq<openat::Dir>, d: openat::Dir, seen: Seq<Seq<u8>>, sub: bool) -> bool {
    forall|k: Seq<u8>| #[trigger] of_name(s, k) == named_in(ds, k, sub) + (if seen.contains(k) { item_in(d, k, sub) } else { Seq::empty() })
}
pub open spec fn ascending(s: Seq<Item>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> bcmp(#[trigger] s[i].name, #[trigger] s[j].name) != Ordering::Greater
}
pub open spec fn descending(s: Seq<Item>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> bcmp(#[trigger] s[i].name, #[trigger] s[j].name) != Ordering::Less
}
/// the directories that the items stand for
pub open spec fn subs(s: Seq<Item>) -> Seq<openat::Dir> { Seq::new(s.len(), |i: int| sub_of(&s[i].d, s[i].name)) }
pub open spec fn child(nd: Node, k: Seq<u8>) -> Node { Node { path: join(nd.path, k), dirs: subs(named_in(nd.dirs, k, true)) } }
pub open spec fn names_ascend(names: Seq<Seq<u8>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < names.len() ==> bcmp(#[trigger] names[i], #[trigger] names[j]) == Ordering::Less
}
pub open spec fn children_named(nd: Node, cs: Seq<Node>, names: Seq<Seq<u8>>) -> bool {
    &&& names.len() == cs.len()
    &&& names_ascend(names)
    &&& forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == child(nd, names[i])
    &&& forall|k: Seq<u8>| (#[trigger] named_in(nd.dirs, k, true)).len() > 0 <==> names.contains(k)
}
/// the subdirectories by the order of their names, each name once
pub open spec fn is_children(nd: Node, cs: Seq<Node>) -> bool {
    exists|names: Seq<Seq<u8>>| #[trigger] children_named(nd, cs, names)
}
pub open spec fn is_item_row(c: Cfg, f: Item, t: Seq<u8>) -> bool {
    if f.link { t == link_row(f.name, crate::vp::fs_link(&f.d, f.name)) + nl() }
    else { is_file_row(c, f.name, is_exe(crate::vp::fs_mode(&f.d, f.name)), crate::vp::fs_size(&f.d, f.name), crate::vp::fs_data(&f.d, f.name), t) }
}
pub open spec fn are_rows(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>) -> bool {
    items.len() == rows.len() && forall|i: int| 0 <= i < items.len() ==> is_item_row(c, items[i], #[trigger] rows[i])
}
/// the files and symlinks of a directory by the order of their names, one row each; then its subdirectories
pub open spec fn visit_ok(c: Cfg, nd: Node, v: Visit) -> bool {
    v.path == nd.path && collected(v.items, nd.dirs, false) && ascending(v.items) && are_rows(c, v.items, v.rows) && is_children(nd, v.children)
}
pub open spec fn cat(rows: Seq<Seq<u8>>) -> Seq<u8>
    decreases rows.len()
{
    if rows.len() == 0 { Seq::empty() } else { cat(rows.drop_last()) + rows.last() }
}
pub open spec fn visit_text(v: Visit) -> Seq<u8> { dir_row(v.path) + nl() + cat(v.rows) }
pub open spec fn walk_text(vs: Seq<Visit>) -> Seq<u8>
    decreases vs.len()
{
    if vs.len() == 0 { Seq::empty() } else { walk_text(vs.drop_last()) + visit_text(vs.last()) }
}
/// the visits of the directories of the queue and of everything below them, depth first
pub open spec fn walks(c: Cfg, q: Seq<Node>, vs: Seq<Visit>) -> bool
    decreases vs.len()
{
    if q.len() == 0 { vs.len() == 0 }
    else { vs.len() > 0 && visit_ok(c, q[0], vs[0]) && walks(c, vs[0].children + q.skip(1), vs.skip(1)) }
}
/// the visits made so far lead from the queue `root` to the queue `q`
#[verifier::opaque]
pub open spec fn leads(c: Cfg, root: Seq<Node>, done: Seq<Visit>, q: Seq<Node>) -> bool {
    forall|vs: Seq<Visit>| #[trigger] walks(c, q, vs) ==> walks(c, root, done + vs)
}
pub open spec fn abs_nodes(q: Seq<Node>) -> bool { forall|i: int| 0 <= i < q.len() ==> is_abs(#[trigger] q[i].path) }

pub proof fn lemma_leads_start(c: Cfg, root: Seq<Node>)
    ensures leads(c, root, Seq::empty(), root)
{
    reveal(leads);
    assert forall|vs: Seq<Visit>| #[trigger] walks(c, root, vs) implies walks(c, root, Seq::<Visit>::empty() + vs) by {
        assert(Seq::<Visit>::empty() + vs =~= vs);
    }
}
pub proof fn lemma_leads_step(c: Cfg, root: Seq<Node>, done: Seq<Visit>, q: Seq<Node>, v: Visit)
    requires leads(c, root, done, q), q.len() > 0, visit_ok(c, q[0], v)
    ensures leads(c, root, done.push(v), v.children + q.skip(1)), walk_text(done.push(v)) == walk_text(done) + visit_text(v)
{
    reveal(leads);
    assert(done.push(v).drop_last() =~= done);
    assert forall|vs: Seq<Visit>| #[trigger] walks(c, v.children + q.skip(1), vs) implies walks(c, root, done.push(v) + vs) by {
        let ws = seq![v] + vs;
        assert(ws[0] == v);
        assert(ws.skip(1) =~= vs);
        assert(walks(c, q, ws));
        assert(done + ws =~= done.push(v) + vs);
    }
}
pub proof fn lemma_leads_end(c: Cfg, root: Seq<Node>, done: Seq<Visit>, q: Seq<Node>)
    requires leads(c, root, done, q), q.len() == 0
    ensures walks(c, root, done)
{
    reveal(leads);
    assert(walks(c, q, Seq::<Visit>::empty()));
    assert(done + Seq::<Visit>::empty() =~= done);
}
/// rows of names longest by one
pub proof fn lemma_cat_push(rows: Seq<Seq<u8>>, r: Seq<u8>)
    ensures cat(rows.push(r)) == cat(rows) + r
{
    assert(rows.push(r).drop_last() =~= rows);
}
// ---- collecting
pub proof fn lemma_of_name_push(s: Seq<Item>, x: Item, k: Seq<u8>)
    ensures of_name(s.push(x), k) == (if x.name == k { of_name(s, k).push(x) } else { of_name(s, k) })
{
    assert(s.push(x).drop_last() =~= s);
}
pub proof fn lemma_collect_none(sub: bool)
    ensures collected(Seq::empty(), Seq::empty(), sub)
{
    reveal(collected);
}
pub proof fn lemma_collect_begin(s: Seq<Item>, ds: Seq<openat::Dir>, d: openat::Dir, sub: bool)
    requires collected(s, ds, sub)
    ensures collecting(s, ds, d, Seq::empty(), sub)
{
    reveal(collected); reveal(collecting);
    assert forall|k: Seq<u8>| #[trigger] of_name(s, k) == named_in(ds, k, sub) + (if Seq::<Seq<u8>>::empty().contains(k) { item_in(d, k, sub) } else { Seq::empty() }) by {
        assert(named_in(ds, k, sub) + Seq::<Item>::empty() =~= named_in(ds, k, sub));
    }
}
pub proof fn lemma_push_has(s: Seq<Seq<u8>>, n: Seq<u8>, k: Seq<u8>)
    ensures s.push(n).contains(k) <==> s.contains(k) || k == n
{
    if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; assert(s.push(n)[i] == k); }
    assert(s.push(n)[s.len() as int] == n);
}
/// one more name of the directory, of the wanted kind or not
pub proof fn lemma_collect_step(s: Seq<Item>, ds: Seq<openat::Dir>, d: openat::Dir, seen: Seq<Seq<u8>>, sub: bool, n: Seq<u8>)
    requires collecting(s, ds, d, seen, sub), !seen.contains(n), crate::vp::fs_has(&d, n)
    ensures collecting(s + item_in(d, n, sub), ds, d, seen.push(n), sub)
{
    reveal(collecting);
    let x = item_in(d, n, sub);
    assert forall|k: Seq<u8>| #[trigger] of_name(s + x, k) == named_in(ds, k, sub) + (if seen.push(n).contains(k) { item_in(d, k, sub) } else { Seq::empty() }) by {
        lemma_push_has(seen, n, k);
        let old = named_in(ds, k, sub) + (if seen.contains(k) { item_in(d, k, sub) } else { Seq::empty() });
        assert(of_name(s, k) == old);
        if x.len() == 0 {
            assert(s + x =~= s);
            if k == n { assert(named_in(ds, k, sub) + Seq::<Item>::empty() =~= named_in(ds, k, sub)); }
        } else {
            assert(s + x =~= s.push(x[0]));
            lemma_of_name_push(s, x[0], k);
            if k == n {
                assert(named_in(ds, k, sub) + Seq::<Item>::empty() =~= named_in(ds, k, sub));
                assert(of_name(s, k).push(x[0]) =~= named_in(ds, k, sub) + x);
            }
        }
    }
}
pub proof fn lemma_collect_end(s: Seq<Item>, ds: Seq<openat::Dir>, d: openat::Dir, seen: Seq<Seq<u8>>, sub: bool)
    requires collecting(s, ds, d, seen, sub), forall|k: Seq<u8>| #[trigger] crate::vp::fs_has(&d, k) ==> seen.contains(k)
    ensures collected(s, ds.push(d), sub)
{
    reveal(collecting); reveal(collected);
    assert(ds.push(d).drop_last() =~= ds);
    assert forall|k: Seq<u8>| #[trigger] of_name(s, k) == named_in(ds.push(d), k, sub) by {
        if !seen.contains(k) { assert(item_in(d, k, sub) =~= Seq::<Item>::empty()); }
    }
}
/// sorting by name, stable
pub proof fn lemma_collect_sorted(s: Seq<Item>, r: Seq<Item>, ds: Seq<openat::Dir>, sub: bool)
    requires collected(s, ds, sub), forall|k: Seq<u8>| #[trigger] of_name(r, k) == of_name(s, k)
    ensures collected(r, ds, sub)
{
    reveal(collected);
}
/// items outside of a range have another name
pub proof fn lemma_of_name_range(s: Seq<Item>, a: int, b: int, k: Seq<u8>)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> (#[trigger] s[i]).name == k,
        forall|i: int| 0 <= i < a || b <= i < s.len() ==> (#[trigger] s[i]).name != k
    ensures of_name(s, k) == s.subrange(a, b)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        if b == s.len() && a < b {
            lemma_of_name_range(t, a, b - 1, k);
            assert(t.subrange(a, b - 1).push(s.last()) =~= s.subrange(a, b));
        } else if b == s.len() {
            lemma_of_name_range(t, a - 1, b - 1, k);
            assert(t.subrange(a - 1, b - 1) =~= s.subrange(a, b));
        } else {
            lemma_of_name_range(t, a, b, k);
            assert(t.subrange(a, b) =~= s.subrange(a, b));
        }
    } else { assert(s.subrange(a, b) =~= Seq::<Item>::empty()); }
}
pub proof fn lemma_of_name_has(s: Seq<Item>, i: int)
    requires 0 <= i < s.len()
    ensures of_name(s, s[i].name).len() > 0
    decreases s.len()
{
    if i < s.len() - 1 { lemma_of_name_has(s.drop_last(), i); }
}
pub proof fn lemma_of_name_none(s: Seq<Item>, k: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name != k
    ensures of_name(s, k).len() == 0
    decreases s.len()
{
    if s.len() > 0 { lemma_of_name_none(s.drop_last(), k); }
}
pub proof fn lemma_named_in_name(ds: Seq<openat::Dir>, k: Seq<u8>, sub: bool)
    requires named_in(ds, k, sub).len() > 0
    ensures is_name(k)
    decreases ds.len()
{
    broadcast use crate::vp::ax_fs_name;
    if named_in(ds.drop_last(), k, sub).len() > 0 { lemma_named_in_name(ds.drop_last(), k, sub); }
    else { assert(crate::vp::fs_has(&ds.last(), k)); }
}
// ---- subdirectories grouped by name
/// the first `a` of the items, by names descending, are in the nodes `cs`
#[verifier::opaque]
pub open spec fn grouped(s: Seq<Item>, a: int, nd: Node, names: Seq<Seq<u8>>, cs: Seq<Node>) -> bool {
    &&& 0 <= a <= s.len()
    &&& names.len() == cs.len()
    &&& names_ascend(names)
    &&& forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == child(nd, names[i])
    &&& forall|i: int| 0 <= i < names.len() ==> (#[trigger] named_in(nd.dirs, names[i], true)).len() > 0
    &&& forall|i: int| 0 <= i < a ==> names.contains((#[trigger] s[i]).name)
    &&& forall|i: int, x: int| 0 <= i < names.len() && a <= x < s.len() ==> bcmp((#[trigger] s[x]).name, #[trigger] names[i]) == Ordering::Less
}
/// .. whatever their names are
pub open spec fn grouping(s: Seq<Item>, a: int, nd: Node, cs: Seq<Node>) -> bool { exists|names: Seq<Seq<u8>>| #[trigger] grouped(s, a, nd, names, cs) }
pub proof fn lemma_grouping_step(s: Seq<Item>, a: int, b: int, nd: Node, cs: Seq<Node>)
    requires grouping(s, a, nd, cs), descending(s), collected(s, nd.dirs, true), 0 <= a < b <= s.len(),
        forall|i: int| a <= i < b ==> (#[trigger] s[i]).name == s[a].name,
        b < s.len() ==> s[b].name != s[a].name,
    ensures grouping(s, b, nd, seq![child(nd, s[a].name)] + cs),
        named_in(nd.dirs, s[a].name, true) == s.subrange(a, b),
{
    let names = choose|names: Seq<Seq<u8>>| #[trigger] grouped(s, a, nd, names, cs);
    lemma_group_step(s, a, b, nd, names, cs);
}
pub proof fn lemma_grouping_end(s: Seq<Item>, nd: Node, cs: Seq<Node>)
    requires grouping(s, s.len() as int, nd, cs), collected(s, nd.dirs, true)
    ensures is_children(nd, cs)
{
    let names = choose|names: Seq<Seq<u8>>| #[trigger] grouped(s, s.len() as int, nd, names, cs);
    lemma_group_end(s, nd, names, cs);
}
pub proof fn lemma_group_start(s: Seq<Item>, nd: Node)
    ensures grouping(s, 0, nd, Seq::empty())
{
    reveal(grouped);
    assert(grouped(s, 0, nd, Seq::empty(), Seq::empty()));
}
/// one more group
pub proof fn lemma_group_step(s: Seq<Item>, a: int, b: int, nd: Node, names: Seq<Seq<u8>>, cs: Seq<Node>)
    requires grouped(s, a, nd, names, cs), descending(s), collected(s, nd.dirs, true), 0 <= a < b <= s.len(),
        forall|i: int| a <= i < b ==> (#[trigger] s[i]).name == s[a].name,
        b < s.len() ==> s[b].name != s[a].name,
    ensures grouped(s, b, nd, seq![s[a].name] + names, seq![child(nd, s[a].name)] + cs),
        named_in(nd.dirs, s[a].name, true) == s.subrange(a, b),
{
    reveal(grouped); reveal(collected);
    let k = s[a].name;
    let ns = seq![k] + names;
    let ks = seq![child(nd, k)] + cs;
    assert forall|i: int| 0 <= i < a implies (#[trigger] s[i]).name != k by {
        let j = choose|j: int| 0 <= j < names.len() && names[j] == s[i].name;
        lemma_bcmp(k, names[j]);
    }
    assert forall|i: int| b <= i < s.len() implies bcmp((#[trigger] s[i]).name, k) == Ordering::Less by {
        lemma_bcmp(s[b].name, k); lemma_bcmp(k, s[b].name);
        lemma_bcmp(s[b].name, s[i].name); lemma_bcmp(s[i].name, s[b].name);
        lemma_bcmp(s[i].name, k); lemma_bcmp(k, s[i].name);
        lemma_bcmp_trans(s[i].name, s[b].name, k);
        lemma_bcmp_trans(k, s[i].name, s[b].name);
        assert(bcmp(s[a].name, s[b].name) != Ordering::Less);
        if i > b { assert(bcmp(s[b].name, s[i].name) != Ordering::Less); }
    }
    assert forall|i: int| 0 <= i < a || b <= i < s.len() implies (#[trigger] s[i]).name != k by {
        if b <= i { lemma_bcmp(s[i].name, k); }
    }
    lemma_of_name_range(s, a, b, k);
    assert(of_name(s, k) == named_in(nd.dirs, k, true));
    assert(ns[0] == k);
    assert forall|i: int, j: int| 0 <= i < j < ns.len() implies bcmp(#[trigger] ns[i], #[trigger] ns[j]) == Ordering::Less by {
        assert(ns[j] == names[j - 1]);
        if i > 0 { assert(ns[i] == names[i - 1]); }
    }
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] ks[i] == child(nd, ns[i]) by {
        if i > 0 { assert(ks[i] == cs[i - 1]); assert(ns[i] == names[i - 1]); }
    }
    assert forall|i: int| 0 <= i < ns.len() implies (#[trigger] named_in(nd.dirs, ns[i], true)).len() > 0 by {
        if i > 0 { assert(ns[i] == names[i - 1]); }
    }
    assert forall|i: int| 0 <= i < b implies ns.contains((#[trigger] s[i]).name) by {
        if i < a {
            let j = choose|j: int| 0 <= j < names.len() && names[j] == s[i].name;
            assert(ns[j + 1] == s[i].name);
        }
    }
    assert forall|i: int, x: int| 0 <= i < ns.len() && b <= x < s.len() implies bcmp((#[trigger] s[x]).name, #[trigger] ns[i]) == Ordering::Less by {
        if i > 0 { assert(ns[i] == names[i - 1]); }
    }
}
pub proof fn lemma_group_end(s: Seq<Item>, nd: Node, names: Seq<Seq<u8>>, cs: Seq<Node>)
    requires grouped(s, s.len() as int, nd, names, cs), collected(s, nd.dirs, true)
    ensures is_children(nd, cs)
{
    reveal(grouped); reveal(collected);
    assert forall|k: Seq<u8>| (#[trigger] named_in(nd.dirs, k, true)).len() > 0 <==> names.contains(k) by {
        if names.contains(k) {
            let j = choose|j: int| 0 <= j < names.len() && names[j] == k;
            assert(named_in(nd.dirs, names[j], true).len() > 0);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).name != k by {}
            lemma_of_name_none(s, k);
            assert(of_name(s, k) == named_in(nd.dirs, k, true));
        }
    }
    assert(children_named(nd, cs, names));
}
/// the paths of the subdirectories differ exactly when the names do
pub proof fn lemma_child_path(p: Seq<u8>, x: Seq<u8>, y: Seq<u8>)
    requires is_abs(p), is_name(x), is_name(y)
    ensures is_abs(join(p, x)), is_abs(join(p, y)), comps(join(p, x)) == comps(join(p, y)) <==> x == y
{
    lemma_comps_join(p, x);
    lemma_comps_join(p, y);
    if comps(join(p, x)) == comps(join(p, y)) { assert(comps(p).push(x).last() == comps(p).push(y).last()); }
}
// ---- theorems
/// names in order and what has them: the sequence is determined
pub proof fn lemma_sorted_unique(s: Seq<Item>, r: Seq<Item>)
    requires ascending(s), ascending(r), forall|k: Seq<u8>| #[trigger] of_name(s, k) == of_name(r, k)
    ensures s == r
    decreases s.len()
{
    if s.len() == 0 {
        if r.len() > 0 { lemma_of_name_has(r, r.len() - 1); assert(of_name(s, r.last().name) == of_name(r, r.last().name)); }
        assert(s =~= r);
    } else {
        lemma_of_name_has(s, s.len() - 1);
        assert(of_name(s, s.last().name) == of_name(r, s.last().name));
        if r.len() == 0 { assert(false); }
        lemma_of_name_has(r, r.len() - 1);
        assert(of_name(s, r.last().name) == of_name(r, r.last().name));
        let x = s.last(); let y = r.last();
        // the last name of each occurs in the other
        lemma_of_name_mem(r, x.name);
        lemma_of_name_mem(s, y.name);
        let i = choose|i: int| 0 <= i < r.len() && r[i].name == x.name;
        let j = choose|j: int| 0 <= j < s.len() && s[j].name == y.name;
        assert(bcmp(x.name, y.name) != Ordering::Greater) by { lemma_bcmp(x.name, y.name); if i < r.len() - 1 { assert(bcmp(r[i].name, r[r.len() - 1].name) != Ordering::Greater); } }
        assert(bcmp(y.name, x.name) != Ordering::Greater) by { lemma_bcmp(x.name, y.name); if j < s.len() - 1 { assert(bcmp(s[j].name, s[s.len() - 1].name) != Ordering::Greater); } }
        lemma_bcmp(x.name, y.name);
        assert(x.name == y.name);
        assert(of_name(s, x.name).last() == x);
        assert(of_name(r, x.name).last() == y);
        let s1 = s.drop_last(); let r1 = r.drop_last();
        assert forall|k: Seq<u8>| #[trigger] of_name(s1, k) == of_name(r1, k) by {
            assert(of_name(s, k) == of_name(r, k));
            if k == x.name {
                assert(of_name(s1, k) =~= of_name(s, k).drop_last());
                assert(of_name(r1, k) =~= of_name(r, k).drop_last());
            }
        }
        lemma_sorted_unique(s1, r1);
        assert(s =~= s1.push(x)); assert(r =~= r1.push(y));
    }
}
pub proof fn lemma_of_name_mem(s: Seq<Item>, k: Seq<u8>)
    requires of_name(s, k).len() > 0
    ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == k
    decreases s.len()
{
    if s.last().name != k { lemma_of_name_mem(s.drop_last(), k); let i = choose|i: int| 0 <= i < s.len() - 1 && (#[trigger] s.drop_last()[i]).name == k; assert(s[i].name == k); }
    else { assert(s[s.len() - 1].name == k); }
}
pub proof fn lemma_names_unique(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires names_ascend(a), names_ascend(b), forall|k: Seq<u8>| #[trigger] a.contains(k) <==> b.contains(k)
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a.last())); assert(b.contains(a.last()));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == a.last();
        assert(b.contains(b.last())); assert(a.contains(b.last()));
        let j = choose|j: int| 0 <= j < a.len() && a[j] == b.last();
        lemma_bcmp(a.last(), b.last()); lemma_bcmp(b.last(), a.last());
        if i < b.len() - 1 { assert(bcmp(b[i], b[b.len() - 1]) == Ordering::Less); if j < a.len() - 1 { assert(bcmp(a[j], a[a.len() - 1]) == Ordering::Less); } }
        if j < a.len() - 1 { assert(bcmp(a[j], a[a.len() - 1]) == Ordering::Less); }
        assert(a.last() == b.last());
        let a1 = a.drop_last(); let b1 = b.drop_last();
        assert forall|k: Seq<u8>| #[trigger] a1.contains(k) <==> b1.contains(k) by {
            lemma_drop_last_has(a, k); lemma_drop_last_has(b, k);
            assert(a.contains(k) <==> b.contains(k));
        }
        lemma_names_unique(a1, b1);
        assert(a =~= a1.push(a.last())); assert(b =~= b1.push(b.last()));
    }
}
pub proof fn lemma_drop_last_has(a: Seq<Seq<u8>>, k: Seq<u8>)
    requires names_ascend(a), a.len() > 0
    ensures a.drop_last().contains(k) <==> a.contains(k) && k != a.last()
{
    if a.drop_last().contains(k) {
        let i = choose|i: int| 0 <= i < a.drop_last().len() && a.drop_last()[i] == k;
        assert(a[i] == k);
        assert(bcmp(a[i], a[a.len() - 1]) == Ordering::Less);
        lemma_bcmp(k, a.last());
    }
    if a.contains(k) && k != a.last() {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == k;
        assert(a.drop_last()[i] == k);
    }
}
pub proof fn lemma_children_unique(nd: Node, cs: Seq<Node>, es: Seq<Node>)
    requires is_children(nd, cs), is_children(nd, es)
    ensures cs == es
{
    let a = choose|names: Seq<Seq<u8>>| #[trigger] children_named(nd, cs, names);
    let b = choose|names: Seq<Seq<u8>>| #[trigger] children_named(nd, es, names);
    assert forall|k: Seq<u8>| #[trigger] a.contains(k) <==> b.contains(k) by {
        let x = named_in(nd.dirs, k, true).len();
    }
    lemma_names_unique(a, b);
    assert(cs =~= es);
}
/// [P12 P13] a scan of the same directories gives the same rows, whatever the
/// order in which directories are listed, the number of threads and the timing
pub proof fn lemma_walks_unique(c: Cfg, q: Seq<Node>, vs: Seq<Visit>, ws: Seq<Visit>)
    requires walks(c, q, vs), walks(c, q, ws), c.resets
    ensures vs == ws
    decreases vs.len()
{
    if q.len() == 0 { assert(vs =~= ws); }
    else {
        let v = vs[0]; let w = ws[0];
        assert forall|k: Seq<u8>| #[trigger] of_name(v.items, k) == of_name(w.items, k) by { reveal(collected); }
        lemma_sorted_unique(v.items, w.items);
        lemma_children_unique(q[0], v.children, w.children);
        assert forall|i: int| 0 <= i < v.rows.len() implies v.rows[i] == w.rows[i] by {
            assert(is_item_row(c, v.items[i], v.rows[i]));
            assert(is_item_row(c, w.items[i], w.rows[i]));
        }
        assert(v.rows =~= w.rows);
        lemma_walks_unique(c, v.children + q.skip(1), vs.skip(1), ws.skip(1));
        assert(vs =~= seq![v] + vs.skip(1));
        assert(ws =~= seq![w] + ws.skip(1));
    }
}
// --------------------------------------------- the entries of a scanned index
pub open spec fn file_hashes(c: Cfg, f: Item, t: Seq<u8>) -> Seq<u8> {
    choose|h: Seq<u8>| #[trigger] file_row(f.name, is_exe(crate::vp::fs_mode(&f.d, f.name)), crate::vp::fs_size(&f.d, f.name), h, dlen()) + nl() == t
        && hashes_of(c, crate::vp::fs_size(&f.d, f.name), crate::vp::fs_data(&f.d, f.name), h)
}
/// the row of an item as a call of an emitter
pub open spec fn item_call(c: Cfg, f: Item, t: Seq<u8>) -> Call {
    if f.link { Call::Link { name: f.name, dest: crate::vp::fs_link(&f.d, f.name) } }
    else { Call::File { name: f.name, exe: is_exe(crate::vp::fs_mode(&f.d, f.name)), size: crate::vp::fs_size(&f.d, f.name), hashes: file_hashes(c, f, t) } }
}
pub open spec fn item_calls(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>, n: int) -> Seq<Call> { Seq::new(n as nat, |i: int| item_call(c, items[i], rows[i])) }
pub open spec fn visit_calls(c: Cfg, v: Visit) -> Seq<Call> { seq![Call::Dir(v.path)] + item_calls(c, v.items, v.rows, v.items.len() as int) }
pub open spec fn walk_calls(c: Cfg, vs: Seq<Visit>) -> Seq<Call>
    decreases vs.len()
{
    if vs.len() == 0 { Seq::empty() } else { walk_calls(c, vs.drop_last()) + visit_calls(c, vs.last()) }
}
/// the entry of a file or symlink
pub open spec fn item_ent(c: Cfg, dir: Seq<u8>, f: Item, t: Seq<u8>) -> Ent { call_ent(item_call(c, f, t), dir) }
/// the entries of a directory: itself, then its files and symlinks
pub open spec fn visit_ents(c: Cfg, v: Visit) -> Seq<Ent> { seq![Ent::Dir(v.path)] + Seq::new(v.items.len(), |i: int| item_ent(c, v.path, v.items[i], v.rows[i])) }
pub open spec fn walk_ents(c: Cfg, vs: Seq<Visit>) -> Seq<Ent>
    decreases vs.len()
{
    if vs.len() == 0 { Seq::empty() } else { walk_ents(c, vs.drop_last()) + visit_ents(c, vs.last()) }
}
pub open spec fn dir_after(cs: Seq<Call>, dir: Seq<u8>) -> Seq<u8>
    decreases cs.len()
{
    if cs.len() == 0 { dir } else { dir_after(cs.skip(1), call_dir(cs[0], dir)) }
}
proof fn lemma_calls_cat(a: Seq<Call>, b: Seq<Call>, dir: Seq<u8>, bs: nat)
    ensures calls_text(a + b) == calls_text(a) + calls_text(b),
        dir_after(a + b, dir) == dir_after(b, dir_after(a, dir)),
        calls_ok(a + b, dir, bs) <==> calls_ok(a, dir, bs) && calls_ok(b, dir_after(a, dir), bs),
        calls_ents(a + b, dir) == calls_ents(a, dir) + calls_ents(b, dir_after(a, dir)),
    decreases a.len()
{
    if a.len() == 0 {
        assert(a + b =~= b);
        assert(calls_text(a) + calls_text(b) =~= calls_text(b));
        assert(calls_ents(a, dir) + calls_ents(b, dir) =~= calls_ents(b, dir));
    } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_calls_cat(a.skip(1), b, call_dir(a[0], dir), bs);
        assert(calls_text(a + b) =~= calls_text(a) + calls_text(b));
        assert(calls_ents(a + b, dir) =~= calls_ents(a, dir) + calls_ents(b, dir_after(a, dir)));
    }
}
proof fn lemma_one_call(x: Call, dir: Seq<u8>, bs: nat)
    ensures calls_text(seq![x]) == call_row(x) + nl(), dir_after(seq![x], dir) == call_dir(x, dir), calls_ok(seq![x], dir, bs) == call_ok(x, dir, bs),
        calls_ents(seq![x], dir) == seq![call_ent(x, dir)]
{
    let s = seq![x];
    assert(s.skip(1) =~= Seq::<Call>::empty());
    assert(s[0] == x);
    assert(calls_text(s.skip(1)) =~= Seq::<u8>::empty());
    assert(calls_text(s) =~= call_row(x) + nl());
    assert(dir_after(s.skip(1), call_dir(x, dir)) == call_dir(x, dir));
    assert(calls_ok(s.skip(1), call_dir(x, dir), bs));
    assert(calls_ents(s.skip(1), call_dir(x, dir)) =~= Seq::<Ent>::empty());
    assert(calls_ents(s, dir) =~= seq![call_ent(x, dir)]);
}
/// the items of a directory have names
pub open spec fn items_named(items: Seq<Item>) -> bool { forall|i: int| 0 <= i < items.len() ==> is_name((#[trigger] items[i]).name) }
proof fn lemma_item_row(c: Cfg, dir: Seq<u8>, f: Item, t: Seq<u8>)
    requires is_item_row(c, f, t), is_name(f.name), is_abs(dir)
    ensures call_ok(item_call(c, f, t), dir, c.bs), call_row(item_call(c, f, t)) + nl() == t, call_dir(item_call(c, f, t), dir) == dir
{
    broadcast use crate::vp::ax_fs_size;
    if !f.link {
        let h = file_hashes(c, f, t);
        assert(h.len() == dlen() * ceil_div(crate::vp::fs_size(&f.d, f.name), c.bs));
        assert(h.len() == ceil_div(crate::vp::fs_size(&f.d, f.name), c.bs) * dlen()) by (nonlinear_arith) requires h.len() == dlen() * ceil_div(crate::vp::fs_size(&f.d, f.name), c.bs);
    }
}
proof fn lemma_item_calls(c: Cfg, items: Seq<Item>, rows: Seq<Seq<u8>>, n: int, dir: Seq<u8>)
    requires are_rows(c, items, rows), items_named(items), is_abs(dir), 0 <= n <= items.len()
    ensures ({ let cs = item_calls(c, items, rows, n);
        &&& calls_text(cs) == cat(rows.take(n))
        &&& calls_ok(cs, dir, c.bs)
        &&& dir_after(cs, dir) == dir
        &&& calls_ents(cs, dir) == Seq::new(n as nat, |i: int| item_ent(c, dir, items[i], rows[i]))
    })
    decreases n
{
    let cs = item_calls(c, items, rows, n);
    if n == 0 {
        assert(cs =~= Seq::<Call>::empty());
        assert(rows.take(0) =~= Seq::<Seq<u8>>::empty());
        assert(calls_text(cs) =~= Seq::<u8>::empty());
        assert(calls_ents(cs, dir) =~= Seq::new(n as nat, |i: int| item_ent(c, dir, items[i], rows[i])));
    } else {
        let a = item_calls(c, items, rows, n - 1);
        let x = item_call(c, items[n - 1], rows[n - 1]);
        lemma_item_calls(c, items, rows, n - 1, dir);
        lemma_item_row(c, dir, items[n - 1], rows[n - 1]);
        lemma_one_call(x, dir, c.bs);
        lemma_calls_cat(a, seq![x], dir, c.bs);
        assert(cs =~= a + seq![x]);
        assert(rows.take(n) =~= rows.take(n - 1).push(rows[n - 1]));
        lemma_cat_push(rows.take(n - 1), rows[n - 1]);
        assert(calls_ents(cs, dir) =~= Seq::new(n as nat, |i: int| item_ent(c, dir, items[i], rows[i])));
    }
}
/// a visit of some directory
pub open spec fn visited(c: Cfg, v: Visit) -> bool { exists|nd: Node| #[trigger] visit_ok(c, nd, v) && is_abs(nd.path) }
proof fn lemma_visit_named(c: Cfg, nd: Node, v: Visit)
    requires visit_ok(c, nd, v)
    ensures items_named(v.items)
{
    reveal(collected);
    assert forall|i: int| 0 <= i < v.items.len() implies is_name((#[trigger] v.items[i]).name) by {
        lemma_of_name_has(v.items, i);
        assert(of_name(v.items, v.items[i].name) == named_in(nd.dirs, v.items[i].name, false));
        lemma_named_in_name(nd.dirs, v.items[i].name, false);
    }
}
proof fn lemma_visit_calls(c: Cfg, v: Visit, dir: Seq<u8>)
    requires visited(c, v)
    ensures calls_text(visit_calls(c, v)) == visit_text(v), calls_ok(visit_calls(c, v), dir, c.bs), dir_after(visit_calls(c, v), dir) == v.path,
        calls_ents(visit_calls(c, v), dir) == visit_ents(c, v), is_abs(v.path), items_named(v.items), are_rows(c, v.items, v.rows), ascending(v.items)
{
    let nd = choose|nd: Node| #[trigger] visit_ok(c, nd, v) && is_abs(nd.path);
    lemma_visit_named(c, nd, v);
    let n = v.items.len() as int;
    let b = item_calls(c, v.items, v.rows, n);
    lemma_item_calls(c, v.items, v.rows, n, v.path);
    lemma_one_call(Call::Dir(v.path), dir, c.bs);
    lemma_calls_cat(seq![Call::Dir(v.path)], b, dir, c.bs);
    assert(v.rows.take(n) =~= v.rows);
    assert(visit_text(v) =~= (dir_row(v.path) + nl()) + cat(v.rows));
    assert(calls_ents(visit_calls(c, v), dir) =~= visit_ents(c, v));
}
/// the calls of a walk give its text and its entries
proof fn lemma_walk_calls(c: Cfg, vs: Seq<Visit>)
    requires forall|m: int| 0 <= m < vs.len() ==> visited(c, #[trigger] vs[m])
    ensures calls_text(walk_calls(c, vs)) == walk_text(vs), calls_ok(walk_calls(c, vs), Seq::empty(), c.bs), calls_ents(walk_calls(c, vs), Seq::empty()) == walk_ents(c, vs)
    decreases vs.len()
{
    if vs.len() > 0 {
        let a = vs.drop_last();
        assert forall|m: int| 0 <= m < a.len() implies visited(c, #[trigger] a[m]) by { assert(a[m] == vs[m]); }
        lemma_walk_calls(c, a);
        let d = dir_after(walk_calls(c, a), Seq::empty());
        assert(visited(c, vs[vs.len() - 1]));
        lemma_visit_calls(c, vs.last(), d);
        lemma_calls_cat(walk_calls(c, a), visit_calls(c, vs.last()), Seq::empty(), c.bs);
    } else {
        assert(calls_text(walk_calls(c, vs)) =~= Seq::<u8>::empty());
        assert(calls_ents(walk_calls(c, vs), Seq::empty()) =~= Seq::<Ent>::empty());
    }
}
// ---- the order of a walk
/// the paths part at a component, where `a` comes first
pub open spec fn parts_before(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool {
    exists|n: int| #![trigger a.take(n)] 0 <= n < a.len() && n < b.len() && a.take(n) == b.take(n) && ncmp(a[n], b[n]) == Ordering::Less
}
pub open spec fn extends(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { b.len() <= a.len() && a.take(b.len() as int) == b }
proof fn lemma_parts(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, x: Seq<Seq<u8>>, y: Seq<Seq<u8>>)
    requires parts_before(a, b), extends(x, a), extends(y, b)
    ensures parts_before(x, y), ccmp(x, y) == Ordering::Less
{
    let n = choose|n: int| #![trigger a.take(n)] 0 <= n < a.len() && n < b.len() && a.take(n) == b.take(n) && ncmp(a[n], b[n]) == Ordering::Less;
    assert(x.take(n) =~= a.take(n)) by { assert forall|i: int| 0 <= i < n implies x[i] == a[i] by { assert(x.take(a.len() as int)[i] == a[i]); } }
    assert(y.take(n) =~= b.take(n)) by { assert forall|i: int| 0 <= i < n implies y[i] == b[i] by { assert(y.take(b.len() as int)[i] == b[i]); } }
    assert(x[n] == a[n]) by { assert(x.take(a.len() as int)[n] == a[n]); }
    assert(y[n] == b[n]) by { assert(y.take(b.len() as int)[n] == b[n]); }
    let d = x.take(n);
    lemma_ccmp_sibling(d, x[n], y[n], x.skip(n + 1), y.skip(n + 1));
    assert(x =~= d + seq![x[n]] + x.skip(n + 1));
    assert(y =~= d + seq![y[n]] + y.skip(n + 1));
}
proof fn lemma_extends(x: Seq<Seq<u8>>, a: Seq<Seq<u8>>, k: Seq<u8>)
    requires extends(x, a.push(k))
    ensures extends(x, a), ccmp(a, x) == Ordering::Less
{
    let p = a.push(k);
    assert(x.take(a.len() as int) =~= a) by { assert forall|i: int| 0 <= i < a.len() implies x[i] == a[i] by { assert(x.take(p.len() as int)[i] == p[i]); } }
    lemma_ccmp_below(a, x.skip(a.len() as int));
    assert(a + x.skip(a.len() as int) =~= x);
}
/// a queue of directories in order, none below another
pub open spec fn apart(q: Seq<Node>) -> bool {
    forall|i: int, j: int| 0 <= i < j < q.len() ==> parts_before(comps(#[trigger] q[i].path), comps(#[trigger] q[j].path))
}
proof fn lemma_child(nd: Node, names: Seq<Seq<u8>>, cs: Seq<Node>, i: int)
    requires children_named(nd, cs, names), 0 <= i < cs.len(), is_abs(nd.path)
    ensures is_name(names[i]), is_abs(cs[i].path), comps(cs[i].path) == comps(nd.path).push(names[i])
{
    assert(names.contains(names[i]));
    assert(named_in(nd.dirs, names[i], true).len() > 0);
    lemma_named_in_name(nd.dirs, names[i], true);
    lemma_comps_join(nd.path, names[i]);
    assert(cs[i] == child(nd, names[i]));
}
pub open spec fn right_below(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>) -> bool { exists|k: Seq<u8>| b == #[trigger] a.push(k) }
/// the queue after a visit
proof fn lemma_queue_step(c: Cfg, q: Seq<Node>, v: Visit)
    requires q.len() > 0, visit_ok(c, q[0], v), abs_nodes(q), apart(q)
    ensures abs_nodes(v.children + q.skip(1)), apart(v.children + q.skip(1)),
        forall|i: int| 0 <= i < v.children.len() ==> right_below(comps(q[0].path), comps((#[trigger] v.children[i]).path))
{
    let nd = q[0]; let cs = v.children; let r = cs + q.skip(1); let n = comps(nd.path).len() as int;
    let names = choose|names: Seq<Seq<u8>>| #[trigger] children_named(nd, cs, names);
    assert(is_abs(nd.path));
    assert forall|i: int| 0 <= i < r.len() implies is_abs(#[trigger] r[i].path) by {
        if i < cs.len() { lemma_child(nd, names, cs, i); } else { assert(r[i] == q[i - cs.len() + 1]); }
    }
    assert forall|i: int| 0 <= i < cs.len() implies right_below(comps(q[0].path), comps((#[trigger] cs[i]).path)) by {
        lemma_child(nd, names, cs, i);
        assert(comps(cs[i].path) == comps(q[0].path).push(names[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies parts_before(comps(#[trigger] r[i].path), comps(#[trigger] r[j].path)) by {
        let a = comps(r[i].path); let b = comps(r[j].path);
        if i < cs.len() {
            lemma_child(nd, names, cs, i);
            assert(r[i] == cs[i]);
            if j < cs.len() {
                lemma_child(nd, names, cs, j);
                assert(r[j] == cs[j]);
                assert(bcmp(names[i], names[j]) == Ordering::Less);
                assert(a.take(n) =~= b.take(n));
                assert(a[n] == names[i] && b[n] == names[j]);
            } else {
                let y = q[j - cs.len() + 1];
                assert(r[j] == y);
                assert(parts_before(comps(q[0].path), comps(y.path)));
                assert(a.take(n) =~= comps(nd.path));
                assert(b.take(b.len() as int) =~= b);
                lemma_parts(comps(nd.path), b, a, b);
            }
        } else {
            assert(r[i] == q[i - cs.len() + 1] && r[j] == q[j - cs.len() + 1]);
        }
    }
}
/// the path is one of the queue's, or below one
#[verifier::opaque]
pub open spec fn below(q: Seq<Node>, x: Seq<Seq<u8>>) -> bool { exists|i: int| 0 <= i < q.len() && extends(x, comps(#[trigger] q[i].path)) }
proof fn lemma_below_step(q: Seq<Node>, cs: Seq<Node>, x: Seq<Seq<u8>>)
    requires q.len() > 0, below(cs + q.skip(1), x), apart(q),
        forall|i: int| 0 <= i < cs.len() ==> right_below(comps(q[0].path), comps((#[trigger] cs[i]).path)),
    ensures below(q, x), ccmp(comps(q[0].path), x) == Ordering::Less
{
    reveal(below);
    let c0 = comps(q[0].path); let q1 = cs + q.skip(1);
    let i = choose|i: int| 0 <= i < q1.len() && extends(x, comps(#[trigger] q1[i].path));
    if i < cs.len() {
        assert(q1[i] == cs[i]);
        assert(right_below(c0, comps(cs[i].path)));
        let k = choose|k: Seq<u8>| comps(cs[i].path) == #[trigger] c0.push(k);
        lemma_extends(x, c0, k);
        assert(extends(x, comps(q[0].path)));
    } else {
        let j = i - cs.len() + 1;
        assert(q1[i] == q[j]);
        assert(parts_before(comps(q[0].path), comps(q[j].path)));
        assert(c0.take(c0.len() as int) =~= c0);
        lemma_parts(c0, comps(q[j].path), c0, x);
        assert(extends(x, comps(q[j].path)));
    }
}
proof fn lemma_below_first(q: Seq<Node>)
    requires q.len() > 0
    ensures below(q, comps(q[0].path))
{
    reveal(below);
    let c0 = comps(q[0].path);
    assert(c0.take(c0.len() as int) =~= c0);
    assert(extends(c0, comps(q[0].path)));
}
/// directories come in the order of the index, each once
proof fn lemma_walk_order(c: Cfg, q: Seq<Node>, vs: Seq<Visit>)
    requires walks(c, q, vs), abs_nodes(q), apart(q)
    ensures forall|m: int| 0 <= m < vs.len() ==> visited(c, #[trigger] vs[m]),
        forall|m: int| 0 <= m < vs.len() ==> below(q, comps((#[trigger] vs[m]).path)),
        forall|m: int, n: int| 0 <= m < n < vs.len() ==> ccmp(comps((#[trigger] vs[m]).path), comps((#[trigger] vs[n]).path)) == Ordering::Less,
    decreases vs.len()
{
    if q.len() > 0 {
        let v = vs[0]; let vs1 = vs.skip(1); let cs = v.children; let q1 = cs + q.skip(1);
        lemma_queue_step(c, q, v);
        lemma_walk_order(c, q1, vs1);
        lemma_below_first(q);
        assert(visited(c, v)) by { assert(is_abs(q[0].path)); }
        assert forall|m: int| 0 <= m < vs.len() implies visited(c, #[trigger] vs[m]) by { if m > 0 { assert(vs[m] == vs1[m - 1]); } }
        assert forall|m: int| 0 <= m < vs.len() implies below(q, comps((#[trigger] vs[m]).path)) by {
            if m > 0 { assert(vs[m] == vs1[m - 1]); lemma_below_step(q, cs, comps(vs[m].path)); }
        }
        assert forall|m: int, n: int| 0 <= m < n < vs.len() implies ccmp(comps((#[trigger] vs[m]).path), comps((#[trigger] vs[n]).path)) == Ordering::Less by {
            assert(vs[n] == vs1[n - 1]);
            if m > 0 { assert(vs[m] == vs1[m - 1]); } else { lemma_below_step(q, cs, comps(vs[n].path)); }
        }
    }
}
// ---- one directory was added: no name occurs twice
pub open spec fn thin(q: Seq<Node>) -> bool { forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).dirs.len() <= 1 }
pub open spec fn strictly(s: Seq<Item>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> bcmp((#[trigger] s[i]).name, (#[trigger] s[j]).name) == Ordering::Less }
proof fn lemma_named_in_len(ds: Seq<openat::Dir>, k: Seq<u8>, sub: bool)
    ensures named_in(ds, k, sub).len() <= ds.len()
    decreases ds.len()
{
    if ds.len() > 0 { lemma_named_in_len(ds.drop_last(), k, sub); }
}
proof fn lemma_of_name_two(s: Seq<Item>, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i].name == s[j].name
    ensures of_name(s, s[i].name).len() >= 2
    decreases s.len()
{
    let k = s[i].name;
    if j == s.len() - 1 { lemma_of_name_has(s.drop_last(), i); } else { lemma_of_name_two(s.drop_last(), i, j); }
}
proof fn lemma_walk_thin(c: Cfg, q: Seq<Node>, vs: Seq<Visit>)
    requires walks(c, q, vs), thin(q)
    ensures forall|m: int| 0 <= m < vs.len() ==> strictly((#[trigger] vs[m]).items)
    decreases vs.len()
{
    if q.len() > 0 {
        let nd = q[0]; let v = vs[0]; let cs = v.children; let q1 = cs + q.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < v.items.len() implies bcmp((#[trigger] v.items[i]).name, (#[trigger] v.items[j]).name) == Ordering::Less by {
            if v.items[i].name == v.items[j].name {
                lemma_of_name_two(v.items, i, j);
                reveal(collected);
                assert(of_name(v.items, v.items[i].name) == named_in(nd.dirs, v.items[i].name, false));
                lemma_named_in_len(nd.dirs, v.items[i].name, false);
                assert(q[0].dirs.len() <= 1);
            }
            lemma_bcmp(v.items[i].name, v.items[j].name);
        }
        let names = choose|names: Seq<Seq<u8>>| #[trigger] children_named(nd, cs, names);
        assert forall|i: int| 0 <= i < q1.len() implies (#[trigger] q1[i]).dirs.len() <= 1 by {
            if i < cs.len() {
                assert(cs[i] == child(nd, names[i]));
                lemma_named_in_len(nd.dirs, names[i], true);
                assert(q[0].dirs.len() <= 1);
            } else { assert(q1[i] == q[i - cs.len() + 1]); }
        }
        lemma_walk_thin(c, q1, vs.skip(1));
        assert forall|m: int| 0 <= m < vs.len() implies strictly((#[trigger] vs[m]).items) by { if m > 0 { assert(vs[m] == vs.skip(1)[m - 1]); } }
    }
}
/// the order of the index; strict: no two entries are in the same place
pub open spec fn follows(a: Ent, b: Ent, strict: bool) -> bool {
    kcmp(ent_key(a), ent_key(b)) == Ordering::Less || (!strict && kcmp(ent_key(a), ent_key(b)) == Ordering::Equal)
}
pub open spec fn ordered(es: Seq<Ent>, strict: bool) -> bool { forall|i: int, j: int| 0 <= i < j < es.len() ==> follows(#[trigger] es[i], #[trigger] es[j], strict) }
proof fn lemma_item_key(c: Cfg, dir: Seq<u8>, f: Item, t: Seq<u8>)
    requires is_abs(dir), is_name(f.name)
    ensures ent_key(item_ent(c, dir, f, t)) == (Key { dir: comps(dir), file: true, name: f.name })
{
    lemma_comps_join(dir, f.name);
    assert(comps(dir).push(f.name).drop_last() =~= comps(dir));
}
proof fn lemma_visit_order(c: Cfg, v: Visit, strict: bool)
    requires visited(c, v), strict ==> strictly(v.items)
    ensures ordered(visit_ents(c, v), strict), forall|i: int| 0 <= i < visit_ents(c, v).len() ==> ent_key(#[trigger] visit_ents(c, v)[i]).dir == comps(v.path)
{
    lemma_visit_calls(c, v, Seq::empty());
    let es = visit_ents(c, v);
    lemma_ccmp(comps(v.path), comps(v.path));
    assert forall|i: int| 0 <= i < es.len() implies ent_key(#[trigger] es[i]).dir == comps(v.path)
        && (i > 0 ==> ent_key(es[i]) == (Key { dir: comps(v.path), file: true, name: v.items[i - 1].name })) && (i == 0 ==> ent_key(es[i]) == dir_key(v.path)) by {
        if i > 0 { lemma_item_key(c, v.path, v.items[i - 1], v.rows[i - 1]); assert(es[i] == item_ent(c, v.path, v.items[i - 1], v.rows[i - 1])); }
    }
    assert forall|i: int, j: int| 0 <= i < j < es.len() implies follows(#[trigger] es[i], #[trigger] es[j], strict) by {
        if i > 0 {
            assert(bcmp(v.items[i - 1].name, v.items[j - 1].name) != Ordering::Greater);
            if strict { assert(bcmp(v.items[i - 1].name, v.items[j - 1].name) == Ordering::Less); }
        }
    }
}
proof fn lemma_ents_order(c: Cfg, vs: Seq<Visit>, strict: bool)
    requires forall|m: int| 0 <= m < vs.len() ==> visited(c, #[trigger] vs[m]),
        forall|m: int, n: int| 0 <= m < n < vs.len() ==> ccmp(comps((#[trigger] vs[m]).path), comps((#[trigger] vs[n]).path)) == Ordering::Less,
        strict ==> forall|m: int| 0 <= m < vs.len() ==> strictly((#[trigger] vs[m]).items),
    ensures ordered(walk_ents(c, vs), strict),
        forall|i: int| 0 <= i < walk_ents(c, vs).len() ==> exists|m: int| 0 <= m < vs.len() && ent_key(#[trigger] walk_ents(c, vs)[i]).dir == comps((#[trigger] vs[m]).path),
    decreases vs.len()
{
    if vs.len() > 0 {
        let a = vs.drop_last(); let l = vs.len() - 1; let v = vs[l];
        assert forall|m: int| 0 <= m < a.len() implies visited(c, #[trigger] a[m]) by { assert(a[m] == vs[m]); }
        if strict { assert forall|m: int| 0 <= m < a.len() implies strictly((#[trigger] a[m]).items) by { assert(a[m] == vs[m]); } }
        assert forall|m: int, n: int| 0 <= m < n < a.len() implies ccmp(comps((#[trigger] a[m]).path), comps((#[trigger] a[n]).path)) == Ordering::Less by { assert(a[m] == vs[m] && a[n] == vs[n]); }
        lemma_ents_order(c, a, strict);
        assert(visited(c, vs[l]));
        if strict { assert(strictly(vs[l].items)); }
        lemma_visit_order(c, v, strict);
        let x = walk_ents(c, a); let y = visit_ents(c, v); let es = walk_ents(c, vs);
        assert(es == x + y);
        assert forall|i: int| 0 <= i < es.len() implies exists|m: int| 0 <= m < vs.len() && ent_key(#[trigger] es[i]).dir == comps((#[trigger] vs[m]).path) by {
            if i < x.len() {
                assert(es[i] == x[i]);
                let m = choose|m: int| 0 <= m < a.len() && ent_key(x[i]).dir == comps((#[trigger] a[m]).path);
                assert(a[m] == vs[m]);
            } else { assert(es[i] == y[i - x.len()]); assert(ent_key(es[i]).dir == comps(vs[l].path)); }
        }
        assert forall|i: int, j: int| 0 <= i < j < es.len() implies follows(#[trigger] es[i], #[trigger] es[j], strict) by {
            if j < x.len() { assert(es[i] == x[i] && es[j] == x[j]); }
            else if i >= x.len() { assert(es[i] == y[i - x.len()] && es[j] == y[j - x.len()]); }
            else {
                assert(es[i] == x[i] && es[j] == y[j - x.len()]);
                let m = choose|m: int| 0 <= m < a.len() && ent_key(x[i]).dir == comps((#[trigger] a[m]).path);
                assert(a[m] == vs[m]);
                assert(ccmp(comps(vs[m].path), comps(vs[l].path)) == Ordering::Less);
            }
        }
    }
}
/// [P02 P13] the index of a walk is read back entry by entry to its end, in the order of the index
pub proof fn lemma_walk_index(c: Cfg, q: Seq<Node>, vs: Seq<Visit>)
    requires walks(c, q, vs), abs_nodes(q), apart(q), 0 < c.bs <= u64::MAX
    ensures ({
        let t = index_text(c.alg, c.bs, walk_text(vs));
        &&& first_line(t) == Some(header_row(c.alg, c.bs))
        &&& is_header(header_row(c.alg, c.bs), c.alg, c.bs)
        &&& entries(index_start(t.skip(header_row(c.alg, c.bs).len() as int + 1)), dlen(), c.bs) == Some(walk_ents(c, vs))
        &&& ordered(walk_ents(c, vs), false)
        &&& thin(q) ==> ordered(walk_ents(c, vs), true)
    })
{
    lemma_walk_order(c, q, vs);
    lemma_walk_calls(c, vs);
    lemma_emitted_index(c.alg, c.bs, walk_calls(c, vs));
    lemma_ents_order(c, vs, false);
    if thin(q) { lemma_walk_thin(c, q, vs); lemma_ents_order(c, vs, true); }
}
} // verus!
