//! Trusted prelude: what the standard library and the dependencies are assumed
//! to do. Every `assume_specification`, `axiom` and `external_body` in this file
//! is an assumption; the evidence files list them.
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::{PartialEqSpec, OrdSpec};
use vstd::std_specs::convert::FromSpec;
use vstd::string::*;
use vstd::utf8::*;
use std::borrow::Cow;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::io;
use std::fmt;
use std::sync::Arc;
use std::cmp::Ordering;
#[allow(unused_imports)] use crate::spec::*;

verus! {

global size_of usize == 8;

// ------------------------------------------------------------ byte views
/// The bytes of a string-like value
pub trait Bytes { spec fn b(&self) -> Seq<u8>; }

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPath(Path);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPathBuf(PathBuf);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExOsStr(OsStr);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExOsString(OsString);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExUtf8Error(std::str::Utf8Error);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExIoError(io::Error);

impl Bytes for Path { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for PathBuf { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for OsStr { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for OsString { uninterp spec fn b(&self) -> Seq<u8>; }
impl Bytes for str { open spec fn b(&self) -> Seq<u8> { encode_utf8(self@) } }
impl Bytes for String { open spec fn b(&self) -> Seq<u8> { encode_utf8(self@) } }
impl<'a> Bytes for Cow<'a, Path> { open spec fn b(&self) -> Seq<u8> { match *self { Cow::Borrowed(p) => p.b(), Cow::Owned(p) => p.b() } } }
impl<'a> Bytes for Cow<'a, OsStr> { open spec fn b(&self) -> Seq<u8> { match *self { Cow::Borrowed(p) => p.b(), Cow::Owned(p) => p.b() } } }

pub assume_specification [ <OsStr as OsStrExt>::as_bytes ] (s: &OsStr) -> (r: &[u8]) ensures r@ == s.b();
pub assume_specification [ <OsStr as OsStrExt>::from_bytes ] (s: &[u8]) -> (r: &OsStr) ensures r.b() == s@;
pub assume_specification [ <OsString as OsStringExt>::from_vec ] (v: Vec<u8>) -> (r: OsString) ensures r.b() == v@;
pub assume_specification [ Path::as_os_str ] (p: &Path) -> (r: &OsStr) ensures r.b() == p.b();
pub assume_specification [ Path::is_absolute ] (p: &Path) -> (r: bool) ensures r == is_abs(p.b());


/// `as_ref` is a function of the value
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(AsRefSpec via AsRefSpecImpl)]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    spec fn ar(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.ar();
}

// ------------------------------------------------- opaque types of libraries
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct ExChunks<'a, T: 'a>(std::slice::Chunks<'a, T>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInstant(std::time::Instant);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExSha512Trunc256(sha2::Sha512Trunc256);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExVarBlake2b(blake2::VarBlake2b);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExBlake3(blake3::Hasher);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExDir(openat::Dir);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExEntry(openat::Entry);
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(E)]
pub struct ExCpuFuture<T, E>(futures_cpupool::CpuFuture<T, E>);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExCpuPool(futures_cpupool::CpuPool);

// --------------------------------------------------------------------- input
/// Reading: `rd_data` is what is left to be read, `rd_final` is what will be
/// left when the reader is a borrow that ends (a prophecy)
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: io::Read;
    spec fn rd_data(&self) -> Seq<u8>;
    spec fn rd_final(&self) -> Seq<u8>;
    /// reading never fails (and its prophecy)
    spec fn rd_ok(&self) -> bool;
    spec fn rd_okf(&self) -> bool;
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, io::Error>)
        ensures (*final(self)).rd_final() == (*old(self)).rd_final(), (*final(self)).rd_okf() == (*old(self)).rd_okf(),
            (*final(self)).rd_ok() == (*old(self)).rd_ok(), (*old(self)).rd_ok() ==> r is Ok, (*final(buf))@.len() == (*old(buf))@.len(),
            match r {
                Ok(n) => n <= (*old(self)).rd_data().len() && n <= old(buf)@.len()
                    && (n == 0 ==> (*old(self)).rd_data().len() == 0 || old(buf)@.len() == 0)
                    && (*final(self)).rd_data() == (*old(self)).rd_data().skip(n as int)
                    && (*final(buf))@ == (*old(self)).rd_data().take(n as int) + (*old(buf))@.skip(n as int),
                Err(_) => (*final(self)).rd_data() == (*old(self)).rd_data(),
            },
            sk_all(&*final(self)) == sk_all(&*old(self)), sk_ok(&*final(self)) == sk_ok(&*old(self)), sk_ok(&*old(self)) ==> r is Ok;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), io::Error>)
        ensures (*final(self)).rd_final() == (*old(self)).rd_final(), (*final(self)).rd_okf() == (*old(self)).rd_okf(),
            (*final(self)).rd_ok() == (*old(self)).rd_ok(), (*final(buf))@.len() == (*old(buf))@.len(),
            (*old(self)).rd_ok() || sk_ok(&*old(self)) ==> (r is Ok) == ((*old(self)).rd_data().len() >= old(buf)@.len()),
            r is Ok ==> (*old(self)).rd_data().len() >= old(buf)@.len()
                && (*final(self)).rd_data() == (*old(self)).rd_data().skip(old(buf)@.len() as int)
                && (*final(buf))@ == (*old(self)).rd_data().take(old(buf)@.len() as int),
            sk_all(&*final(self)) == sk_all(&*old(self)), sk_ok(&*final(self)) == sk_ok(&*old(self));
    fn by_ref(&mut self) -> (r: &mut Self) where Self: Sized
        ensures *r == *old(self), *final(r) == *final(self);
}
pub broadcast axiom fn ax_mutref_ok<R: io::Read>(m: &mut R)
    ensures #[trigger] <&mut R as ReadSpec>::rd_ok(&m) == (*old(m)).rd_ok();
pub broadcast axiom fn ax_mutref_okf<R: io::Read>(m: &mut R)
    ensures #[trigger] <&mut R as ReadSpec>::rd_okf(&m) == (*final(m)).rd_ok();
pub broadcast axiom fn ax_mutref_data<R: io::Read>(m: &mut R)
    ensures #[trigger] <&mut R as ReadSpec>::rd_data(&m) == (*old(m)).rd_data();
pub broadcast axiom fn ax_mutref_final<R: io::Read>(m: &mut R)
    ensures #[trigger] <&mut R as ReadSpec>::rd_final(&m) == (*final(m)).rd_data();

#[verifier::external_trait_specification]
pub trait ExBufRead: io::Read {
    type ExternalTraitSpecificationFor: io::BufRead;
    fn read_until(&mut self, byte: u8, buf: &mut Vec<u8>) -> (r: Result<usize, io::Error>)
        ensures (*final(self)).rd_final() == (*old(self)).rd_final(), (*final(self)).rd_okf() == (*old(self)).rd_okf(),
            (*final(self)).rd_ok() == (*old(self)).rd_ok(), (*old(self)).rd_ok() ==> r is Ok,
            match r {
                Ok(n) => n == line_len((*old(self)).rd_data(), byte)
                    && (*final(buf))@ == (*old(buf))@ + (*old(self)).rd_data().take(n as int)
                    && (*final(self)).rd_data() == (*old(self)).rd_data().skip(n as int),
                Err(_) => exists|k: int| 0 <= k <= line_len((*old(self)).rd_data(), byte)
                    && (*final(buf))@ == (*old(buf))@ + #[trigger] (*old(self)).rd_data().take(k)
                    && (*final(self)).rd_data() == (*old(self)).rd_data().skip(k),
            };
}

/// Seeking: the whole content of a file, and whether no operation on it fails
pub uninterp spec fn sk_all<F: ?Sized>(f: &F) -> Seq<u8>;
pub uninterp spec fn sk_fin<F: ?Sized>(f: &F) -> Seq<u8>;
pub uninterp spec fn sk_ok<F: ?Sized>(f: &F) -> bool;
pub uninterp spec fn sk_okf<F: ?Sized>(f: &F) -> bool;
pub broadcast axiom fn ax_sk_ref<F>(m: &mut F) ensures #[trigger] sk_all::<&mut F>(&m) == sk_all(&*old(m));
pub broadcast axiom fn ax_sk_ref_fin<F>(m: &mut F) ensures #[trigger] sk_fin::<&mut F>(&m) == sk_all(&*final(m));
pub broadcast axiom fn ax_sk_ref_ok<F>(m: &mut F) ensures #[trigger] sk_ok::<&mut F>(&m) == sk_ok(&*old(m));
pub broadcast axiom fn ax_sk_ref_okf<F>(m: &mut F) ensures #[trigger] sk_okf::<&mut F>(&m) == sk_ok(&*final(m));
pub struct VpTake<R> { pub r: R, pub n: u64 }
pub fn vp_take<R: io::Read>(r: R, n: u64) -> (t: VpTake<R>) ensures t.r == r, t.n == n { VpTake { r, n } }
/// `r.take(n).read_to_end(buf)`
#[verifier::external_body]
pub fn vp_take_to_end<R: io::Read>(t: VpTake<R>, buf: &mut Vec<u8>) -> (res: Result<usize, io::Error>)
    ensures t.r.rd_okf() == t.r.rd_ok(), sk_fin(&t.r) == sk_all(&t.r), sk_okf(&t.r) == sk_ok(&t.r), sk_ok(&t.r) ==> res is Ok,
        ({
            let m = imin(t.n as int, t.r.rd_data().len() as int);
            res is Ok ==> res->Ok_0 == m && (*final(buf))@ == (*old(buf))@ + t.r.rd_data().take(m) && t.r.rd_final() == t.r.rd_data().skip(m)
        })
{ let VpTake { r, n } = t; io::Read::read_to_end(&mut r.take(n), buf) }
#[verifier::external_type_specification] pub struct ExSeekFrom(io::SeekFrom);
/// `Seek::seek` relative to the end: before the start is an error
#[verifier::external_body]
pub fn vp_seek<F: io::Read + io::Seek>(f: &mut F, pos: io::SeekFrom) -> (res: Result<u64, io::Error>)
    ensures sk_all(&*final(f)) == sk_all(&*old(f)), sk_ok(&*final(f)) == sk_ok(&*old(f)),
        match pos {
            io::SeekFrom::End(k) => {
                let n = sk_all(&*old(f)).len();
                &&& sk_ok(&*old(f)) && n + k >= 0 ==> res is Ok
                &&& res is Ok ==> n + k >= 0 && (*final(f)).rd_data() == sk_all(&*old(f)).skip(imin(n + k, n as int))
            },
            _ => true,
        }
{ f.seek(pos) }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExErrorKind(io::ErrorKind);
#[verifier::external_body]
pub fn vp_error_kind() -> io::ErrorKind { io::ErrorKind::Other }

// -------------------------------------------------------------------- output
/// Writing: `written` is the whole output so far; `w_head` is a part at its
/// start that never changes; `w_fin` and `w_fflush` are what will have been
/// written, and whether it is flushed, when the value goes away (a prophecy)
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: io::Write;
    spec fn written(&self) -> Seq<u8>;
    spec fn w_head(&self) -> Seq<u8>;
    /// a label that never changes
    spec fn w_tag(&self) -> int;
    spec fn w_inv(&self) -> bool;
    spec fn flushed(&self) -> bool;
    #[verifier::prophetic]
    spec fn w_fin(&self) -> Seq<u8>;
    #[verifier::prophetic]
    spec fn w_fflush(&self) -> bool;
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize, io::Error>)
        requires (*old(self)).w_inv()
        ensures (*final(self)).w_inv(), (*final(self)).w_head() == (*old(self)).w_head(), (*final(self)).w_tag() == (*old(self)).w_tag(),
            (*final(self)).w_fin() == (*old(self)).w_fin(), (*final(self)).w_fflush() == (*old(self)).w_fflush(),
            match r {
                Ok(n) => n <= buf@.len() && (*final(self)).written() == (*old(self)).written() + buf@.take(n as int),
                Err(_) => (*final(self)).written() == (*old(self)).written(),
            };
    fn flush(&mut self) -> (r: Result<(), io::Error>)
        requires (*old(self)).w_inv()
        ensures (*final(self)).w_inv(), (*final(self)).w_head() == (*old(self)).w_head(), (*final(self)).w_tag() == (*old(self)).w_tag(),
            (*final(self)).w_fin() == (*old(self)).w_fin(), (*final(self)).w_fflush() == (*old(self)).w_fflush(),
            (*final(self)).written() == (*old(self)).written(), r is Ok ==> (*final(self)).flushed();
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), io::Error>)
        requires (*old(self)).w_inv()
        ensures (*final(self)).w_inv(), (*final(self)).w_head() == (*old(self)).w_head(), (*final(self)).w_tag() == (*old(self)).w_tag(),
            (*final(self)).w_fin() == (*old(self)).w_fin(), (*final(self)).w_fflush() == (*old(self)).w_fflush(),
            r is Ok ==> (*final(self)).written() == (*old(self)).written() + buf@,
            exists|k: int| 0 <= k <= buf@.len() && (*final(self)).written() == (*old(self)).written() + #[trigger] buf@.take(k);
}
pub broadcast axiom fn ax_w_ref<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::written(&m) == (*old(m)).written();
pub broadcast axiom fn ax_w_ref_head<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::w_head(&m) == (*old(m)).w_head();
pub broadcast axiom fn ax_w_ref_tag<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::w_tag(&m) == (*old(m)).w_tag();
pub broadcast axiom fn ax_w_ref_inv<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::w_inv(&m) == (*old(m)).w_inv();
pub broadcast axiom fn ax_w_ref_flushed<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::flushed(&m) == (*old(m)).flushed();
pub broadcast axiom fn ax_w_ref_fin<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::w_fin(&m) == (*final(m)).written();
pub broadcast axiom fn ax_w_ref_fflush<W: io::Write + ?Sized>(m: &mut W)
    ensures #[trigger] <&mut W as WriteSpec>::w_fflush(&m) == (*final(m)).flushed();
// `w_fin` is what was written when the value went away
pub broadcast axiom fn ax_w_end<W: io::Write>(w: W)
    ensures has_resolved(w) ==> #[trigger] w.w_fin() == w.written();
pub broadcast axiom fn ax_w_end_flush<W: io::Write>(w: W)
    ensures has_resolved(w) ==> #[trigger] w.w_fflush() == w.flushed();
pub open spec fn wt<W: io::Write + ?Sized>(w: &W) -> Seq<u8> { w.written() }
pub open spec fn whd<W: io::Write + ?Sized>(w: &W) -> Seq<u8> { w.w_head() }
pub open spec fn winv<W: io::Write + ?Sized>(w: &W) -> bool { w.w_inv() }
pub open spec fn wfl<W: io::Write + ?Sized>(w: &W) -> bool { w.flushed() }
#[verifier::prophetic]
pub open spec fn wfin<W: io::Write + ?Sized>(w: &W) -> Seq<u8> { w.w_fin() }
#[verifier::prophetic]
pub open spec fn wffl<W: io::Write + ?Sized>(w: &W) -> bool { w.w_fflush() }
/// nothing but writing happened to an output
#[verifier::prophetic]
pub open spec fn wsame<W: io::Write + ?Sized>(a: &W, b: &W) -> bool {
    a.w_head() == b.w_head() && a.w_tag() == b.w_tag() && a.w_fin() == b.w_fin() && a.w_fflush() == b.w_fflush()
}

// ---------------------------------------------------------------- formatting
/// what `Display` writes for a value, what `LowerHex` writes, and what other
/// format specifications write
pub uninterp spec fn vp_disp<T: ?Sized>(x: &T) -> Seq<u8>;
pub uninterp spec fn vp_hex<T: ?Sized>(x: &T) -> Seq<u8>;
pub uninterp spec fn vp_hex02<T: ?Sized>(x: &T) -> Seq<u8>;
pub uninterp spec fn vp_fmt_other<T: ?Sized>(x: &T, f: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_disp_str<'a>(x: &&'a str) ensures #[trigger] vp_disp(x) == (*x).b();
pub broadcast axiom fn ax_disp_string(x: &String) ensures #[trigger] vp_disp(x) == x.b();
pub broadcast axiom fn ax_disp_u64(x: &u64) ensures #[trigger] vp_disp(x) == dec(*x as nat);
pub broadcast axiom fn ax_hex02(x: &u8) ensures #[trigger] vp_hex02(x) == hexbyte(*x);
// what these types' own `fmt` writes is the postcondition of that function
pub broadcast axiom fn ax_disp_name<'a>(x: &crate::v1::writer::Name<'a>) ensures #[trigger] vp_disp(x) == escape(x.0.b());
pub broadcast axiom fn ax_disp_ht(x: &crate::HashType) ensures #[trigger] vp_disp(x) == alg_name(x.0);
pub broadcast axiom fn ax_hex_out<T: crate::v1::hash::HashOutput>(x: &T) ensures #[trigger] vp_hex(x) == hex(x.hb());
pub broadcast axiom fn ax_hex_hexlified<'a>(x: &crate::v1::parser::Hexlified<'a>) ensures #[trigger] vp_hex(x) == hex(x.0@);

/// the text written so far to a formatter, and its precision
pub uninterp spec fn fw<'a>(f: &fmt::Formatter<'a>) -> Seq<u8>;
pub uninterp spec fn fprec<'a>(f: &fmt::Formatter<'a>) -> Option<usize>;
#[verifier::external_body]
pub fn vp_write_char<'a>(f: &mut fmt::Formatter<'a>, c: char) -> (r: Result<(), fmt::Error>)
    requires (c as u32) < 0x80
    ensures r is Ok ==> fw(final(f)) == fw(old(f)).push(c as u8), fprec(final(f)) == fprec(old(f))
{ fmt::Write::write_char(f, c) }
#[verifier::external_body]
pub fn vp_write_str<'a>(f: &mut fmt::Formatter<'a>, s: &str) -> (r: Result<(), fmt::Error>)
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + s.b(), fprec(final(f)) == fprec(old(f))
{ f.write_str(s) }
/// nothing but `{}`
pub uninterp spec fn fplain<'a>(f: &fmt::Formatter<'a>) -> bool;
#[verifier::external_body]
pub fn vp_str_fmt<'a>(s: &str, f: &mut fmt::Formatter<'a>) -> (r: Result<(), fmt::Error>)
    ensures fplain(old(f)) && r is Ok ==> fw(final(f)) == fw(old(f)) + s.b(), fprec(final(f)) == fprec(old(f))
{ fmt::Display::fmt(s, f) }
#[verifier::external_body]
pub fn vp_precision<'a, 'b>(f: &'b fmt::Formatter<'a>) -> (r: Option<usize>)
    ensures r == fprec(f)
{ f.precision() }
/// `write!` to a formatter, to an output and to a string: the pieces in order
#[verifier::external_body]
pub fn vp_fmt_write_fmt<'a>(f: &mut fmt::Formatter<'a>, s: Ghost<Seq<u8>>) -> (r: Result<(), fmt::Error>)
    ensures r is Ok ==> fw(final(f)) == fw(old(f)) + s@, fprec(final(f)) == fprec(old(f))
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_string_write_fmt(w: &mut String, s: Ghost<Seq<u8>>) -> (r: Result<(), fmt::Error>)
    ensures r is Ok, (*final(w)).b() == (*old(w)).b() + s@
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_io_write_fmt<W: io::Write + ?Sized>(w: &mut W, s: Ghost<Seq<u8>>) -> (r: Result<(), io::Error>)
    requires (*old(w)).w_inv()
    ensures (*final(w)).w_inv(), (*final(w)).w_head() == (*old(w)).w_head(), (*final(w)).w_tag() == (*old(w)).w_tag(),
        (*final(w)).w_fin() == (*old(w)).w_fin(), (*final(w)).w_fflush() == (*old(w)).w_fflush(),
        r is Ok ==> (*final(w)).written() == (*old(w)).written() + s@,
        exists|k: int| 0 <= k <= s@.len() && (*final(w)).written() == (*old(w)).written() + #[trigger] s@.take(k)
{ unimplemented!() }
/// `str::from_utf8_unchecked` is only safe for UTF-8
pub assume_specification [ std::str::from_utf8_unchecked ] (s: &[u8]) -> (r: &str)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] < 0x80
    ensures r.b() == s@;

/// an operand of a bit operation, a byte or a reference to a byte (R13)
pub trait VpByte: Copy {
    spec fn sv(&self) -> u8;
    fn vp_sv(self) -> (r: u8) ensures r == self.sv();
}
impl VpByte for u8 {
    open spec fn sv(&self) -> u8 { *self }
    fn vp_sv(self) -> (r: u8) { self }
}
impl<'a> VpByte for &'a u8 {
    open spec fn sv(&self) -> u8 { **self }
    fn vp_sv(self) -> (r: u8) { *self }
}
pub fn vp_byte<T: VpByte>(x: T) -> (r: u8) ensures r == x.sv() { x.vp_sv() }

/// `Iterator::enumerate`
pub struct VpEnum<I> { pub it: I, pub n: usize }
pub fn vp_enumerate<I: Iterator>(it: I) -> (r: VpEnum<I>) ensures r.it == it, r.n == 0 { VpEnum { it, n: 0 } }
impl<I: Iterator> Iterator for VpEnum<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        proof { ax_count(self.n); }
        match self.it.next() {
            None => None,
            Some(x) => {
                let i = self.n;
                self.n = self.n + 1;
                Some((i, x))
            }
        }
    }
}
impl<I: Iterator> vstd::std_specs::iter::IteratorSpecImpl for VpEnum<I> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { self.it.obeys_prophetic_iter_laws() }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<(usize, I::Item)> {
        let r = self.it.remaining();
        let n = self.n;
        Seq::new(r.len(), |i: int| ((n + i) as usize, r[i]))
    }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { self.it.will_return_none() }
    open spec fn decrease(&self) -> Option<nat> { self.it.decrease() }
    open spec fn peek(&self, i: int) -> Option<(usize, I::Item)> { None }
}

// ------------------------------------------------------------------- digests
/// the digest of a byte string
pub uninterp spec fn dg(a: crate::HashTypeEnum, data: Seq<u8>) -> Seq<u8>;
pub broadcast axiom fn ax_dg_len(a: crate::HashTypeEnum, data: Seq<u8>) ensures #[trigger] dg(a, data).len() == 32;
/// a clone of a hasher has absorbed the same bytes
pub broadcast axiom fn ax_clone_hash<H: crate::v1::hash::Hash>(a: H, b: H)
    ensures #[trigger] call_ensures(H::clone, (&a,), b) ==> b.written() == a.written() && b.w_inv() == a.w_inv() && b.w_head() == a.w_head();
/// the hashers of the crates sha2, blake2 and blake3
pub broadcast axiom fn ax_sha_inv(h: &sha2::Sha512Trunc256) ensures #[trigger] h.w_inv();
pub broadcast axiom fn ax_b2_inv(h: &blake2::VarBlake2b) ensures #[trigger] h.w_inv();
pub broadcast axiom fn ax_b3_inv(h: &blake3::Hasher) ensures #[trigger] h.w_inv();
#[verifier::external_body]
pub fn vp_sha_new() -> (r: sha2::Sha512Trunc256) ensures r.written() == Seq::<u8>::empty() { Default::default() }
#[verifier::external_body]
pub fn vp_sha_update(h: &mut sha2::Sha512Trunc256, data: &[u8])
    ensures (*final(h)).written() == (*old(h)).written() + data@
{ digest::Update::update(h, data) }
/// `finalize_into_dirty` leaves a hasher that must be reset before it is used again
#[verifier::external_body]
pub fn vp_sha_final(h: &mut sha2::Sha512Trunc256, out: &mut [u8; 32])
    ensures (*final(out))@ == dg(crate::HashTypeEnum::Sha512_256, (*old(h)).written())
{ let mut g = generic_array::GenericArray::default(); digest::FixedOutputDirty::finalize_into_dirty(h, &mut g); out.copy_from_slice(&g) }
#[verifier::external_body]
pub fn vp_sha_reset(h: &mut sha2::Sha512Trunc256)
    ensures (*final(h)).written() == Seq::<u8>::empty()
{ digest::Reset::reset(h) }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExInvalidOutputSize(digest::InvalidOutputSize);
#[verifier::external_body]
pub fn vp_b2_new(n: usize) -> (r: Result<blake2::VarBlake2b, digest::InvalidOutputSize>)
    ensures n == 32 ==> r is Ok && r->Ok_0.written() == Seq::<u8>::empty()
{ digest::VariableOutput::new(n) }
#[verifier::external_body]
pub fn vp_b2_update(h: &mut blake2::VarBlake2b, data: &[u8])
    ensures (*final(h)).written() == (*old(h)).written() + data@
{ digest::Update::update(h, data) }
#[verifier::external_body]
pub fn vp_finalize_variable_reset(h: &mut blake2::VarBlake2b) -> (r: [u8; 32])
    ensures (*final(h)).written() == Seq::<u8>::empty(), r@ == dg(crate::HashTypeEnum::Blake2b_256, (*old(h)).written())
{ let mut r = [0u8; 32]; digest::VariableOutput::finalize_variable_reset(h, |d| r.copy_from_slice(d)); r }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExB3Hash(blake3::Hash);
pub uninterp spec fn b3h(h: &blake3::Hash) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_b3_new() -> (r: blake3::Hasher) ensures r.written() == Seq::<u8>::empty() { blake3::Hasher::new() }
#[verifier::external_body]
pub fn vp_b3_update(h: &mut blake3::Hasher, data: &[u8])
    ensures (*final(h)).written() == (*old(h)).written() + data@
{ h.update(data); }
#[verifier::external_body]
pub fn vp_b3_reset(h: &mut blake3::Hasher)
    ensures (*final(h)).written() == Seq::<u8>::empty()
{ h.reset(); }
#[verifier::external_body]
pub fn vp_b3_finalize(h: &blake3::Hasher) -> (r: blake3::Hash)
    ensures b3h(&r) == dg(crate::HashTypeEnum::Blake3_256, h.written())
{ h.finalize() }
#[verifier::external_body]
pub fn vp_b3_bytes(h: &blake3::Hash) -> (r: &[u8; 32])
    ensures r@ == b3h(h)
{ h.as_bytes() }
#[verifier::external_body]
pub fn vp_b3_hex(h: blake3::Hash) -> (r: String)
    ensures r.b() == hex(b3h(&h))
{ h.to_hex().as_str().to_string() }

// --------------------------------------------------------------- file system
/// The file system as the scan sees it: it does not change while it is scanned
pub uninterp spec fn fs_data(d: &openat::Dir, name: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn fs_size(d: &openat::Dir, name: Seq<u8>) -> nat;
/// a size has 64 bits
pub broadcast axiom fn ax_fs_size(d: &openat::Dir, name: Seq<u8>) ensures #[trigger] fs_size(d, name) <= u64::MAX;
pub uninterp spec fn fs_mode(d: &openat::Dir, name: Seq<u8>) -> u32;
pub uninterp spec fn fs_link(d: &openat::Dir, name: Seq<u8>) -> Seq<u8>;
/// the names in a directory, without "." and ".."; what they are (symlinks are not followed); the subdirectory of the name
pub uninterp spec fn fs_has(d: &openat::Dir, name: Seq<u8>) -> bool;
pub uninterp spec fn fs_kind(d: &openat::Dir, name: Seq<u8>) -> openat::SimpleType;
pub uninterp spec fn fs_sub(d: &openat::Dir, name: Seq<u8>) -> openat::Dir;
/// the directory at a path
pub uninterp spec fn fs_open(path: Seq<u8>) -> openat::Dir;
pub broadcast axiom fn ax_fs_name(d: &openat::Dir, name: Seq<u8>) ensures #[trigger] fs_has(d, name) ==> is_name(name);
#[verifier::external_type_specification] pub struct ExSimpleType(openat::SimpleType);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExOMetadata(openat::Metadata);
/// the kind that the listing of a directory tells, if it tells it
pub uninterp spec fn ekind(e: &openat::Entry) -> Option<openat::SimpleType>;
pub uninterp spec fn om_kind(m: &openat::Metadata) -> openat::SimpleType;
pub assume_specification [ openat::Entry::simple_type ] (e: &openat::Entry) -> (r: Option<openat::SimpleType>) ensures r == ekind(e);
pub assume_specification [ openat::Metadata::simple_type ] (m: &openat::Metadata) -> (r: openat::SimpleType) ensures r == om_kind(m);
pub assume_specification [ openat::Dir::recover_path ] (d: &openat::Dir) -> (r: Result<PathBuf, io::Error>);
impl Bytes for openat::Entry { open spec fn b(&self) -> Seq<u8> { ename(self) } }
#[verifier::external_body]
pub fn vp_dir_open<P: Bytes + ?Sized>(p: &P) -> (r: Result<openat::Dir, io::Error>)
    ensures r is Ok ==> r->Ok_0 == fs_open(p.b())
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_sub_dir<P: Bytes + ?Sized>(d: &openat::Dir, p: &P) -> (r: Result<openat::Dir, io::Error>)
    ensures r is Ok ==> r->Ok_0 == sub_of(d, p.b())
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_metadata<P: Bytes + ?Sized>(d: &openat::Dir, p: &P) -> (r: Result<openat::Metadata, io::Error>)
    ensures r is Ok ==> om_kind(&r->Ok_0) == fs_kind(d, p.b())
{ unimplemented!() }
pub open spec fn list_name(s: Seq<Result<openat::Entry, io::Error>>, i: int) -> Seq<u8> { ename(&s[i]->Ok_0) }
pub open spec fn list_names(s: Seq<Result<openat::Entry, io::Error>>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| list_name(s, i)) }
/// a listing of a directory, in any order: names once each, and all of them when nothing fails
#[verifier::opaque]
pub open spec fn is_listing(d: &openat::Dir, s: Seq<Result<openat::Entry, io::Error>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok ==> fs_has(d, list_name(s, i)) && (ekind(&s[i]->Ok_0) is Some ==> ekind(&s[i]->Ok_0)->Some_0 == fs_kind(d, list_name(s, i)))
    &&& forall|i: int, j: int| 0 <= i < j < s.len() && (#[trigger] s[i]) is Ok && (#[trigger] s[j]) is Ok ==> list_name(s, i) != list_name(s, j)
    &&& (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) ==> forall|k: Seq<u8>| #[trigger] fs_has(d, k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Ok && list_name(s, i) == k
}
#[verifier::external_body]
pub fn vp_list_dir<P: Bytes + ?Sized>(d: &openat::Dir, p: &P) -> (r: Result<VpItems<Result<openat::Entry, io::Error>>, io::Error>)
    ensures r is Ok ==> is_listing(&sub_of(d, p.b()), items_left(&r->Ok_0))
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_list_self(d: &openat::Dir) -> (r: Result<VpItems<Result<openat::Entry, io::Error>>, io::Error>)
    ensures r is Ok ==> is_listing(d, items_left(&r->Ok_0))
{ unimplemented!() }
/// what stands for a name of a directory
pub trait VpItem { spec fn it(&self) -> Item; }
impl VpItem for (Arc<openat::Dir>, openat::Entry, bool) { open spec fn it(&self) -> Item { Item { d: *self.0, name: ename(&self.1), link: self.2 } } }
impl VpItem for (Arc<openat::Dir>, openat::Entry) { open spec fn it(&self) -> Item { Item { d: *self.0, name: ename(&self.1), link: false } } }
#[verifier::opaque]
pub open spec fn its<T: VpItem>(s: Seq<T>) -> Seq<Item> { Seq::new(s.len(), |i: int| s[i].it()) }
pub broadcast proof fn its_push<T: VpItem>(s: Seq<T>, x: T)
    ensures #[trigger] its(s.push(x)) == its(s).push(x.it())
{ reveal(its); assert(its(s.push(x)) =~= its(s).push(x.it())); }
pub broadcast proof fn its_len<T: VpItem>(s: Seq<T>)
    ensures #![trigger its(s)] its(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] its(s)[i] == s[i].it()
{ reveal(its); }
/// the directories that pairs of a directory and a name stand for
#[verifier::opaque]
pub open spec fn dirs_of(s: Seq<(Arc<openat::Dir>, PathBuf)>) -> Seq<openat::Dir> { Seq::new(s.len(), |i: int| sub_of(&*s[i].0, s[i].1.b())) }
pub broadcast proof fn dirs_len(s: Seq<(Arc<openat::Dir>, PathBuf)>)
    ensures #![trigger dirs_of(s)] dirs_of(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] dirs_of(s)[i] == sub_of(&*s[i].0, s[i].1.b())
{ reveal(dirs_of); }
/// `slice::sort_by`, stable, by the names
#[verifier::external_body]
pub fn vp_sort_by<T: VpItem, F: Fn(&T, &T) -> Ordering>(v: &mut Vec<T>, f: F)
    requires forall|a: &T, b: &T| #[trigger] call_requires(f, (a, b)),
        (forall|a: &T, b: &T, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> o == bcmp(a.it().name, b.it().name))
            || (forall|a: &T, b: &T, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> o == bcmp(b.it().name, a.it().name)),
    ensures final(v)@.len() == old(v)@.len(), forall|k: Seq<u8>| #[trigger] of_name(its(final(v)@), k) == of_name(its(old(v)@), k),
        (forall|a: &T, b: &T, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> o == bcmp(a.it().name, b.it().name)) ==> ascending(its(final(v)@)),
        (forall|a: &T, b: &T, o: Ordering| #[trigger] call_ensures(f, (a, b), o) ==> o == bcmp(b.it().name, a.it().name)) ==> descending(its(final(v)@)),
{ unimplemented!() }
/// the name of a directory entry
pub uninterp spec fn ename(e: &openat::Entry) -> Seq<u8>;
pub assume_specification [ openat::Entry::file_name ] (e: &openat::Entry) -> (r: &OsStr) ensures r.b() == ename(e);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExFile(std::fs::File);
/// what the file at a path holds, and whether reading it never fails
pub uninterp spec fn fs_file(path: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn fs_file_ok(path: Seq<u8>) -> bool;
pub assume_specification<P: AsRef<Path>> [ std::fs::File::open ] (p: P) -> (r: Result<std::fs::File, io::Error>)
    ensures r matches Ok(f) ==> f.rd_data() == fs_file(p.ar().b()) && f.rd_ok() == fs_file_ok(p.ar().b());
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);
#[verifier::external_body]
pub fn vp_bufreader<R: io::Read>(f: R) -> (r: std::io::BufReader<R>)
    ensures r.rd_data() == f.rd_data(), r.rd_ok() == f.rd_ok()
{ std::io::BufReader::new(f) }
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExMetadata(std::fs::Metadata);
#[verifier::external_type_specification] #[verifier::external_body] pub struct ExPermissions(std::fs::Permissions);
/// size and mode of an open file
pub uninterp spec fn f_size(f: &std::fs::File) -> nat;
pub uninterp spec fn f_mode(f: &std::fs::File) -> u32;
pub uninterp spec fn m_size(m: &std::fs::Metadata) -> nat;
pub uninterp spec fn m_mode(m: &std::fs::Metadata) -> u32;
pub uninterp spec fn p_mode(p: &std::fs::Permissions) -> u32;
#[verifier::external_body]
pub fn vp_open_file(d: &openat::Dir, e: &openat::Entry) -> (r: Result<std::fs::File, io::Error>)
    ensures r is Ok ==> r->Ok_0.rd_data() == fs_data(d, ename(e)) && f_size(&r->Ok_0) == fs_size(d, ename(e)) && f_mode(&r->Ok_0) == fs_mode(d, ename(e))
{ d.open_file(e) }
#[verifier::external_body]
pub fn vp_read_link(d: &openat::Dir, e: &openat::Entry) -> (r: Result<PathBuf, io::Error>)
    ensures r is Ok ==> r->Ok_0.b() == fs_link(d, ename(e))
{ d.read_link(e) }
pub assume_specification [ std::fs::File::metadata ] (f: &std::fs::File) -> (r: Result<std::fs::Metadata, io::Error>)
    ensures r is Ok ==> m_size(&r->Ok_0) == f_size(f) && m_mode(&r->Ok_0) == f_mode(f);
pub assume_specification [ std::fs::Metadata::len ] (m: &std::fs::Metadata) -> (r: u64) ensures r == m_size(m), r < 0x0400_0000_0000_0000; // files are smaller than 256 PiB
pub assume_specification [ std::fs::Metadata::permissions ] (m: &std::fs::Metadata) -> (r: std::fs::Permissions) ensures p_mode(&r) == m_mode(m);
pub assume_specification [ <std::fs::Permissions as std::os::unix::fs::PermissionsExt>::mode ] (p: &std::fs::Permissions) -> (r: u32) ensures r == p_mode(p);

/// `io::copy(&mut r.take(n), w)`
#[verifier::external_body]
pub fn vp_copy_take<R: io::Read, W: io::Write + ?Sized>(r: R, n: u64, w: &mut W) -> (res: Result<u64, io::Error>)
    requires (*old(w)).w_inv()
    ensures (*final(w)).w_inv(), (*final(w)).w_head() == (*old(w)).w_head(), (*final(w)).w_tag() == (*old(w)).w_tag(),
        (*final(w)).w_fin() == (*old(w)).w_fin(), (*final(w)).w_fflush() == (*old(w)).w_fflush(),
        r.rd_okf() == r.rd_ok(),
        match res {
            Ok(m) => m == imin(n as int, r.rd_data().len() as int)
                && (*final(w)).written() == (*old(w)).written() + r.rd_data().take(m as int)
                && r.rd_final() == r.rd_data().skip(m as int),
            Err(_) => true,
        }
{ io::copy(&mut r.take(n), w) }

// ---------------------------------------------------------------------- time
pub assume_specification [std::time::Instant::now] () -> std::time::Instant;
pub assume_specification [std::time::Instant::duration_since] (a: &std::time::Instant, b: std::time::Instant) -> std::time::Duration;
pub assume_specification [std::time::Duration::from_millis] (a: u64) -> std::time::Duration;
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String)
    ensures r.b() == Seq::<u8>::empty();

// ------------------------------------------------------------------- threads
/// the value a future of a thread pool will have
pub uninterp spec fn fut_val<T, E>(f: &futures_cpupool::CpuFuture<T, E>) -> Result<T, E>;
#[verifier::external_body]
pub fn vp_pool_new(n: usize) -> futures_cpupool::CpuPool { futures_cpupool::CpuPool::new(n) }
/// `CpuPool::spawn_fn`: the value of the future is what the function returns
#[verifier::external_body]
pub fn vp_spawn_fn<T, E, F: FnOnce() -> Result<T, E>>(p: &futures_cpupool::CpuPool, f: F) -> (r: futures_cpupool::CpuFuture<T, E>)
    requires f.requires(())
    ensures f.ensures((), fut_val(&r))
{ unimplemented!() }
/// `Future::wait`
#[verifier::external_body]
pub fn vp_wait<T, E>(f: futures_cpupool::CpuFuture<T, E>) -> (r: Result<T, E>)
    ensures r == fut_val(&f)
{ unimplemented!() }
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(F)]
pub struct ExSpawn<F: ?Sized>(futures::executor::Spawn<F>);
#[verifier::external_type_specification] #[verifier::reject_recursive_types(T)]
pub struct ExAsync<T>(futures::Async<T>);
pub uninterp spec fn task_val<'a, T, E>(s: &futures::executor::Spawn<&'a mut futures_cpupool::CpuFuture<T, E>>) -> Result<T, E>;
/// `executor::spawn` and `poll_future_notify`: polling does not change the value
#[verifier::external_body]
pub fn vp_task<'a, T, E>(f: &'a mut futures_cpupool::CpuFuture<T, E>) -> (r: futures::executor::Spawn<&'a mut futures_cpupool::CpuFuture<T, E>>)
    ensures task_val(&r) == fut_val(&*old(f)), fut_val(&*final(f)) == fut_val(&*old(f))
{ futures::executor::spawn(f) }
#[verifier::external_body]
pub fn vp_poll_notify<'a, 'b, T, E, N>(s: &'b mut futures::executor::Spawn<&'a mut futures_cpupool::CpuFuture<T, E>>, n: N, id: usize)
    -> (r: Result<futures::Async<T>, E>)
    ensures match r {
        Ok(futures::Async::Ready(v)) => task_val(&*old(s)) == Ok::<T, E>(v),
        Ok(futures::Async::NotReady) => true,
        Err(e) => task_val(&*old(s)) == Err::<T, E>(e),
    }
{ unimplemented!() }

pub broadcast axiom fn ax_ar_path(p: &Path) ensures #[trigger] <Path as AsRefSpec<Path>>::ar(p) == p;
pub broadcast axiom fn ax_ar_pathbuf(p: &PathBuf) ensures (#[trigger] <PathBuf as AsRefSpec<Path>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_cow_path<'a>(p: &Cow<'a, Path>) ensures (#[trigger] <Cow<'a, Path> as AsRefSpec<Path>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_osstr(p: &OsStr) ensures (#[trigger] <OsStr as AsRefSpec<OsStr>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_osstr_path(p: &OsStr) ensures (#[trigger] <OsStr as AsRefSpec<Path>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_osstring(p: &OsString) ensures (#[trigger] <OsString as AsRefSpec<OsStr>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_cow_osstr<'a>(p: &Cow<'a, OsStr>) ensures (#[trigger] <Cow<'a, OsStr> as AsRefSpec<OsStr>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_arr<const N: usize>(p: &[u8; N]) ensures (#[trigger] <[u8; N] as AsRefSpec<[u8]>>::ar(p))@ == p@;
pub broadcast axiom fn ax_ar_str_path(p: &str) ensures (#[trigger] <str as AsRefSpec<Path>>::ar(p)).b() == p.b();
pub broadcast axiom fn ax_ar_str_osstr(p: &str) ensures (#[trigger] <str as AsRefSpec<OsStr>>::ar(p)).b() == p.b();
/// `&T: AsRef<U>` goes through the reference
pub broadcast axiom fn ax_ar_ref_path<T: AsRef<Path> + ?Sized>(p: &T) ensures #[trigger] <&T as AsRefSpec<Path>>::ar(&p) == p.ar();

pub assume_specification<S: AsRef<OsStr> + ?Sized> [ Path::new ] (s: &S) -> (r: &Path) ensures r.b() == <S as AsRefSpec<OsStr>>::ar(s).b();
pub assume_specification<P: AsRef<Path>> [ Path::join ] (p: &Path, q: P) -> (r: PathBuf) ensures r.b() == join(p.b(), q.ar().b());
pub assume_specification [ Path::to_path_buf ] (p: &Path) -> (r: PathBuf) ensures r.b() == p.b();
pub assume_specification [ PathBuf::new ] () -> (r: PathBuf) ensures r.b() == Seq::<u8>::empty();
pub assume_specification [ <PathBuf as Clone>::clone ] (p: &PathBuf) -> (r: PathBuf) ensures r.b() == p.b();
pub assume_specification [ <PathBuf as std::ops::Deref>::deref ] (p: &PathBuf) -> (r: &Path) ensures r.b() == p.b();
pub uninterp spec fn cow_deref<'a, 'b, B: ?Sized + ToOwned>(c: &'b Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + ToOwned> [ <Cow<'a, B> as std::ops::Deref>::deref ] (c: &'b Cow<'a, B>) -> (r: &'b B) ensures r == cow_deref(c);
pub broadcast axiom fn ax_cow_path<'a, 'b>(c: &'b Cow<'a, Path>) ensures (#[trigger] cow_deref(c)).b() == c.b();
pub assume_specification<'a, T: AsRef<OsStr> + ?Sized> [ <PathBuf as From<&'a T>>::from ] (p: &T) -> (r: PathBuf) ensures r.b() == <T as AsRefSpec<OsStr>>::ar(p).b();
pub broadcast axiom fn ax_osstr_eq_str<'x, 'y>(a: &'x OsStr, b: &'y str)
    ensures <&'x OsStr as PartialEqSpec<&'y str>>::obeys_eq_spec(), #[trigger] <&'x OsStr as PartialEqSpec<&'y str>>::eq_spec(&a, &b) == (a.b() == b.b());

pub broadcast axiom fn ax_obeys_osstr<'x, 'y>(a: &'x OsStr)
    ensures #![trigger a.b()] <&'x OsStr as PartialEqSpec<&'y str>>::obeys_eq_spec(), <OsStr as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_osstr_eq_str1(a: &OsStr, b: &str)
    ensures #[trigger] <OsStr as PartialEqSpec<str>>::eq_spec(a, b) == (a.b() == b.b());

pub assume_specification [ Path::parent ] (p: &Path) -> (r: Option<&Path>)
    ensures is_abs(p.b()) ==> match r {
        None => comps(p.b()).len() == 0,
        Some(q) => comps(p.b()).len() > 0 && is_abs(q.b()) && comps(q.b()) == comps(p.b()).drop_last(),
    };
pub assume_specification [ Path::file_name ] (p: &Path) -> (r: Option<&OsStr>)
    ensures is_abs(p.b()) ==> match r {
        None => comps(p.b()).len() == 0 || is_dotdot(comps(p.b()).last()),
        Some(q) => comps(p.b()).len() > 0 && !is_dotdot(comps(p.b()).last()) && q.b() == comps(p.b()).last(),
    };
/// `Path` compares by components and `OsStr` by bytes
pub broadcast axiom fn ax_obeys_path(a: &Path)
    ensures #![trigger a.b()] <Path as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_path_cmp(a: &Path, b: &Path)
    ensures is_abs(a.b()) && is_abs(b.b()) ==> #[trigger] <Path as OrdSpec>::cmp_spec(a, b) == ccmp(comps(a.b()), comps(b.b()));
/// paths are equal when their components are
pub broadcast axiom fn ax_obeys_path_eq(a: &PathBuf)
    ensures #![trigger a.b()] <PathBuf as PartialEqSpec<Path>>::obeys_eq_spec(), <PathBuf as PartialEqSpec<PathBuf>>::obeys_eq_spec(), <&PathBuf as PartialEqSpec<&Path>>::obeys_eq_spec();
pub broadcast axiom fn ax_path_eq_ref<'x, 'y>(a: &'x PathBuf, b: &'y Path)
    ensures is_abs(b.b()) ==> #[trigger] <&'x PathBuf as PartialEqSpec<&'y Path>>::eq_spec(&a, &b) == (is_abs(a.b()) && comps(a.b()) == comps(b.b()));
pub broadcast axiom fn ax_path_eq(a: &PathBuf, b: &Path)
    ensures is_abs(b.b()) ==> #[trigger] <PathBuf as PartialEqSpec<Path>>::eq_spec(a, b) == (is_abs(a.b()) && comps(a.b()) == comps(b.b()));
pub broadcast axiom fn ax_pathbuf_eq(a: &PathBuf, b: &PathBuf)
    ensures is_abs(b.b()) ==> #[trigger] <PathBuf as PartialEqSpec<PathBuf>>::eq_spec(a, b) == (is_abs(a.b()) && comps(a.b()) == comps(b.b()));
pub broadcast axiom fn ax_obeys_osstr_cmp(a: &OsStr)
    ensures #![trigger a.b()] <OsStr as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_osstr_cmp(a: &OsStr, b: &OsStr)
    ensures #[trigger] <OsStr as OrdSpec>::cmp_spec(a, b) == bcmp(a.b(), b.b());

// -------------------------------------------------------------------- slices
pub broadcast axiom fn ax_obeys_arr<'x, 'y, const N: usize>(b: &'y [u8; N])
    ensures #![trigger b@] <&'x [u8] as PartialEqSpec<&'y [u8; N]>>::obeys_eq_spec(), <[u8] as PartialEqSpec<[u8; N]>>::obeys_eq_spec();
pub broadcast axiom fn ax_obeys_sl<'x, 'y>(b: &'y [u8])
    ensures #![trigger b@] <&'x [u8] as PartialEqSpec<&'y [u8]>>::obeys_eq_spec(), <[u8] as PartialEqSpec<[u8]>>::obeys_eq_spec();
pub broadcast axiom fn ax_eq_arr1<const N: usize>(a: &[u8], b: &[u8; N])
    ensures #[trigger] <[u8] as PartialEqSpec<[u8; N]>>::eq_spec(a, b) == (a@ =~= b@);
pub broadcast axiom fn ax_eq_sl1(a: &[u8], b: &[u8])
    ensures #[trigger] <[u8] as PartialEqSpec<[u8]>>::eq_spec(a, b) == (a@ =~= b@);
pub uninterp spec fn vp_contains<T>(s: Seq<T>, x: T) -> bool;
pub broadcast axiom fn ax_contains(s: Seq<u8>, x: u8) ensures #[trigger] vp_contains(s, x) == s.contains(x);
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures r == vp_contains(s@, *x);
pub broadcast axiom fn ax_eq_arr<'x, 'y, const N: usize>(a: &'x [u8], b: &'y [u8; N])
    ensures <&'x [u8] as PartialEqSpec<&'y [u8; N]>>::obeys_eq_spec(), #[trigger] <&'x [u8] as PartialEqSpec<&'y [u8; N]>>::eq_spec(&a, &b) == (a@ =~= b@);
pub broadcast axiom fn ax_eq_sl<'x, 'y>(a: &'x [u8], b: &'y [u8])
    ensures <&'x [u8] as PartialEqSpec<&'y [u8]>>::obeys_eq_spec(), #[trigger] <&'x [u8] as PartialEqSpec<&'y [u8]>>::eq_spec(&a, &b) == (a@ =~= b@);

/// position of the first element for which the predicate is true
pub open spec fn first_pos(n: int, p: spec_fn(int) -> bool, k: int) -> bool {
    0 <= k <= n && (forall|i: int| 0 <= i < k ==> !#[trigger] p(i)) && (k < n ==> p(k))
}
#[verifier::external_type_specification] #[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(P)]
pub struct ExSplitN<'a, T: 'a, P: FnMut(&T) -> bool>(std::slice::SplitN<'a, T, P>);
pub assume_specification<'a, T, F: FnMut(&T) -> bool> [<[T]>::splitn] (s: &'a [T], n: usize, f: F) -> (r: std::slice::SplitN<'a, T, F>)
    requires forall|x: &T| f.requires((x,)), n == 2
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        exists|k: int| 0 <= k <= s@.len()
            && (forall|i: int| 0 <= i < k ==> f.ensures((&#[trigger] s@[i],), false))
            && (k < s@.len() ==> f.ensures((&s@[k],), true))
            && r.remaining().len() == (if k < s@.len() { 2int } else { 1 })
            && (#[trigger] r.remaining()[0])@ == s@.take(k)
            && (k < s@.len() ==> r.remaining()[1]@ == s@.skip(k + 1));

pub open spec fn nchunks(len: int, n: int) -> int { (len + n - 1) / n }
pub assume_specification<T> [<[T]>::chunks] (s: &[T], n: usize) -> (r: std::slice::Chunks<'_, T>)
    requires n > 0
    ensures r.obeys_prophetic_iter_laws(), r.will_return_none(), r.decrease() is Some,
        r.remaining().len() == nchunks(s@.len() as int, n as int),
        forall|i: int| 0 <= i < r.remaining().len() ==> (#[trigger] r.remaining()[i])@ == s@.subrange(i * n, imin((i + 1) * n, s@.len() as int));

pub uninterp spec fn vp_min<T>(a: T, b: T) -> T;
pub uninterp spec fn vp_max<T>(a: T, b: T) -> T;
pub assume_specification<T: Ord + core::marker::Destruct> [ core::cmp::min ] (a: T, b: T) -> (r: T) ensures r == vp_min(a, b);
pub assume_specification<T: Ord + core::marker::Destruct> [ core::cmp::max ] (a: T, b: T) -> (r: T) ensures r == vp_max(a, b);
pub broadcast axiom fn ax_min_usize(a: usize, b: usize) ensures #[trigger] vp_min(a, b) == (if a <= b { a } else { b });
pub broadcast axiom fn ax_min_u64(a: u64, b: u64) ensures #[trigger] vp_min(a, b) == (if a <= b { a } else { b });
pub broadcast axiom fn ax_max_usize(a: usize, b: usize) ensures #[trigger] vp_max(a, b) == (if a >= b { a } else { b });
pub broadcast axiom fn ax_max_u64(a: u64, b: u64) ensures #[trigger] vp_max(a, b) == (if a >= b { a } else { b });

/// (an index to look at)
pub open spec fn vp_at(i: int) -> bool { true }
/// `Iterator::position`
#[verifier::external_body]
pub fn vp_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: I, f: F) -> (r: Option<usize>)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,))
    ensures match r {
        Some(k) => k < usize::MAX && k < it.remaining().len() && f.ensures((it.remaining()[k as int],), true)
            && (forall|i: int| #![trigger it.remaining()[i]] #![trigger vp_at(i)] 0 <= i < k ==> f.ensures((it.remaining()[i],), false)),
        None => forall|i: int| #![trigger it.remaining()[i]] #![trigger vp_at(i)] 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), false),
    }
{ let mut it = it; it.position(f) }
/// `any` and `all`
#[verifier::external_body]
pub fn vp_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: I, f: F) -> (r: bool)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,))
    ensures r ==> exists|i: int| 0 <= i < it.remaining().len() && f.ensures((#[trigger] it.remaining()[i],), true),
        !r ==> forall|i: int| #![trigger it.remaining()[i]] #![trigger vp_at(i)] 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), false)
{ let mut it = it; it.any(f) }
#[verifier::external_body]
pub fn vp_every<I: Iterator, F: FnMut(I::Item) -> bool>(it: I, f: F) -> (r: bool)
    requires it.obeys_prophetic_iter_laws(), it.decrease() is Some, forall|x: I::Item| f.requires((x,))
    ensures !r ==> exists|i: int| 0 <= i < it.remaining().len() && f.ensures((#[trigger] it.remaining()[i],), false),
        r ==> forall|i: int| #![trigger it.remaining()[i]] #![trigger vp_at(i)] 0 <= i < it.remaining().len() ==> f.ensures((it.remaining()[i],), true)
{ let mut it = it; it.all(f) }
#[verifier::external_body]
pub fn vp_kind_error(k: io::ErrorKind) -> io::Error { k.into() }
/// `Vec::extend` with a slice
#[verifier::external_body]
pub fn vp_extend(v: &mut Vec<u8>, s: &[u8])
    ensures (*final(v))@ == (*old(v))@ + s@
{ v.extend(s) }

// ------------------------------------------------------------------- strings
/// a string is its characters
pub axiom fn ax_str_ext(a: &str, b: &str) ensures a@ == b@ ==> a == b;
pub assume_specification [ std::str::from_utf8 ] (s: &[u8]) -> (r: Result<&str, std::str::Utf8Error>)
    ensures r is Ok ==> r->Ok_0.b() == s@, r is Err ==> (exists|i: int| 0 <= i < s@.len() && s@[i] >= 0x80) && forall|c: Seq<char>| #[trigger] encode_utf8(c) != s@;
/// the parts that a string is split into
#[verifier::external_body]
pub struct VpStrs<'a> { it: Box<dyn Iterator<Item = &'a str> + 'a> }
pub uninterp spec fn strs_left<'a>(v: &VpStrs<'a>) -> Seq<&'a str>;
impl<'a> Iterator for VpStrs<'a> {
    type Item = &'a str;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>) { self.it.next() }
}
impl<'a> vstd::std_specs::iter::IteratorSpecImpl for VpStrs<'a> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<&'a str> { strs_left(self) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(strs_left(self).len()) }
    open spec fn peek(&self, i: int) -> Option<&'a str> { if 0 <= i < strs_left(self).len() { Some(strs_left(self)[i]) } else { None } }
}
#[verifier::external_body]
pub fn vp_split_whitespace<'a>(s: &'a str) -> (r: VpStrs<'a>)
    ensures strs_left(&r).len() == words(s@).len(), forall|i: int| 0 <= i < words(s@).len() ==> (#[trigger] strs_left(&r)[i])@ == words(s@)[i]
{ VpStrs { it: Box::new(s.split_whitespace()) } }
/// `str::splitn(2, c)` for an ASCII character
#[verifier::external_body]
pub fn vp_str_splitn<'a>(s: &'a str, n: usize, c: char) -> (r: VpStrs<'a>)
    requires n == 2, (c as u32) < 0x80
    ensures
        exists|k: int| #[trigger] split_at(s.b(), c as u8, k)
            && strs_left(&r).len() == (if k < s.b().len() { 2int } else { 1 })
            && strs_left(&r)[0].b() == s.b().take(k)
            && (k < s.b().len() ==> strs_left(&r)[1].b() == s.b().skip(k + 1))
{ VpStrs { it: Box::new(s.splitn(n, c)) } }
// ------------------------------------------------------------- collections
/// the items of a collection, in order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpItems<T> { v: std::vec::IntoIter<T> }
pub uninterp spec fn items_left<T>(v: &VpItems<T>) -> Seq<T>;
impl<T> Iterator for VpItems<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<T>) { self.v.next() }
}
impl<T> vstd::std_specs::iter::IteratorSpecImpl for VpItems<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    #[verifier::prophetic]
    open spec fn remaining(&self) -> Seq<T> { items_left(self) }
    #[verifier::prophetic]
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(items_left(self).len()) }
    open spec fn peek(&self, i: int) -> Option<T> { if 0 <= i < items_left(self).len() { Some(items_left(self)[i]) } else { None } }
}
/// `Iterator::map`, of a finite iterator
#[verifier::external_body]
pub fn vp_map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> (r: VpItems<B>)
    requires it.obeys_prophetic_iter_laws(), forall|i: int| 0 <= i < it.remaining().len() ==> call_requires(f, (#[trigger] it.remaining()[i],))
    ensures items_left(&r).len() == it.remaining().len(),
        forall|i: int| 0 <= i < items_left(&r).len() ==> call_ensures(f, (it.remaining()[i],), #[trigger] items_left(&r)[i])
{ VpItems { v: it.map(f).collect::<Vec<_>>().into_iter() } }
/// what iterating over a (finite) collection yields
pub uninterp spec fn items_of<I: IntoIterator>(c: I) -> Seq<I::Item>;
pub broadcast axiom fn ax_items_vec<T>(c: Vec<T>) ensures #[trigger] items_of(c) == c@;
pub broadcast axiom fn ax_items_ref<'a, T>(c: &'a Vec<T>)
    ensures (#[trigger] items_of(c)).len() == c@.len(), forall|i: int| 0 <= i < c@.len() ==> *(#[trigger] items_of(c)[i]) == c@[i];
#[verifier::external_body]
pub fn vp_into_iter<I: IntoIterator>(c: I) -> (r: VpItems<I::Item>)
    ensures items_left(&r) == items_of(c)
{ VpItems { v: c.into_iter().collect::<Vec<_>>().into_iter() } }
pub broadcast axiom fn ax_items_items<T>(c: VpItems<T>) ensures #[trigger] items_of(c) == items_left(&c);
/// `Itertools::group_by`: neighbours with equal keys; `cuts` are the ends of the groups, `keys` the keys of the items
#[verifier::opaque]
pub open spec fn group_ends<K: PartialEq, T>(s: Seq<T>, g: Seq<(K, VpItems<T>)>, cuts: Seq<int>, keys: Seq<K>) -> bool {
    &&& cuts.len() == g.len() + 1
    &&& cuts[0] == 0
    &&& cuts[g.len() as int] == s.len()
    &&& keys.len() == s.len()
    &&& forall|i: int| 0 <= i < g.len() ==> 0 <= #[trigger] cuts[i] < cuts[i + 1] <= s.len()
    &&& forall|i: int| 0 <= i < g.len() ==> items_left(&(#[trigger] g[i]).1) == s.subrange(cuts[i], cuts[i + 1]) && g[i].0 == keys[cuts[i]]
    &&& forall|i: int, j: int| #![trigger g[i], keys[j]] 0 <= i < g.len() && cuts[i] <= j < cuts[i + 1] ==> g[i].0.eq_spec(&keys[j])
    &&& forall|i: int| 0 <= i < g.len() - 1 ==> !((#[trigger] g[i]).0.eq_spec(&g[i + 1].0))
}
/// where the groups start, and the keys the function gave for the items (each group remembers its own)
pub uninterp spec fn gcuts<K, T>(g: Seq<(K, VpItems<T>)>) -> Seq<int>;
pub uninterp spec fn gkeys<K, T>(g: Seq<(K, VpItems<T>)>) -> Seq<K>;
#[verifier::external_body]
pub fn vp_group_by<K: PartialEq, T, F: FnMut(&T) -> K>(it: VpItems<T>, f: F) -> (r: VpItems<(K, VpItems<T>)>)
    requires forall|x: &T| #[trigger] call_requires(f, (x,))
    ensures group_ends(items_left(&it), items_left(&r), gcuts(items_left(&r)), gkeys(items_left(&r))), gkeys(items_left(&r)).len() == items_left(&it).len(),
        forall|j: int| 0 <= j < gkeys(items_left(&r)).len() ==> call_ensures(f, (&items_left(&it)[j],), #[trigger] gkeys(items_left(&r))[j])
{ unimplemented!() }
pub assume_specification<T: core::marker::Destruct, E: core::marker::Destruct> [ Result::<T, E>::unwrap_or ] (s: Result<T, E>, d: T) -> (r: T)
    ensures r == (match s { Ok(v) => v, Err(_) => d });
/// `Iterator::all`
#[verifier::external_body]
pub fn vp_all<T, F: FnMut(T) -> bool>(it: &mut VpItems<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < items_left(old(it)).len() ==> call_requires(f, (#[trigger] items_left(old(it))[i],))
    ensures r ==> forall|i: int| 0 <= i < items_left(old(it)).len() ==> call_ensures(f, (#[trigger] items_left(old(it))[i],), true),
        !r ==> exists|i: int| 0 <= i < items_left(old(it)).len() && call_ensures(f, (#[trigger] items_left(old(it))[i],), false)
{ it.all(f) }

pub broadcast axiom fn ax_obeys_str(a: &str)
    ensures #![trigger a.b()] <str as PartialEqSpec<str>>::obeys_eq_spec(), <&str as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_str_eq(a: &str, b: &str) ensures #[trigger] <str as PartialEqSpec<str>>::eq_spec(a, b) == (a.b() == b.b());
pub broadcast axiom fn ax_str_eq2<'x, 'y>(a: &'x str, b: &'y str) ensures #[trigger] <&'x str as PartialEqSpec<&'y str>>::eq_spec(&a, &b) == (a.b() == b.b());
pub assume_specification [ u64::from_str_radix ] (s: &str, radix: u32) -> (r: Result<u64, std::num::ParseIntError>)
    requires radix == 10
    ensures match r { Ok(v) => parse_dec(s.b()) == Some(v as nat), Err(_) => parse_dec(s.b()) is None };
pub assume_specification [ String::from_utf8_lossy ] (s: &[u8]) -> (r: Cow<'_, str>);

pub broadcast group fmt_axioms { ax_hex_out, ax_clone_hash }
/// `impl<T> From<T> for T`
pub broadcast axiom fn ax_from_self<T>(x: T)
    ensures #[trigger] <T as FromSpec<T>>::from_spec(x) == x;
pub broadcast axiom fn ax_obeys_from_self<T>() ensures #[trigger] <T as FromSpec<T>>::obeys_from_spec();
pub broadcast group vp_axioms { ax_from_self, ax_obeys_from_self,
    ax_sk_ref, ax_sk_ref_fin, ax_sk_ref_ok, ax_sk_ref_okf, ax_mutref_data, ax_mutref_final, ax_mutref_ok, ax_mutref_okf, ax_ar_path, ax_ar_arr, ax_ar_pathbuf, ax_ar_cow_path, ax_ar_osstr, ax_ar_osstr_path, ax_ar_osstring,
    ax_ar_cow_osstr, ax_ar_str_path, ax_ar_str_osstr, ax_ar_ref_path, ax_osstr_eq_str, ax_contains, ax_eq_arr, ax_eq_sl, ax_obeys_osstr, ax_obeys_arr, ax_obeys_sl, ax_osstr_eq_str1, ax_obeys_path, ax_path_cmp, ax_obeys_osstr_cmp, ax_osstr_cmp, ax_eq_arr1, ax_eq_sl1,
    ax_starts_with, ax_ends_with, ax_cow_path, ax_items_items, ax_fs_name, ax_obeys_path_eq, ax_path_eq, ax_path_eq_ref, ax_pathbuf_eq, ax_items_vec, ax_items_ref, ax_obeys_str, ax_str_eq, ax_str_eq2,
    ax_w_ref, ax_w_ref_head, ax_w_ref_tag, ax_w_ref_inv, ax_w_ref_flushed, ax_w_ref_fin, ax_w_ref_fflush, ax_w_end, ax_w_end_flush,
    ax_disp_str, ax_disp_string, ax_disp_u64, ax_hex02, ax_disp_name, ax_disp_ht, ax_hex_hexlified, ax_dg_len, ax_sha_inv, ax_b2_inv, ax_b3_inv, ax_min_usize, ax_min_u64, ax_max_usize, ax_max_u64,
}
pub broadcast axiom fn ax_starts_with(s: &[u8], p: &[u8])
    ensures #[trigger] vstd::std_specs::slice::spec_slice_starts_with(s, p) == (p@.len() <= s@.len() && forall|i: int| #![trigger p@[i]] #![trigger s@[i]] 0 <= i < p@.len() ==> s@[i] == p@[i]);
pub broadcast axiom fn ax_ends_with(s: &[u8], p: &[u8])
    ensures #[trigger] vstd::std_specs::slice::spec_slice_ends_with(s, p) == (p@.len() <= s@.len() && forall|i: int| #![trigger p@[i]] 0 <= i < p@.len() ==> s@[s@.len() - p@.len() + i] == p@[i]);

/// quick_error's `context` method: pairs the error with its context
pub struct VpCtx<A, E>(pub A, pub E);
pub fn vp_context<A, E>(e: E, a: A) -> (r: VpCtx<A, E>) ensures r == VpCtx(a, e) { VpCtx(a, e) }

// ---------------------------------------------------------- macro pieces
/// rows and entries are counted in 64 bits and never wrap
pub axiom fn ax_count(n: usize) ensures n < usize::MAX;
/// no stream is longer than 2^64 - 1 bytes
pub axiom fn ax_stream(s: Seq<u8>) ensures s.len() <= u64::MAX;
pub axiom fn ax_count64(n: u64) ensures n < u64::MAX;
/// evaluates and drops an argument of format! or of a log macro
#[verifier::external_body]
pub fn vp_ignore<T: ?Sized>(_t: &T) {}
/// the result of format! is not specified
#[verifier::external_body]
pub fn vp_any_string() -> String { String::new() }
/// vec![x; n]
#[verifier::external_body]
pub fn vp_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i])
{ vec![x; n] }
/// a panic in a function that states (and proves) when it may panic
#[verifier::external_body]
pub fn vp_may_panic() -> ! { panic!() }
pub fn vp_panic() -> !
    requires false
{ loop invariant false decreases 0int {} }

#[verifier::external_type_specification] #[verifier::external_body] pub struct ExStderr(std::io::Stderr);
pub assume_specification [ std::io::stderr ] () -> (r: std::io::Stderr) ensures r.w_inv();
/// the path a value stands for (`AsRef<Path>`)
pub uninterp spec fn as_path<P>(p: &P) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_as_path<P: AsRef<Path>>(p: &P) -> (r: &Path) ensures r.b() == as_path(p) { p.as_ref() }
/// a machine has fewer processors than this
#[verifier::external_body]
pub fn vp_num_cpus() -> (r: usize) ensures 0 < r < 1_000_000_000 { unimplemented!() }
/// `Iterator::take`, `skip`, `rev` and `any`, of a finite iterator
#[verifier::external_body]
pub fn vp_it_take<T>(it: VpItems<T>, n: usize) -> (r: VpItems<T>)
    ensures items_left(&r) == items_left(&it).take(if n < items_left(&it).len() { n as int } else { items_left(&it).len() as int })
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_it_skip<T>(it: VpItems<T>, n: usize) -> (r: VpItems<T>)
    ensures items_left(&r) == items_left(&it).skip(if n < items_left(&it).len() { n as int } else { items_left(&it).len() as int })
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_it_rev<T>(it: VpItems<T>) -> (r: VpItems<T>)
    ensures items_left(&r) == items_left(&it).reverse()
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_it_any<T, F: FnMut(T) -> bool>(it: &mut VpItems<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < items_left(old(it)).len() ==> call_requires(f, (#[trigger] items_left(old(it))[i],))
    ensures r ==> exists|i: int| 0 <= i < items_left(old(it)).len() && call_ensures(f, (#[trigger] items_left(old(it))[i],), true),
        !r ==> forall|i: int| 0 <= i < items_left(old(it)).len() ==> call_ensures(f, (#[trigger] items_left(old(it))[i],), false)
{ unimplemented!() }

// ---- functions of the standard library no function under contract calls
// today: a changed function may call them
pub assume_specification [ core::cmp::Ordering::is_eq ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Equal);
pub assume_specification [ core::cmp::Ordering::is_ne ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Equal);
pub assume_specification [ core::cmp::Ordering::is_lt ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Less);
pub assume_specification [ core::cmp::Ordering::is_gt ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o == core::cmp::Ordering::Greater);
pub assume_specification [ core::cmp::Ordering::is_le ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Greater);
pub assume_specification [ core::cmp::Ordering::is_ge ] (o: core::cmp::Ordering) -> (r: bool) ensures r == (o != core::cmp::Ordering::Less);
pub open spec fn ord_rev(o: core::cmp::Ordering) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal }
}
pub assume_specification [ core::cmp::Ordering::reverse ] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == ord_rev(o);
pub assume_specification [ core::cmp::Ordering::then ] (o: core::cmp::Ordering, p: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (if o == core::cmp::Ordering::Equal { p } else { o });
pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [ core::cmp::Ordering::then_with ] (o: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires o == core::cmp::Ordering::Equal ==> f.requires(()),
    ensures o != core::cmp::Ordering::Equal ==> r == o, o == core::cmp::Ordering::Equal ==> f.ensures((), r);
pub assume_specification [ <core::cmp::Ordering as PartialEq>::eq ] (o: &core::cmp::Ordering, p: &core::cmp::Ordering) -> (r: bool) ensures r == (*o == *p);
pub assume_specification<T, E> [ Option::<Result<T, E>>::transpose ] (o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E> [ Result::<Option<T>, E>::transpose ] (o: Result<Option<T>, E>) -> (r: Option<Result<T, E>>)
    ensures r == (match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
pub assume_specification<T, U: core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [ Option::<T>::map_or ] (o: Option<T>, d: U, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> r == d;
pub assume_specification<T, U, D: FnOnce() -> U + core::marker::Destruct, F: FnOnce(T) -> U + core::marker::Destruct> [ Option::<T>::map_or_else ] (o: Option<T>, d: D, f: F) -> (r: U)
    requires o is Some ==> f.requires((o->0,)), o is None ==> d.requires(()),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> d.ensures((), r);
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [ Option::<T>::is_some_and ] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> !r;
pub assume_specification<T, F: FnOnce(T) -> bool + core::marker::Destruct> [ Option::<T>::is_none_or ] (o: Option<T>, f: F) -> (r: bool)
    requires o is Some ==> f.requires((o->0,)),
    ensures o is Some ==> f.ensures((o->0,), r), o is None ==> r;
pub assume_specification<'a, T: Copy> [ Option::<&'a T>::copied ] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T: core::marker::Destruct> [ Option::<T>::or ] (o: Option<T>, p: Option<T>) -> (r: Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce() -> Option<T> + core::marker::Destruct> [ Option::<T>::or_else ] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
pub assume_specification<T> [ Option::<T>::replace ] (o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, P: FnOnce(&T) -> bool + core::marker::Destruct> [ Option::<T>::filter ] (o: Option<T>, p: P) -> (r: Option<T>)
    where T: core::marker::Destruct
    requires o is Some ==> p.requires((&o->0,)),
    ensures r is Some ==> r == o && p.ensures((&o->0,), true), o is Some && r is None ==> p.ensures((&o->0,), false);
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E> + core::marker::Destruct> [ Result::<T, E>::and_then ] (s: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires s is Ok ==> f.requires((s->Ok_0,)),
    ensures s is Ok ==> f.ensures((s->Ok_0,), r), s is Err ==> r == Err::<U, E>(s->Err_0);
pub assume_specification<T: core::marker::Destruct, E, U: core::marker::Destruct> [ Result::<T, E>::and ] (s: Result<T, E>, p: Result<U, E>) -> (r: Result<U, E>)
    where E: core::marker::Destruct
    ensures s is Ok ==> r == p, s is Err ==> r == Err::<U, E>(s->Err_0);
pub assume_specification<T, E, O, F: FnOnce(E) -> Result<T, O> + core::marker::Destruct> [ Result::<T, E>::or_else ] (s: Result<T, E>, f: F) -> (r: Result<T, O>)
    requires s is Err ==> f.requires((s->Err_0,)),
    ensures s is Err ==> f.ensures((s->Err_0,), r), s is Ok ==> r == Ok::<T, O>(s->Ok_0);
pub assume_specification<T, E, F: FnOnce(E) -> T + core::marker::Destruct> [ Result::<T, E>::unwrap_or_else ] (s: Result<T, E>, f: F) -> (r: T)
    requires s is Err ==> f.requires((s->Err_0,)),
    ensures s is Err ==> f.ensures((s->Err_0,), r), s is Ok ==> r == s->Ok_0;
pub assume_specification<T> [ <bool>::then_some ] (b: bool, t: T) -> (r: Option<T>) where T: core::marker::Destruct
    ensures r == (if b { Some(t) } else { None });
pub assume_specification<T> [ core::mem::replace ] (d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v;
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned::<T>(#[trigger] s@[i], r@[i]);
pub assume_specification<T> [ <[T]>::split_last ] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { Some((l, h)) => s@.len() > 0 && *l == s@.last() && h@ == s@.drop_last(), None => s@.len() == 0 };
pub assume_specification [ <u8>::is_ascii_digit ] (c: &u8) -> (r: bool) ensures r == (0x30 <= *c <= 0x39);
pub assume_specification [ <u8>::is_ascii_hexdigit ] (c: &u8) -> (r: bool)
    ensures r == (0x30 <= *c <= 0x39 || 0x41 <= *c <= 0x46 || 0x61 <= *c <= 0x66);
pub assume_specification [ <u8>::is_ascii_graphic ] (c: &u8) -> (r: bool) ensures r == (0x21 <= *c <= 0x7e);
pub assume_specification [ <u8>::is_ascii_whitespace ] (c: &u8) -> (r: bool)
    ensures r == (*c == 0x20 || *c == 9 || *c == 10 || *c == 12 || *c == 13);
pub assume_specification [ <u8>::is_ascii_control ] (c: &u8) -> (r: bool) ensures r == (*c < 0x20 || *c == 0x7f);
pub assume_specification [ <u8>::is_ascii_lowercase ] (c: &u8) -> (r: bool) ensures r == (0x61 <= *c <= 0x7a);
pub assume_specification [ <u8>::is_ascii_uppercase ] (c: &u8) -> (r: bool) ensures r == (0x41 <= *c <= 0x5a);
pub assume_specification [ <u64>::div_ceil ] (a: u64, b: u64) -> (r: u64)
    requires b != 0, ensures r as int == a as int / b as int + (if a as int % b as int > 0 { 1int } else { 0 });
pub assume_specification [ <u64>::overflowing_add ] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 as int == (a as int + b as int) % 0x1_0000_0000_0000_0000, r.1 == (a as int + b as int >= 0x1_0000_0000_0000_0000);
pub assume_specification<T, A: std::alloc::Allocator> [ std::collections::VecDeque::<T, A>::is_empty ] (v: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [ std::collections::VecDeque::<T, A>::front ] (v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator> [ std::collections::VecDeque::<T, A>::back ] (v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 };
} // verus!
