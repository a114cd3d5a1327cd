// Trusted contracts on std::io (nothing here is code of the repository).
pub mod io {
use vstd::prelude::*;
verus! {

// the library is used on 64 bit targets (stated assumption)
global size_of usize == 8;

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);

#[verifier::external_type_specification]
pub struct ExSeekFrom(std::io::SeekFrom);

/// bytes `b` written over `d` at position `p`
pub open spec fn overwrite(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    d.take(p) + b + (if p + b.len() < d.len() { d.skip(p + b.len()) } else { Seq::empty() })
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: std::io::Write;
    /// every byte successfully written so far, in order
    spec fn written(&self) -> Seq<u8>;
    /// content and position of a positional sink
    spec fn wdata(&self) -> Seq<u8>;
    spec fn wpos(&self) -> int;
    /// the sink accepts every write
    spec fn wreliable(&self) -> bool;
    /// which sink it is (writing never replaces a sink by another one)
    spec fn wid(&self) -> int;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>)
        ensures
            r.is_ok() ==> (*final(self)).written() == (*old(self)).written() + buf@,
            r.is_ok() && 0 <= (*old(self)).wpos() <= (*old(self)).wdata().len() ==> {
                &&& (*final(self)).wdata() == overwrite((*old(self)).wdata(), (*old(self)).wpos(), buf@)
                &&& (*final(self)).wpos() == (*old(self)).wpos() + buf@.len()
            },
            (*old(self)).wreliable() ==> r.is_ok(),
            (*final(self)).wreliable() == (*old(self)).wreliable(),
            (*final(self)).wid() == (*old(self)).wid();
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: std::io::Read;
    /// the whole stream and the position in it
    spec fn rdata(&self) -> Seq<u8>;
    spec fn rpos(&self) -> int;
    /// reading fails only at the end of the data
    spec fn rreliable(&self) -> bool;
    /// which stream it is (reading never replaces a stream by another one)
    spec fn rid(&self) -> int;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), std::io::Error>)
        ensures
            (*final(buf))@.len() == (*old(buf))@.len(),
            (*final(self)).rdata() == (*old(self)).rdata(),
            (*final(self)).rreliable() == (*old(self)).rreliable(),
            (*final(self)).rid() == (*old(self)).rid(),
            r.is_ok() ==> {
                &&& 0 <= (*old(self)).rpos()
                &&& (*old(self)).rpos() + (*old(buf))@.len() <= (*old(self)).rdata().len() || (*old(buf))@.len() == 0
                &&& (*final(buf))@ == (*old(self)).rdata().subrange((*old(self)).rpos(), (*old(self)).rpos() + (*old(buf))@.len()) || (*old(buf))@.len() == 0
                &&& (*final(self)).rpos() == (*old(self)).rpos() + (*old(buf))@.len()
            },
            (*old(self)).rreliable() && 0 <= (*old(self)).rpos() && (*old(self)).rpos() + (*old(buf))@.len() <= (*old(self)).rdata().len() ==> r.is_ok();
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: Result<usize, std::io::Error>)
        ensures
            (*final(self)).rdata() == (*old(self)).rdata(),
            (*final(self)).rreliable() == (*old(self)).rreliable(),
            (*final(self)).rid() == (*old(self)).rid(),
            r.is_ok() ==> (*final(buf))@ == (*old(buf))@ + left((*old(self)).rdata(), (*old(self)).rpos()),
            (*old(self)).rreliable() ==> r.is_ok();
}

#[verifier::external_trait_specification]
#[verifier::external_trait_extension(SeekSpec via SeekSpecImpl)]
pub trait ExSeek {
    type ExternalTraitSpecificationFor: std::io::Seek;
    spec fn sdata(&self) -> Seq<u8>;
    spec fn spos(&self) -> int;
    spec fn sreliable(&self) -> bool;
    fn seek(&mut self, to: std::io::SeekFrom) -> (r: Result<u64, std::io::Error>)
        ensures
            (*final(self)).sdata() == (*old(self)).sdata(),
            (*final(self)).sreliable() == (*old(self)).sreliable(),
            r.is_ok() ==> (to matches std::io::SeekFrom::Start(p) ==> (*final(self)).spos() == p),
            (*old(self)).sreliable() && (to is Start) ==> r.is_ok();
    fn rewind(&mut self) -> (r: Result<(), std::io::Error>)
        ensures
            (*final(self)).sdata() == (*old(self)).sdata(),
            (*final(self)).sreliable() == (*old(self)).sreliable(),
            r.is_ok() ==> (*final(self)).spos() == 0,
            (*old(self)).sreliable() ==> r.is_ok();
}

/// positions in a stream are not negative
#[verifier::external_body]
pub proof fn ax_rpos<R: std::io::Read>(r: R)
    ensures 0 <= r.rpos()
{ }
/// a type that can be read and sought is one stream
#[verifier::external_body]
pub proof fn ax_read_seek<R: std::io::Read + std::io::Seek>(r: R)
    ensures r.rdata() == r.sdata(), r.rpos() == r.spos(), r.rreliable() == r.sreliable()
{ }
#[verifier::external_body]
pub proof fn ax_write_seek<R: std::io::Write + std::io::Seek>(r: R)
    ensures r.wdata() == r.sdata(), r.wpos() == r.spos(), r.wreliable() == r.sreliable()
{ }

// the same facts where they are needed
pub broadcast axiom fn bx_rdata<R: std::io::Read + std::io::Seek>(r: R) ensures #[trigger] r.rdata() == r.sdata();
pub broadcast axiom fn bx_rpos<R: std::io::Read + std::io::Seek>(r: R) ensures #[trigger] r.rpos() == r.spos();
pub broadcast axiom fn bx_rreliable<R: std::io::Read + std::io::Seek>(r: R) ensures #[trigger] r.rreliable() == r.sreliable();
pub broadcast axiom fn bx_wdata<R: std::io::Write + std::io::Seek>(r: R) ensures #[trigger] r.wdata() == r.sdata();
pub broadcast axiom fn bx_wpos<R: std::io::Write + std::io::Seek>(r: R) ensures #[trigger] r.wpos() == r.spos();
pub broadcast axiom fn bx_wreliable<R: std::io::Write + std::io::Seek>(r: R) ensures #[trigger] r.wreliable() == r.sreliable();
// a mutable reference to a stream is that stream
pub axiom fn bx_mut_rdata<R: std::io::Read>() ensures forall|r: &mut R| #[trigger] <&mut R as ReadSpec>::rdata(&r) == (*r).rdata();
pub axiom fn bx_mut_rpos<R: std::io::Read>() ensures forall|r: &mut R| #[trigger] <&mut R as ReadSpec>::rpos(&r) == (*r).rpos();
pub axiom fn bx_mut_rreliable<R: std::io::Read>() ensures forall|r: &mut R| #[trigger] <&mut R as ReadSpec>::rreliable(&r) == (*r).rreliable();
pub axiom fn bx_mut_rid<R: std::io::Read>() ensures forall|r: &mut R, s: &mut R| (#[trigger] <&mut R as ReadSpec>::rid(&r)) == (#[trigger] <&mut R as ReadSpec>::rid(&s)) ==> *final(r) == *final(s) && (*r).rid() == (*s).rid();
pub axiom fn bx_mut_written<R: std::io::Write>() ensures forall|r: &mut R| #[trigger] <&mut R as WriteSpec>::written(&r) == (*r).written();
pub axiom fn bx_mut_wdata<R: std::io::Write>() ensures forall|r: &mut R| #[trigger] <&mut R as WriteSpec>::wdata(&r) == (*r).wdata();
pub axiom fn bx_mut_wpos<R: std::io::Write>() ensures forall|r: &mut R| #[trigger] <&mut R as WriteSpec>::wpos(&r) == (*r).wpos();
pub axiom fn bx_mut_wreliable<R: std::io::Write>() ensures forall|r: &mut R| #[trigger] <&mut R as WriteSpec>::wreliable(&r) == (*r).wreliable();
pub axiom fn bx_mut_sdata<R: std::io::Seek>() ensures forall|r: &mut R| #[trigger] <&mut R as SeekSpec>::sdata(&r) == (*r).sdata();
pub axiom fn bx_mut_spos<R: std::io::Seek>() ensures forall|r: &mut R| #[trigger] <&mut R as SeekSpec>::spos(&r) == (*r).spos();
pub axiom fn bx_mut_sreliable<R: std::io::Seek>() ensures forall|r: &mut R| #[trigger] <&mut R as SeekSpec>::sreliable(&r) == (*r).sreliable();
pub broadcast group group_streams { bx_rdata, bx_rpos, bx_rreliable, bx_wdata, bx_wpos, bx_wreliable }

// rule G30 (units that read untrusted bytes): memory is asked for ahead of data for at most 65535 elements at a time
pub trait VpReserve<T>: View<V = Seq<T>> {
    fn vp_reserve(&mut self, n: usize)
        requires n <= 65535
        ensures final(self)@ == old(self)@;
    fn vp_resize(&mut self, n: usize, v: T) where T: Clone
        requires n <= old(self)@.len() + 65535
        ensures final(self)@.len() == n, forall|i: int| 0 <= i < n && i < old(self)@.len() ==> #[trigger] final(self)@[i] == old(self)@[i],
            forall|i: int| old(self)@.len() <= i < n ==> cloned(v, #[trigger] final(self)@[i]);
}
impl<T> VpReserve<T> for Vec<T> {
    fn vp_reserve(&mut self, n: usize) { self.reserve(n) }
    fn vp_resize(&mut self, n: usize, v: T) where T: Clone { self.resize(n, v); }
}
pub fn vp_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= 65535
    ensures r@ == Seq::<T>::empty()
{ Vec::with_capacity(n) }
pub fn vp_vec<T: Clone>(v: T, n: usize) -> (r: Vec<T>)
    requires n <= 65535
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(v, #[trigger] r@[i])
{ vec![v; n] }

/// what is left of a stream after position p
pub open spec fn left(d: Seq<u8>, p: int) -> Seq<u8> { if 0 <= p <= d.len() { d.skip(p) } else { Seq::empty() } }
pub open spec fn rem<R: std::io::Read>(r: R) -> Seq<u8> { left(r.rdata(), r.rpos()) }

pub open spec fn le16(n: u16) -> Seq<u8> { seq![(n % 256) as u8, (n / 256) as u8] }

// integer primitives of core (trusted: their documented meaning)
pub trait VpLe16: Sized {
    fn vp_to_le_bytes(self) -> [u8; 2];
    fn vp_from_le_bytes(b: [u8; 2]) -> Self;
}
impl VpLe16 for u16 {
    #[verifier::external_body]
    fn vp_to_le_bytes(self) -> (r: [u8; 2]) ensures r@ == le16(self) { u16::to_le_bytes(self) }
    #[verifier::external_body]
    fn vp_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r == b@[0] + 256 * b@[1] { u16::from_le_bytes(b) }
}
pub assume_specification [i64::unsigned_abs] (n: i64) -> (r: u64) ensures r == (if n >= 0 { n as int } else { -(n as int) });
pub assume_specification [i64::wrapping_neg] (n: i64) -> (r: i64) ensures r == (if n == i64::MIN { n as int } else { -(n as int) });

pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);
/// a Vec or slice as one mutable slice
pub trait VpMut<T> {
    spec fn vp_seq(&self) -> Seq<T>;
    fn vp_mut(&mut self) -> (r: &mut [T]) ensures r@ == (*old(self)).vp_seq(), (*final(self)).vp_seq() == final(r)@;
}
impl<T> VpMut<T> for Vec<T> {
    open spec fn vp_seq(&self) -> Seq<T> { self@ }
    fn vp_mut(&mut self) -> (r: &mut [T]) { self.as_mut_slice() }
}
impl<T> VpMut<T> for [T] {
    open spec fn vp_seq(&self) -> Seq<T> { self@ }
    fn vp_mut(&mut self) -> (r: &mut [T]) { self }
}

/// Option::get_or_insert, its result unused
pub trait VpFill<T> {
    spec fn vp_opt(&self) -> Option<T>;
    fn vp_fill(&mut self, v: T) ensures (*final(self)).vp_opt() == (if (*old(self)).vp_opt() is None { Some(v) } else { (*old(self)).vp_opt() });
}
impl<T> VpFill<T> for Option<T> {
    open spec fn vp_opt(&self) -> Option<T> { *self }
    fn vp_fill(&mut self, v: T) { if self.is_none() { *self = Some(v); } }
}

/// the value of assert!/debug_assert!: a proof obligation
pub fn vp_assert(b: bool)
    requires b
{ }
/// Whether a panic counts as a fault.  It is left undefined, so everything is proved for both: where it holds every
/// vp_guard is an obligation (freedom from panics), where it does not a panic is one way for a function to refuse.
pub uninterp spec fn vp_strict() -> bool;
/// the value of an assert! that is one of the ways a function refuses its input
#[verifier::external_body]
pub fn vp_guard(b: bool)
    requires vp_strict() ==> b
    ensures b
{ assert!(b) }

/// the iterator over an array taken by value (std::array::IntoIter)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VpArrayIter<T, const N: usize> { i: std::array::IntoIter<T, N> }
impl<T, const N: usize> VpArrayIter<T, N> {
    pub uninterp spec fn rest(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures (*old(self)).rest().len() == 0 ==> r is None && (*final(self)).rest() == (*old(self)).rest(),
            (*old(self)).rest().len() > 0 ==> r == Some((*old(self)).rest()[0]) && (*final(self)).rest() == (*old(self)).rest().skip(1),
    { self.i.next() }
}
#[verifier::external_body]
pub fn vp_array_iter<T, const N: usize>(a: [T; N]) -> (r: VpArrayIter<T, N>)
    ensures r.rest() == a@
{ VpArrayIter { i: a.into_iter() } }

#[verifier::external_body]
pub fn vp_panic() -> !
    requires false
{ panic!() }

#[verifier::external_body]
pub fn vp_error() -> (r: std::io::Error) { std::io::Error::new(std::io::ErrorKind::Other, "") }

}
}
