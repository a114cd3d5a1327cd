// Trusted contracts on the library types the decoder uses (nothing here is code of the repository).
pub mod stubs {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::{eaten, offers, same_stream};
verus! {

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct ExBufReader<R: ?Sized>(std::io::BufReader<R>);
/// a BufReader reads what is left in the reader it was made of
pub assume_specification<R: std::io::Read> [std::io::BufReader::<R>::new] (inner: R) -> (r: std::io::BufReader<R>)
    ensures r.rdata() == inner.rdata(), r.rpos() == inner.rpos(), r.rreliable() == inner.rreliable();

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ExCursor<T>(std::io::Cursor<T>);
/// the buffer a Cursor was made of and holds now
pub uninterp spec fn cursor_inner<T>(c: std::io::Cursor<T>) -> T;
pub assume_specification<T> [std::io::Cursor::<T>::new] (inner: T) -> (r: std::io::Cursor<T>)
    ensures cursor_inner(r) == inner, cursor_at_start(r);
pub assume_specification<T> [std::io::Cursor::<T>::into_inner] (c: std::io::Cursor<T>) -> (r: T)
    ensures r == cursor_inner(c);
pub uninterp spec fn cursor_at_start<T>(c: std::io::Cursor<T>) -> bool;
/// a Cursor over a vector is a stream in memory: its data is the vector, no operation on it fails
pub axiom fn ax_cursor_vec()
    ensures
        forall|c: std::io::Cursor<&mut Vec<u8>>| #![trigger c.sdata()] #![trigger c.rdata()] #![trigger c.wdata()] c.sdata() == (*cursor_inner(c))@ && c.rdata() == c.sdata() && c.wdata() == c.sdata(),
        forall|c: std::io::Cursor<&mut Vec<u8>>| #![trigger c.sreliable()] #![trigger c.rreliable()] #![trigger c.wreliable()] c.sreliable() && c.rreliable() && c.wreliable(),
        forall|c: std::io::Cursor<&mut Vec<u8>>| #![trigger c.spos()] #![trigger c.rpos()] #![trigger c.wpos()] c.rpos() == c.spos() && c.wpos() == c.spos() && (cursor_at_start(c) ==> c.spos() == 0);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExSink(std::io::Sink);
pub assume_specification [std::io::sink] () -> (r: std::io::Sink)
    ensures r.wreliable();
/// reading came to the end of what the reader gives
pub uninterp spec fn drained<R: ?Sized>(r: &R) -> bool;
/// io::copy that succeeds has read its reader to the end
pub assume_specification<R: std::io::Read + ?Sized, W: std::io::Write + ?Sized> [std::io::copy] (reader: &mut R, writer: &mut W) -> (r: Result<u64, std::io::Error>)
    ensures (*final(reader)).rdata() == (*old(reader)).rdata(), (*final(reader)).rreliable() == (*old(reader)).rreliable(), (*final(reader)).rid() == (*old(reader)).rid(),
        r.is_ok() ==> drained(&*final(reader)),
        (*old(reader)).rreliable() && (*old(writer)).wreliable() ==> r.is_ok();
pub assume_specification<T: Default> [std::mem::take] (dest: &mut T) -> (r: T)
    ensures r == *old(dest);

// ---------------------------------------------------------------- the decompressors (external libraries)
/// the compressed data s (all of it) unpacks to d, for the zstd (2) and brotli (3) formats
pub uninterp spec fn unpacks(algo: u8, s: Seq<u8>, d: Seq<u8>) -> bool;
/// compressed data is self delimiting and unpacks to one content
pub axiom fn ax_unpacks_unique(algo: u8, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, d: Seq<u8>, e: Seq<u8>)
    requires unpacks(algo, a, d), unpacks(algo, b, e), a.len() <= t.len(), b.len() <= t.len(), a == t.take(a.len() as int), b == t.take(b.len() as int)
    ensures a == b, d == e;
/// what a decompressing reader gives, when its source was `at` where it was made: if compressed data is offered there, the
/// content of it; reading fails only where there is none
pub open spec fn opens<B: std::io::Read>(algo: u8, at: B, data: Seq<u8>, reliable: bool) -> bool {
    forall|z: Seq<u8>, c: Seq<u8>| #[trigger] unpacks(algo, z, c) && offers(at, z) ==> data == c && (at.rreliable() ==> reliable)
}
/// read to the end it has taken exactly the compressed data from its source
pub open spec fn closes<B: std::io::Read>(algo: u8, at: B, end: B, data: Seq<u8>) -> bool {
    exists|z: Seq<u8>| #[trigger] unpacks(algo, z, data) && eaten(at, end, z)
}
}
pub mod ruzstd {
    use vstd::prelude::*;
    use crate::io::*;
    use crate::smdiff_common::{offers, same_stream};
    use super::*;
    verus! {
    /// stands for ruzstd::StreamingDecoder (external)
    #[verifier::external_body]
    #[verifier::reject_recursive_types(B)]
    pub struct StreamingDecoder<'a, B> { source: &'a mut B }
    #[verifier::external_body]
    pub struct FrameDecoderError { e: u8 }
    impl<'a, B: std::io::Read> StreamingDecoder<'a, B> {
        /// its source where it was made and where it will be dropped
        pub uninterp spec fn start(&self) -> B;
        pub uninterp spec fn end(&self) -> B;
        #[verifier::external_body]
        pub fn new(source: &'a mut B) -> (r: Result<Self, FrameDecoderError>)
            ensures match r {
                Ok(d) => d.start() == *old(source) && d.end() == *final(source) && d.rpos() == 0 && opens(2, *old(source), d.rdata(), d.rreliable()),
                Err(_) => (*old(source)).rreliable() ==> forall|z: Seq<u8>, c: Seq<u8>| #[trigger] unpacks(2, z, c) ==> !offers(*old(source), z),
            }, same_stream(*old(source), *final(source))
        { unimplemented!() }
    }
    #[verifier::external]
    impl<'a, B: std::io::Read> std::io::Read for StreamingDecoder<'a, B> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { unimplemented!() }
    }
    pub axiom fn ax_zstd<'a, B: std::io::Read>()
        ensures
            forall|d: StreamingDecoder<'a, B>, e: StreamingDecoder<'a, B>| (#[trigger] d.rid()) == (#[trigger] e.rid()) ==> d.start() == e.start() && d.end() == e.end(),
            forall|d: StreamingDecoder<'a, B>| #[trigger] drained(&d) ==> closes(2, d.start(), d.end(), d.rdata());
    }
}
pub mod brotlic {
    use vstd::prelude::*;
    use crate::io::*;
    use crate::smdiff_common::{offers, same_stream};
    use super::*;
    verus! {
    /// stands for brotlic::DecompressorReader (external)
    #[verifier::external_body]
    #[verifier::reject_recursive_types(B)]
    pub struct DecompressorReader<'a, B> { source: &'a mut B }
    impl<'a, B: std::io::Read> DecompressorReader<'a, B> {
        pub uninterp spec fn start(&self) -> B;
        pub uninterp spec fn end(&self) -> B;
        #[verifier::external_body]
        pub fn new(source: &'a mut B) -> (d: Self)
            ensures d.start() == *old(source), d.end() == *final(source), d.rpos() == 0, opens(3, *old(source), d.rdata(), d.rreliable()), same_stream(*old(source), *final(source))
        { unimplemented!() }
        /// fails unless the end of the compressed data was seen (the error converts to an io::Error)
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: Result<&'a mut B, std::io::Error>)
            ensures r.is_ok() ==> drained(&self), drained(&self) && self.rreliable() ==> r.is_ok(),
        { unimplemented!() }
    }
    #[verifier::external]
    impl<'a, B: std::io::Read> std::io::Read for DecompressorReader<'a, B> {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> { unimplemented!() }
    }
    pub axiom fn ax_brotli<'a, B: std::io::Read>()
        ensures
            forall|d: DecompressorReader<'a, B>, e: DecompressorReader<'a, B>| (#[trigger] d.rid()) == (#[trigger] e.rid()) ==> d.start() == e.start() && d.end() == e.end(),
            forall|d: DecompressorReader<'a, B>| #[trigger] drained(&d) ==> closes(3, d.start(), d.end(), d.rdata());
    }
}
}
