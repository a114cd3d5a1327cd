// Trusted contracts on the library types the encoder uses (nothing here is code of the repository).
pub mod estubs {
use vstd::prelude::*;
use crate::io::*;
use crate::stubs::{cursor_inner, unpacks};
verus! {
/// a vector is a sink in memory: what was written is its content, no write fails
pub axiom fn ax_vec_sink()
    ensures forall|v: Vec<u8>| #[trigger] v.written() == v@, forall|v: Vec<u8>| #[trigger] v.wreliable();
/// reading does not replace the buffer a Cursor was made of
pub axiom fn ax_cursor_same()
    ensures forall|c: std::io::Cursor<&mut Vec<u8>>, d: std::io::Cursor<&mut Vec<u8>>| (#[trigger] c.rid()) == (#[trigger] d.rid()) ==> *final(cursor_inner(c)) == *final(cursor_inner(d));
/// what a finished compressor has appended to its sink stands for what was written to it
pub open spec fn packs<W: std::io::Write>(algo: u8, at: W, end: W, data: Seq<u8>) -> bool {
    exists|z: Seq<u8>| #[trigger] unpacks(algo, z, data) && end.written() == at.written() + z
}
}
pub mod zstd {
    use vstd::prelude::*;
    use crate::io::*;
    use super::*;
    verus! {
    /// stands for zstd::Encoder (external)
    #[verifier::external_body]
    #[verifier::reject_recursive_types(W)]
    pub struct Encoder<'a, W> { sink: &'a mut W }
    impl<'a, W: std::io::Write> Encoder<'a, W> {
        /// its sink where it was made and where it will be given back
        pub uninterp spec fn start(&self) -> W;
        pub uninterp spec fn end(&self) -> W;
        /// the announced length
        pub uninterp spec fn pledge(&self) -> Option<u64>;
        #[verifier::external_body]
        pub fn new(writer: &'a mut W, level: i32) -> (r: Result<Self, std::io::Error>)
            ensures (*final(writer)).wreliable() == (*old(writer)).wreliable(), (*old(writer)).wreliable() ==> r.is_ok(),
                r matches Ok(e) ==> e.start() == *old(writer) && e.end() == *final(writer) && e.written().len() == 0 && e.wreliable() == (*old(writer)).wreliable() && e.pledge() is None,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set_pledged_src_size(&mut self, size: Option<u64>) -> (r: Result<(), std::io::Error>)
            ensures (*final(self)).start() == (*old(self)).start(), (*final(self)).end() == (*old(self)).end(), (*final(self)).written() == (*old(self)).written(),
                (*final(self)).wreliable() == (*old(self)).wreliable(), r.is_ok() ==> (*final(self)).pledge() == size, (*old(self)).written().len() == 0 ==> r.is_ok(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn include_contentsize(&mut self, yes: bool) -> (r: Result<(), std::io::Error>)
            ensures (*final(self)).start() == (*old(self)).start(), (*final(self)).end() == (*old(self)).end(), (*final(self)).written() == (*old(self)).written(),
                (*final(self)).wreliable() == (*old(self)).wreliable(), (*final(self)).pledge() == (*old(self)).pledge(), (*old(self)).written().len() == 0 ==> r.is_ok(),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn finish(self) -> (r: Result<&'a mut W, std::io::Error>)
            ensures r matches Ok(w) ==> packs(2, self.start(), *w, self.written()) && *final(w) == self.end(),
                self.wreliable() && (self.pledge() matches Some(n) ==> n == self.written().len()) ==> r.is_ok(),
        { unimplemented!() }
    }
    #[verifier::external]
    impl<'a, W: std::io::Write> std::io::Write for Encoder<'a, W> {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { unimplemented!() }
        fn flush(&mut self) -> std::io::Result<()> { unimplemented!() }
    }
    pub axiom fn ax_zstd_sink<'a, W: std::io::Write>()
        ensures forall|d: Encoder<'a, W>, e: Encoder<'a, W>| (#[trigger] d.wid()) == (#[trigger] e.wid()) ==> d.start() == e.start() && d.end() == e.end() && d.pledge() == e.pledge();
    }
}
pub mod brotlic {
    use vstd::prelude::*;
    use crate::io::*;
    use super::*;
    verus! {
    /// stands for brotlic::BrotliEncoderOptions (external)
    #[verifier::external_body]
    pub struct BrotliEncoderOptions { o: u8 }
    #[verifier::external_body]
    pub struct BrotliEncoder { o: u8 }
    #[verifier::external_body]
    #[derive(Debug)]
    pub struct SetParameterError { o: u8 }
    /// the options are valid and those of an ordinary, complete brotli stream (standard window, no stream offset)
    pub uninterp spec fn valid(o: BrotliEncoderOptions) -> bool;
    impl BrotliEncoderOptions {
        #[verifier::external_body]
        pub fn default() -> (r: Self) ensures valid(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn size_hint(&mut self, n: u32) ensures valid(*final(self)) == valid(*old(self)) { unimplemented!() }
        #[verifier::external_body]
        pub fn build(&self) -> (r: Result<BrotliEncoder, SetParameterError>)
            ensures valid(*self) ==> (r matches Ok(e) && ordinary(e))
        { unimplemented!() }
    }
    pub uninterp spec fn ordinary(e: BrotliEncoder) -> bool;
    impl Clone for BrotliEncoderOptions {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    /// stands for brotlic::CompressorWriter (external)
    #[verifier::external_body]
    #[verifier::reject_recursive_types(W)]
    pub struct CompressorWriter<'a, W> { sink: &'a mut W }
    impl<'a, W: std::io::Write> CompressorWriter<'a, W> {
        pub uninterp spec fn start(&self) -> W;
        pub uninterp spec fn end(&self) -> W;
        #[verifier::external_body]
        pub fn with_encoder(encoder: BrotliEncoder, writer: &'a mut W) -> (e: Self)
            requires ordinary(encoder)
            ensures (*final(writer)).wreliable() == (*old(writer)).wreliable(),
                e.start() == *old(writer) && e.end() == *final(writer) && e.written().len() == 0 && e.wreliable() == (*old(writer)).wreliable(),
        { unimplemented!() }
        /// writes the rest of the compressed data (the error converts to an io::Error)
        #[verifier::external_body]
        pub fn into_inner(self) -> (r: Result<&'a mut W, std::io::Error>)
            ensures r matches Ok(w) ==> packs(3, self.start(), *w, self.written()) && *final(w) == self.end(), self.wreliable() ==> r.is_ok(),
        { unimplemented!() }
    }
    #[verifier::external]
    impl<'a, W: std::io::Write> std::io::Write for CompressorWriter<'a, W> {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> { unimplemented!() }
        fn flush(&mut self) -> std::io::Result<()> { unimplemented!() }
    }
    pub axiom fn ax_brotli_sink<'a, W: std::io::Write>()
        ensures forall|d: CompressorWriter<'a, W>, e: CompressorWriter<'a, W>| (#[trigger] d.wid()) == (#[trigger] e.wid()) ==> d.start() == e.start() && d.end() == e.end();
    }
}
}
