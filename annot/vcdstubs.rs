// Trusted contracts on the VCDIFF libraries the converter uses, vcdiff-common 1.0.0 and vcdiff-reader 1.0.0 (nothing here is code of the repository).
pub mod vcdiff_common {
use vstd::prelude::*;
verus! {
#[derive(Copy, Clone, Debug, PartialEq, Eq, Structural)]
pub enum WinIndicator { Neither, VCD_SOURCE, VCD_TARGET }
pub struct DeltaIndicator(pub u8);
pub struct WindowSummary {
    pub win_start_pos: u64,
    pub win_indicator: WinIndicator,
    pub source_segment_size: Option<u64>,
    pub source_segment_position: Option<u64>,
    pub length_of_the_delta_encoding: u64,
    pub size_of_the_target_window: u64,
    pub delta_indicator: DeltaIndicator,
    pub length_of_data_for_adds_and_runs: u64,
    pub length_of_instructions_and_sizes: u64,
    pub length_of_addresses_for_copys: u64,
}
pub enum Inst { Add(ADD), Copy(COPY), Run(RUN) }
pub struct ADD { pub len: u32, pub p_pos: u64 }
#[derive(Copy, Clone)]
pub enum CopyType { CopyS, CopyT { inst_u_pos_start: u32 }, CopyQ { len_o: u32 } }
pub struct COPY { pub len: u32, pub u_pos: u32, pub copy_type: CopyType }
impl COPY {
    pub fn len_in_u(&self) -> (r: u32) ensures r == self.len { self.len }
    pub fn len_in_o(&self) -> (r: u32) ensures r == (match self.copy_type { CopyType::CopyQ { len_o } => len_o, _ => self.len }) { match self.copy_type { CopyType::CopyQ { len_o } => len_o, _ => self.len } }
}
pub struct RUN { pub len: u32, pub byte: u8 }
}
}
pub mod vcdiff_reader {
use vstd::prelude::*;
use std::io::{Read, Seek};
use crate::io::*;
use crate::vcdiff_common::*;
verus! {
pub enum VCDiffReadMsg { WindowSummary(WindowSummary), Inst { first: Inst, second: Option<Inst> }, EndOfWindow, EndOfFile }
/// the messages the library decodes from a file, up to its end, if it decodes it
pub uninterp spec fn vcd_script(file: Seq<u8>) -> Option<Seq<VCDiffReadMsg>>;
pub axiom fn ax_script(file: Seq<u8>) ensures vcd_script(file) matches Some(m) ==> forall|i: int| 0 <= i < m.len() ==> !(#[trigger] m[i] is EndOfFile);
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct VCDReader<R> { source: R }
impl<R: Read + Seek> VCDReader<R> {
    pub uninterp spec fn file(&self) -> Seq<u8>;
    /// how many messages were given out
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn reliable(&self) -> bool;
    #[verifier::external_body]
    pub fn new(source: R) -> (r: Result<Self, std::io::Error>)
        requires vcd_script(source.rdata()) is Some
        ensures r matches Ok(v) ==> v.file() == source.rdata() && v.at() == 0 && v.reliable() == source.rreliable(), source.rreliable() ==> r.is_ok()
    { unimplemented!() }
    /// the next message, for a file that it decodes
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<VCDiffReadMsg, std::io::Error>)
        requires vcd_script((*old(self)).file()) is Some
        ensures
            (*final(self)).file() == (*old(self)).file(), (*final(self)).reliable() == (*old(self)).reliable(),
            (*old(self)).reliable() ==> r.is_ok(),
            (*old(self)).reliable() && r.is_ok() && 0 <= (*old(self)).at() ==> ({
                let m = vcd_script((*old(self)).file())->0;
                if (*old(self)).at() < m.len() { r->Ok_0 == m[(*old(self)).at()] && (*final(self)).at() == (*old(self)).at() + 1 } else { r->Ok_0 is EndOfFile && (*final(self)).at() == (*old(self)).at() }
            }),
    { unimplemented!() }
    /// the file at a position; reading from it does not disturb the messages
    #[verifier::external_body]
    pub fn get_reader(&mut self, at_from_start: u64) -> (r: Result<&mut R, std::io::Error>)
        ensures
            (*old(self)).reliable() ==> r.is_ok(),
            r matches Ok(q) ==> (*q).rdata() == (*old(self)).file() && (*q).rpos() == at_from_start && (*q).rreliable() == (*old(self)).reliable()
                && ((*final(q)).rdata() == (*q).rdata() && (*final(q)).rreliable() == (*q).rreliable() && (*final(q)).rid() == (*q).rid()
                    ==> (*final(self)).file() == (*old(self)).file() && (*final(self)).at() == (*old(self)).at() && (*final(self)).reliable() == (*old(self)).reliable()),
    { unimplemented!() }
}
}
}
