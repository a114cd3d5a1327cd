// The encoder as a whole: writing a section with secondary compression, encoding a patch (C01, C02, C08, C12).
pub mod smdiff_encoder {
use vstd::prelude::*;
use std::io::{Read, Seek, Write};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::smdiff_writer::*;
use crate::sections::*;
use crate::format::*;
use crate::patch::*;
use crate::op_lemmas::*;
use crate::stubs::*;
use crate::estubs::*;
use crate::reader::{packed, is_csec, is_csec_at, is_data, stands_for, holds_body};
use crate::th_sections::real_adds;
use crate::inner::*;
use crate::inner::Op;
use crate::op_maker::*;
use crate::encoder;
use crate::encoder::*;
use crate::src_matcher::*;
use crate::trgt_matcher::*;
use crate::ranger::*;
verus! {

//@item smdiff-encoder/src/lib.rs enum SecondaryCompression
enum SecondaryCompression {
    Smdiff(TrgtMatcherConfig),
    Zstd{level:i32},
    Brotli{options: /*~ext| ::brotlic::BrotliEncoderOptions |~*/ crate::estubs::brotlic::BrotliEncoderOptions /*~*/},
}
//@end
//@item smdiff-encoder/src/lib.rs struct EncoderConfig
struct EncoderConfig {
    match_src: Option<SrcMatcherConfig>,
    match_trgt: Option<TrgtMatcherConfig>,
    sec_comp: Option<SecondaryCompression>,
    format: Format,
    output_segment_size: usize,
    naive_tests: Option<LargerTrgtNaiveTests>,
    lazy_escape_len: Option<usize>,
}
//@end
// the derived Clone (it copies every field)
impl Clone for SecondaryCompression {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for EncoderConfig {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the options the secondary compression is claimed for
pub open spec fn comp_ok(c: Option<SecondaryCompression>) -> bool {
    match c { Some(SecondaryCompression::Smdiff(t)) => trgt_config_ok(t), Some(SecondaryCompression::Brotli { options }) => crate::estubs::brotlic::valid(options), _ => true }
}
pub open spec fn algo_of(c: Option<SecondaryCompression>) -> u8 {
    match c { None => 0, Some(SecondaryCompression::Smdiff(t)) => 1, Some(SecondaryCompression::Zstd { level }) => 2, Some(SecondaryCompression::Brotli { options }) => 3 }
}
/// the configurations the encoder is claimed for
pub open spec fn config_ok(c: EncoderConfig) -> bool {
    (c.match_trgt matches Some(t) ==> trgt_config_ok(t)) && (c.match_src matches Some(s) ==> src_config_ok(s)) && comp_ok(c.sec_comp)
}
/// the header as it is written: with the compression method, and with the real number of add bytes
pub open spec fn written_head<A: AddOp>(h: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<smdiff_common::Op<A>>) -> SHead {
    SHead { algo: algo_of(c), ..real_adds(h, ops) }
}

impl SecondaryCompression {
//@item smdiff-encoder/src/lib.rs impl SecondaryCompression / fn new_smdiff_default
    fn new_smdiff_default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures comp_ok(Some(r)) /*-*/ {
        SecondaryCompression::Smdiff (TrgtMatcherConfig::comp_level(3))
    }
//@end
//@item smdiff-encoder/src/lib.rs impl SecondaryCompression / fn new_zstd_default
    fn new_zstd_default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures comp_ok(Some(r)) /*-*/ {
        SecondaryCompression::Zstd { level: 3 }
    }
//@end
//@item smdiff-encoder/src/lib.rs impl SecondaryCompression / fn new_brotli_default
    fn new_brotli_default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures comp_ok(Some(r)) /*-*/ {
        SecondaryCompression::Brotli { options: /*~ext| ::brotlic::BrotliEncoderOptions |~*/ crate::estubs::brotlic::BrotliEncoderOptions /*~*/ ::default() }
    }
//@end
//@item smdiff-encoder/src/lib.rs impl SecondaryCompression / fn algo_value
    fn algo_value(&self) -> /*+*/ (r: /*-*/ u8 /*+*/) ensures r == algo_of(Some(*self)) /*-*/ {
        match self {
            SecondaryCompression::Smdiff { .. } => 1,
            SecondaryCompression::Zstd { .. } => 2,
            SecondaryCompression::Brotli { .. } => 3,
        }
    }
//@end
}
impl EncoderConfig {
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn new
    fn new() -> /*+*/ (r: /*-*/ Self /*+*/) ensures config_ok(r) /*-*/ {
        Self::default()
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn no_match_target
    fn no_match_target(self) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { match_trgt: None, ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.match_trgt = None;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn no_sec_comp
    fn no_sec_comp(self) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { sec_comp: None, ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.sec_comp = None;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_match_src
    fn set_match_src(self, config: SrcMatcherConfig) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { match_src: Some(config), ..self }), config_ok(self) && src_config_ok(config) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.match_src = Some(config);
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_sec_comp
    fn set_sec_comp(self, sec_comp: SecondaryCompression) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { sec_comp: Some(sec_comp), ..self }), config_ok(self) && comp_ok(Some(sec_comp)) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.sec_comp = Some(sec_comp);
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn format_interleaved
    fn format_interleaved(self) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { format: Format::Interleaved, ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.format = Format::Interleaved;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn format_segregated
    fn format_segregated(self) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { format: Format::Segregated, ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.format = Format::Segregated;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_output_segment_size
    fn set_output_segment_size(self, size: usize) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { output_segment_size: size, ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.output_segment_size = size;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_naive_tests
    fn set_naive_tests(self, tests: LargerTrgtNaiveTests) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { naive_tests: Some(tests), ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.naive_tests = Some(tests);
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_lazy_escape_len
    fn set_lazy_escape_len(self, len: usize) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { lazy_escape_len: Some(len), ..self }), config_ok(self) ==> config_ok(r) /*-*/ {
        let mut vp_self = self;
        vp_self.lazy_escape_len = Some(len);
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn comp_level
    fn comp_level(level: usize,match_trgt:bool,sec_comp:Option<SecondaryCompression>) -> /*+*/ (r: /*-*/ Self /*+*/)
        requires comp_ok(sec_comp), level <= 9
        ensures config_ok(r), r.sec_comp == sec_comp, r.match_trgt is Some == match_trgt, r.match_src is Some /*-*/ {
        let match_trgt = if match_trgt {
            Some(TrgtMatcherConfig::comp_level(level))
        }else{
            None
        };
        let format = if sec_comp.is_some() {
            Format::Segregated
        }else{
            Format::Interleaved
        };
        Self {
            match_src: Some(SrcMatcherConfig::comp_level(level)),
            output_segment_size: MAX_WIN_SIZE,
            format,
            match_trgt,
            sec_comp,
            naive_tests: None,
            lazy_escape_len: None
        }
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn no_match_src
    fn no_match_src(self) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { match_src: None, ..self }) /*-*/ {
        let mut vp_self = self;
        vp_self.match_src = None;
        vp_self
    }
//@end
//@item smdiff-encoder/src/lib.rs impl EncoderConfig / fn set_match_target
    fn set_match_target(self, config: TrgtMatcherConfig) -> /*+*/ (r: /*-*/ Self /*+*/) ensures r == (EncoderConfig { match_trgt: Some(config), ..self }) /*-*/ {
        let mut vp_self = self;
        vp_self.match_trgt = Some(config);
        vp_self
    }
//@end
}
impl Default for EncoderConfig {
//@item smdiff-encoder/src/lib.rs impl Default for EncoderConfig / fn default !trait_member
    fn default() -> /*+*/ (r: /*-*/ Self /*+*/) ensures config_ok(r), r.sec_comp is None, r.match_trgt is None, r.output_segment_size == 16777215 /*-*/ {
        Self {
            match_src: Some(SrcMatcherConfig::comp_level(3)),
            output_segment_size: MAX_WIN_SIZE,
            format: Format::Interleaved,
            match_trgt: None,
            sec_comp: None,
            naive_tests: None,
            lazy_escape_len: None
        }
    }
//@end
}

// ---------------------------------------------------------------- lemmas
proof fn lemma_op_len(s: Seq<u8>, o: SOp, d: u64, oo: u64, inter: bool)
    requires is_op(s, o, d, oo, inter)
    ensures s.len() <= 13 + slen(o)
{ let k = choose|k: int| #[trigger] is_op_at(s, k, o, d, oo, inter); assert(s =~= s.take(k) + s.skip(k)); assert(s.take(k).len() <= 3); }
proof fn lemma_ops_len(s: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires is_ops(s, ops, inter)
    ensures s.len() <= 13 * ops.len() + total(ops)
    decreases ops.len()
{
    if ops.len() > 0 {
        let k = lemma_ops_split(s, ops, inter);
        lemma_ops_len(s.take(k), ops.drop_last(), inter);
        lemma_op_len(s.skip(k), ops.last(), last_addr(ops.drop_last(), true), last_addr(ops.drop_last(), false), inter);
    }
}
proof fn lemma_body_len(s: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires is_body(s, ops, inter)
    ensures s.len() <= 13 * ops.len() + 2 * total(ops)
{
    let k = choose|k: int| #[trigger] is_body_at(s, k, ops, inter);
    lemma_ops_len(s.take(k), ops, inter);
    lemma_adds_bound(ops);
    assert(s =~= s.take(k) + s.skip(k));
}
/// a header and section data make a section
pub proof fn lemma_csec_intro<A: AddOp>(hb: Seq<u8>, z: Seq<u8>, d: Seq<u8>, header: SectionHeader, ops: Seq<smdiff_common::Op<A>>)
    requires is_head(hb, shead(header)), describes(header, ops), is_body(d, sops(ops), header.format is Interleaved), stands_for(header.compression_algo, z, d)
    ensures is_csec(hb + z, real_adds(header, ops), sops(ops)), header.compression_algo == 0 ==> is_section(hb + z, real_adds(header, ops), sops(ops))
{
    let h = real_adds(header, ops);
    let (a, b) = choose|a: int, b: int| is_head_at(hb, a, b, shead(header));
    lemma_total_bound(sops(ops));
    assert(is_head_at(hb, a, b, h));
    let w = hb + z;
    assert(w.take(hb.len() as int) =~= hb);
    assert(w.skip(hb.len() as int) =~= z);
    assert(prefix(d, d)) by { assert(d =~= d.take(d.len() as int)); }
    assert(holds_body(h.algo, d, sops(ops), !h.seg));
    assert(is_data(h.algo, z, sops(ops), !h.seg));
    assert(is_csec_at(w, hb.len() as int, h, sops(ops)));
    if h.algo == 0 { assert(is_section_at(w, hb.len() as int, h, sops(ops))); }
}

/// s holds the operations as a section, written with the compression c
pub open spec fn sec_written<A: AddOp>(s: Seq<u8>, h: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<smdiff_common::Op<A>>) -> bool {
    is_csec(s, written_head(h, c, ops), sops(ops)) && (c is None ==> is_section(s, written_head(h, c, ops), sops(ops)))
}
pub open spec fn sec_appended<A: AddOp, W: Write>(w0: W, w1: W, h: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<smdiff_common::Op<A>>) -> bool {
    exists|s: Seq<u8>| #[trigger] sec_written(s, h, c, ops) && w1.written() == w0.written() + s
}
pub proof fn lemma_sec_done<A: AddOp, W: Write>(w0: W, w2: W, hb: Seq<u8>, z: Seq<u8>, d: Seq<u8>, h0: SectionHeader, header: SectionHeader, c: Option<SecondaryCompression>, ops: Seq<smdiff_common::Op<A>>)
    requires header == (SectionHeader { compression_algo: algo_of(c), ..h0 }), is_head(hb, shead(header)), describes(header, ops), is_body(d, sops(ops), header.format is Interleaved),
        stands_for(header.compression_algo, z, d), w2.written() == w0.written() + hb + z
    ensures sec_appended(w0, w2, h0, c, ops)
{
    lemma_csec_intro(hb, z, d, header, ops);
    assert(real_adds(header, ops) == written_head(h0, c, ops));
    assert(sec_written(hb + z, h0, c, ops));
    assert(w0.written() + hb + z =~= w0.written() + (hb + z));
}

//@item smdiff-encoder/src/writer.rs fn section_writer
fn section_writer<W:Write,A:AddOp>(
    sec_comp: &Option<SecondaryCompression>,
    mut header: smdiff_common::SectionHeader,
    writer: &mut W,
    seg_ops: &[smdiff_common::Op<A>],
    mut sec_data_buffer: &mut Vec<u8>)
-> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires
        sec_comp is Some ==> (*old(sec_data_buffer))@.len() == 0,
        header.compression_algo == 0, comp_ok(*sec_comp),
        vp_strict() ==> ops_ok(sops(seg_ops@)),
        seg_ops@.len() <= 100_000_000,
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        r.is_ok() ==> describes(header, seg_ops@),
        r.is_ok() ==> sec_appended(*old(writer), *final(writer), header, *sec_comp, seg_ops@),
        r.is_ok() && sec_comp is Some ==> (*final(sec_data_buffer))@.len() == 0,
        (*old(writer)).wreliable() && describes(header, seg_ops@) ==> r.is_ok(),
    decreases (if sec_comp is Some { 2int } else { 0int })
/*-*/ {
    /*+*/ hide(is_body); hide(is_head); hide(is_csec); hide(total); hide(adds); hide(stands_for);
    let ghost h0 = header; let ghost w0 = *writer; let ghost ops = sops(seg_ops@); let ghost inter = header.format is Interleaved; proof { ax_vec_sink(); ax_cursor_vec(); ax_cursor_same(); lemma_adds_bound(ops); } /*-*/
    Ok(if sec_comp.is_some() {
        let comp = sec_comp.clone().unwrap();
        header.compression_algo = comp.algo_value();
        /*+*/ let ghost dsc = describes(h0, seg_ops@); assert(dsc == describes(header, seg_ops@)); /*-*/
        write_section_header(&header, writer)?;
        /*+*/ let ghost w1 = *writer; let ghost hb = choose|s: Seq<u8>| is_head(s, shead(header)) && w1.written() == #[trigger] (w0.written() + s); let ghost b0 = *sec_data_buffer; /*-*/
        write_ops(seg_ops,&header,sec_data_buffer)?;
        /*+*/ let ghost d = choose|s: Seq<u8>| is_body(s, ops, inter) && (*sec_data_buffer).written() == #[trigger] (b0.written() + s);
        proof {
            assert((*sec_data_buffer)@ == (*sec_data_buffer).written()); assert(b0.written() == b0@); assert((*sec_data_buffer)@ =~= d);
            lemma_body_len(d, ops, inter);
        } /*-*/
        match comp{
            SecondaryCompression::Smdiff (config) => {
                let mut crsr = std::io::Cursor::new(sec_data_buffer);
                /*+*/ let ghost c0 = crsr; proof { assert(left(c0.rdata(), 0) =~= d); } /*-*/
                let inner_config = EncoderConfig::default().no_match_src().set_match_target(config);
                encode(None, &mut crsr, writer, &inner_config)?;
                /*+*/ proof {
                    let (s, secs) = choose|s: Seq<u8>, secs: Seq<Sec>| #[trigger] encoded(s, secs, inner_config, None, d) && (*writer).written() == w1.written() + s;
                    reveal(stands_for); assert(stands_for(1, s, d));
                    lemma_sec_done(w0, *writer, hb, s, d, h0, header, *sec_comp, seg_ops@);
                } /*-*/
                sec_data_buffer = crsr.into_inner();
            },
            SecondaryCompression::Zstd { level } => {
                /*+*/ proof { crate::estubs::zstd::ax_zstd_sink::<W>(); } /*-*/
                let mut a = /*~ext| ::zstd::Encoder |~*/ crate::estubs::zstd::Encoder /*~*/ ::new(writer, level)?;
                a.set_pledged_src_size(Some(sec_data_buffer.len() as u64))?;
                a.include_contentsize(true)?;
                /*+*/ let ghost a0 = a; /*-*/
                a.write_all(&*sec_data_buffer)?;
                /*+*/ proof { assert(a.written() =~= d); } /*-*/
                a.finish()?;
                /*+*/ proof {
                    assert(packs(2, w1, *writer, d));
                    let z = choose|z: Seq<u8>| #[trigger] unpacks(2, z, d) && (*writer).written() == w1.written() + z;
                    reveal(stands_for); assert(stands_for(2, z, d));
                    lemma_sec_done(w0, *writer, hb, z, d, h0, header, *sec_comp, seg_ops@);
                } /*-*/
            },
            SecondaryCompression::Brotli { mut options }=> {
                /*+*/ proof { crate::estubs::brotlic::ax_brotli_sink::<W>(); } /*-*/
                options.size_hint(sec_data_buffer.len() as u32);
                let mut a = /*~ext| ::brotlic::CompressorWriter |~*/ crate::estubs::brotlic::CompressorWriter /*~*/ ::with_encoder(options.build().unwrap(), writer);
                a.write_all(&*sec_data_buffer)?;
                /*+*/ proof { assert(a.written() =~= d); } /*-*/
                a.into_inner()?;
                /*+*/ proof {
                    assert(packs(3, w1, *writer, d));
                    let z = choose|z: Seq<u8>| #[trigger] unpacks(3, z, d) && (*writer).written() == w1.written() + z;
                    reveal(stands_for); assert(stands_for(3, z, d));
                    lemma_sec_done(w0, *writer, hb, z, d, h0, header, *sec_comp, seg_ops@);
                } /*-*/
            },
        }
        sec_data_buffer.clear();
    }else{
        write_section_header(&header, writer)?;
        /*+*/ let ghost w1 = *writer; let ghost hb = choose|s: Seq<u8>| is_head(s, shead(header)) && w1.written() == #[trigger] (w0.written() + s); /*-*/
        write_ops(seg_ops,&header,writer)?;
        /*+*/ proof {
            let d = choose|s: Seq<u8>| is_body(s, ops, inter) && (*writer).written() == #[trigger] (w1.written() + s);
            reveal(stands_for); assert(stands_for(0, d, d));
            lemma_sec_done(w0, *writer, hb, d, d, h0, header, *sec_comp, seg_ops@);
        } () /*-*/
    })
}
//@end

// ---------------------------------------------------------------- whole patches
/// the section has the requested layout, compression and size
pub open spec fn sec_fits(x: Sec, c: EncoderConfig) -> bool { x.h.size <= section_limit(c.output_segment_size) && x.h.seg == (c.format is Segregated) && x.h.algo == algo_of(c.sec_comp) && totals_ok(x.h, x.ops) }
/// s is a patch with these sections, as configured
pub open spec fn laid_out(s: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig) -> bool {
    &&& is_patch(packed(), s, secs) && (c.sec_comp is None ==> is_patch(plain(), s, secs))
    &&& forall|i: int| 0 <= i < secs.len() ==> sec_fits(#[trigger] secs[i], c)
}
/// s is a patch with these sections that produces t from the source d, as configured
pub open spec fn encoded(s: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, d: Option<Seq<u8>>, t: Seq<u8>) -> bool {
    laid_out(s, secs, c) && run_ops(flat_ops(secs), d, Seq::empty()) == Some(t) && neat(flat_ops(secs))
}
pub open spec fn dict_rem<R: Read>(dict: Option<&mut R>) -> Option<Seq<u8>> { match dict { Some(r) => Some(rem(*r)), None => None } }
pub open spec fn dict_reliable<R: Read>(dict: Option<&mut R>) -> bool { dict matches Some(r) ==> (*r).rreliable() }
pub open spec fn real_src(d: Option<Seq<u8>>) -> Seq<u8> { match d { Some(s) => s, None => Seq::empty() } }

pub proof fn lemma_joined<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int)
    requires 0 <= k <= v.len()
    ensures
        ({ let n = joined(v.take(k)).len(); n <= joined(v).len() && joined(v.take(k)) == joined(v).take(n as int) }),
        k < v.len() ==> ({ let n = joined(v.take(k)).len() as int; joined(v.take(k + 1)) == joined(v.take(k)) + v[k].0@ && n + v[k].0@.len() <= joined(v).len() && v[k].0@ == joined(v).subrange(n, n + v[k].0@.len()) }),
    decreases v.len() - k
{
    if k == v.len() { assert(v.take(k) =~= v); assert(joined(v).take(joined(v).len() as int) =~= joined(v)); }
    else {
        lemma_joined(v, k + 1);
        assert(v.take(k + 1).drop_last() =~= v.take(k));
        let n = joined(v.take(k)).len() as int; let m = joined(v.take(k + 1)).len() as int;
        assert(joined(v.take(k)) =~= joined(v).take(n)) by { assert(joined(v.take(k)) =~= joined(v.take(k + 1)).take(n)); }
        assert(v[k].0@ =~= joined(v).subrange(n, m)) by { assert(v[k].0@ =~= joined(v.take(k + 1)).skip(n)); }
    }
}
/// one section of the plan: what is known of it
pub proof fn lemma_planned<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, ops: Seq<smdiff_common::Op<A>>, limit: int, f: Format, h: SectionHeader)
    requires joined(v) == ops, sections_ok(v, limit, true), neat(sops(ops)), 0 <= k < v.len(), limit <= 16777215, h == (SectionHeader { format: f, ..v[k].1 })
    ensures describes(h, v[k].0@), v[k].0@.len() <= 16777215, h.compression_algo == 0, ops_ok(sops(v[k].0@)), h.more_sections == (k < v.len() - 1),
        h.output_size == total(sops(v[k].0@)) <= limit
{
    let x = v[k].0@;
    lemma_joined(v, k);
    let n = joined(v.take(k)).len() as int;
    assert(counted(x, v[k].1, limit));
    assert forall|i: int| 0 <= i < x.len() implies op_ok(#[trigger] sops(x)[i]) && slen(sops(x)[i]) >= 1 by { assert(sops(x)[i] == sops(ops)[n + i]); assert(op_ok(sops(ops)[n + i]) && slen(sops(ops)[n + i]) >= 1); }
    lemma_count_bound(sops(x));
}
/// the state between two sections
#[verifier::opaque]
pub open spec fn so_far<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, z: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, pos: int) -> bool {
    &&& 0 <= k <= v.len() && is_secs(packed(), z, secs, k == v.len()) && (c.sec_comp is None ==> is_secs(plain(), z, secs, k == v.len()))
    &&& flat_ops(secs) == sops(joined(v.take(k))) && pos == total(flat_ops(secs))
    &&& forall|i: int| 0 <= i < secs.len() ==> sec_fits(#[trigger] secs[i], c)
}
pub proof fn lemma_so_far_start<A: AddOp>(c: EncoderConfig)
    ensures forall|v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>| v.len() > 0 ==> #[trigger] so_far(v, 0, Seq::empty(), Seq::empty(), c, 0)
{
    reveal(so_far);
    assert forall|v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>| v.len() > 0 implies #[trigger] so_far(v, 0, Seq::empty(), Seq::empty(), c, 0) by { assert(sops(joined(v.take(0))) =~= Seq::empty()); }
}
proof fn lemma_stands(ops: Seq<SOp>, k: int, src: Seq<u8>, t: Seq<u8>)
    requires makes(ops, src, t), neat(ops), 0 <= k < ops.len()
    ensures stands(ops[k], src, t, total(ops.take(k)) as int), total(ops.take(k + 1)) == total(ops.take(k)) + slen(ops[k]) <= t.len(), slen(ops[k]) <= 65535
{
    lemma_parts(ops, k, Some(src), t); assert(op_ok(ops[k]));
    let p = total(ops.take(k)) as int;
    assert(slen(ops[k]) >= 1);
    match ops[k] {
        SOp::Copy { dict, addr, len } => { if !dict { assert(t.take(p).subrange(addr as int, addr + len) =~= t.subrange(addr as int, addr + len)); } },
        SOp::Run { byte, len } => { let r = Seq::new(len as nat, |i: int| byte); assert(r == t.subrange(p, p + len)); assert forall|i: int| 0 <= i < len implies #[trigger] t.subrange(p, p + len)[i] == byte by { assert(r[i] == byte); } },
        _ => { },
    }
}
proof fn lemma_same(o: SOp, src: Seq<u8>, t: Seq<u8>, p: int, test: Seq<u8>)
    requires stands(o, src, t, p), test == t.subrange(p, p + slen(o))
    ensures
        o matches SOp::Add { bytes } ==> test == bytes,
        o matches SOp::Copy { dict, addr, len } ==> addr + len <= (if dict { src } else { t }).len() && test == (if dict { src } else { t }).subrange(addr as int, addr + len),
        o matches SOp::Run { byte, len } ==> forall|i: int| 0 <= i < test.len() ==> #[trigger] test[i] == byte,
{ }
proof fn lemma_neat_write(ops: Seq<SOp>) requires neat(ops) ensures can_write(ops) { }
proof fn lemma_before<'a>(ops: Seq<Op<'a>>, n: int, part: Seq<Op<'a>>, src: Seq<u8>, t: Seq<u8>)
    requires makes(sops(ops), src, t), 0 <= n, n + part.len() <= ops.len(), part == ops.subrange(n, n + part.len())
    ensures total(sops(ops).take(n)) + total(sops(part)) <= t.len()
{
    let k = n + part.len();
    lemma_parts(sops(ops), k, Some(src), t);
    lemma_total_join(sops(ops).take(n), sops(part));
    assert(sops(ops).take(k) =~= sops(ops).take(n) + sops(part));
}
pub proof fn lemma_so_far_step<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, z: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, pos: int, s: Seq<u8>, h: SectionHeader)
    requires so_far(v, k, z, secs, c, pos), 0 <= k < v.len(), sec_written(s, h, c.sec_comp, v[k].0@), describes(h, v[k].0@), h.more_sections == (k < v.len() - 1), h.format == c.format,
        h.output_size <= section_limit(c.output_segment_size)
    ensures so_far(v, k + 1, z + s, secs.push(Sec { h: written_head(h, c.sec_comp, v[k].0@), ops: sops(v[k].0@) }), c, pos + h.output_size)
{
    reveal(so_far);
    let x = Sec { h: written_head(h, c.sec_comp, v[k].0@), ops: sops(v[k].0@) };
    lemma_joined(v, k);
    lemma_secs_push(packed(), z, secs, s, x);
    if c.sec_comp is None { lemma_secs_push(plain(), z, secs, s, x); }
    assert(sops(joined(v.take(k + 1))) =~= sops(joined(v.take(k))) + sops(v[k].0@));
    lemma_total_join(flat_ops(secs), x.ops);
    assert forall|i: int| 0 <= i < secs.push(x).len() implies sec_fits(#[trigger] secs.push(x)[i], c) by { if i < secs.len() { assert(sec_fits(secs[i], c)); } }
}
pub proof fn lemma_so_far_pos<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, z: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, pos: int)
    requires so_far(v, k, z, secs, c, pos)
    ensures ({ let n = joined(v.take(k)).len() as int; n <= joined(v).len() && pos == total(sops(joined(v)).take(n)) })
{ reveal(so_far); lemma_joined(v, k); let n = joined(v.take(k)).len() as int; assert(sops(joined(v)).take(n) =~= sops(joined(v.take(k)))); }
pub proof fn lemma_so_far_whole<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, z: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, pos: int)
    requires so_far(v, k, z, secs, c, pos)
    ensures k == v.len() ==> laid_out(z, secs, c) && flat_ops(secs) == sops(joined(v))
{ reveal(so_far); assert(v.take(v.len() as int) =~= v); }
pub proof fn lemma_so_far_end<A: AddOp>(v: Seq<(&[smdiff_common::Op<A>], SectionHeader)>, k: int, z: Seq<u8>, secs: Seq<Sec>, c: EncoderConfig, pos: int, d: Option<Seq<u8>>, t: Seq<u8>)
    requires so_far(v, k, z, secs, c, pos), neat(sops(joined(v))), makes(sops(joined(v)), real_src(d), t)
    ensures k == v.len() ==> encoded(z, secs, c, d, t)
{
    lemma_so_far_whole(v, k, z, secs, c, pos);
    if k == v.len() && d is None { lemma_no_dict(flat_ops(secs), t); }
}

//@item smdiff-encoder/src/lib.rs fn encode
#[verifier::rlimit(100)]
#[verifier::spinoff_prover]
fn encode<R: std::io::Read+std::io::Seek, W: std::io::Write>(dict: Option<&mut R>, output: &mut R, writer: &mut W,config:&EncoderConfig) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires config_ok(*config), real_src(dict_rem(dict)).len() < max_file(), rem(*old(output)).len() < max_trgt()
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        (*final(output)).rid() == (*old(output)).rid(),
        r.is_ok() ==> exists|s: Seq<u8>, secs: Seq<Sec>| #[trigger] encoded(s, secs, *config, dict_rem(dict), rem(*old(output))) && (*final(writer)).written() == (*old(writer)).written() + s,
        (*old(writer)).wreliable() && (*old(output)).rreliable() && dict_reliable(dict) ==> r.is_ok(),
    decreases (if config.sec_comp is Some { 3int } else { 1int })
/*-*/ {
    /*+*/ hide(is_secs); hide(neat); hide(makes); hide(inner_ok); hide(sec_written); hide(describes); hide(total); hide(adds); hide(encoded); hide(sections_ok); hide(joined); hide(stands); hide(run_ops);
    let ghost d = dict_rem(dict); let ghost w0 = *writer; let ghost ok = (*writer).wreliable() && (*output).rreliable() && dict_reliable(dict); let ghost t = rem(*output); /*-*/
    let mut src_bytes = Vec::new();
    if let Some(r) = dict {
        r.read_to_end(&mut src_bytes)?;
    }
    let mut trgt_bytes = Vec::new();
    output.read_to_end(&mut trgt_bytes)?;
    /*+*/ proof { assert(src_bytes@ =~= real_src(d)); assert(trgt_bytes@ =~= t); } /*-*/
    let src = src_bytes.as_slice();
    let trgt = trgt_bytes.as_slice();
    /*+*/ proof { assert(src.len() == src@.len() && trgt.len() == trgt@.len()); } /*-*/
    let EncoderConfig { match_src, match_trgt, sec_comp, format,output_segment_size, naive_tests, lazy_escape_len } = config.clone();
    let segment_size = output_segment_size.min(MAX_WIN_SIZE).max(MAX_INST_SIZE);
    let mut inner_config = GenericEncoderConfig{
        match_trgt,
        match_src,
        lazy_escape_len,
        naive_tests
    };
    let segments = encoder::encode_inner(&mut inner_config, src, trgt);
    /*+*/ let ghost sg = segments@; proof { assert(inner_ok(sg, src@, trgt@)); } /*-*/
    let ops = translate_inner_ops(trgt, segments);
    /*+*/ let ghost lim = section_limit(segment_size); proof { assert(makes(sops(ops@), src@, trgt@)); lemma_neat_write(sops(ops@)); } /*-*/
    let mut cur_o_pos: usize = 0;
    let mut win_data = Vec::new();
    /*+*/ let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty(); /*-*/
    /*+*/ proof { lemma_so_far_start::<crate::inner::Add<'_>>(*config); } /*-*/
    for (seg_ops,mut header) in /*+*/ it: /*-*/ make_sections(&ops, segment_size)
        /*+*/ invariant
            joined(it.seq()) == ops@, sections_ok(it.seq(), lim, true), it.seq().len() > 0, lim == section_limit(config.output_segment_size), format == config.format, sec_comp == config.sec_comp, config_ok(*config),
            neat(sops(ops@)), makes(sops(ops@), src@, trgt@), src.len() == src@.len(), trgt.len() == trgt@.len(),
            it.index@ == 0 ==> z.len() == 0 && secs.len() == 0 && cur_o_pos == 0,
            so_far(it.seq(), it.index@, z, secs, *config, cur_o_pos as int),
            w0 == *old(writer), (*output).rid() == (*old(output)).rid(), (*writer).written() == w0.written() + z, (*writer).wreliable() == w0.wreliable(),
            sec_comp is Some ==> win_data@.len() == 0,
            ok ==> w0.wreliable(), real_src(d) == src@, t == trgt@,
            it.index@ == it.seq().len() ==> encoded(z, secs, *config, d, t), /*-*/
    {
        header.format = format;
        /*+*/ let ghost k = it.index@; let ghost sec = it.seq()[k]; let ghost n = joined(it.seq().take(k)).len() as int; let ghost so = sops(ops@); let ghost w1 = *writer;
        proof {
            assert(seg_ops@ == sec.0@);
            lemma_planned(it.seq(), k, ops@, lim, format, header);
            lemma_so_far_pos(it.seq(), k, z, secs, *config, cur_o_pos as int);
            lemma_joined(it.seq(), k);
        } /*-*/
        debug_assert!({
            let mut o = cur_o_pos;
            { let mut vp_all = true; for op in /*+*/ jt: /*-*/ seg_ops.iter() /*+*/
                invariant_except_break
                    o == total(so.take(n + jt.index@)),
                invariant
                    vp_all, jt.seq().len() == seg_ops@.len(), forall|j: int| 0 <= j < seg_ops@.len() ==> *(#[trigger] jt.seq()[j]) == seg_ops@[j],
                    so == sops(ops@), 0 <= n, n + seg_ops@.len() <= ops@.len(), seg_ops@ == ops@.subrange(n, n + seg_ops@.len()),
                    makes(so, src@, trgt@), neat(so), src.len() == src@.len(), trgt.len() == trgt@.len(),
                /*-*/ { /*+*/ proof { lemma_stands(so, n + jt.index@, src@, trgt@); assert(so[n + jt.index@] == sop(*op)); assert(stands(sop(*op), src@, trgt@, o as int)); } /*-*/ if !({
                    let len = op.oal() as usize;
                    /*+*/ let ghost o0 = o as int; let ghost so0 = sop(*op); /*-*/
                    let test = &trgt[o..o + len];
                    o += len;
                    /*+*/ proof { assert(op_len(*op) == slen(so0)); assert(len == slen(so0)); assert(test@ =~= trgt@.subrange(o0, o0 + slen(so0))); lemma_same(so0, src@, trgt@, o0, test@); } /*-*/
                    match op{
                        Op::Add(Add { bytes }) => test == &bytes[..],
                        Op::Copy(Copy { src:CopySrc::Dict, addr, len }) => test == &src[*addr as usize..*addr as usize + *len as usize],
                        Op::Copy(Copy { src:CopySrc::Output, addr, len }) => test == &trgt[*addr as usize..*addr as usize + *len as usize],
                        Op::Run(Run{ byte, .. }) => { let mut vp_all = true; for b in /*+*/ kt: /*-*/ test.iter() /*+*/
                            invariant vp_all, kt.seq().len() == test@.len(), forall|j: int| 0 <= j < test@.len() ==> *(#[trigger] kt.seq()[j]) == test@[j], forall|i: int| 0 <= i < test@.len() ==> #[trigger] test@[i] == byte, /*-*/
                            { if !(b == byte) { vp_all = false; break; } } vp_all },
                    }
                }) { vp_all = false; break; } } vp_all }
        });
        /*+*/ proof { lemma_before(ops@, n, seg_ops@, src@, trgt@); } /*-*/
        cur_o_pos += header.output_size as usize;
        section_writer(&sec_comp, header, writer, seg_ops, &mut win_data)?;
        /*+*/ proof {
            let s = choose|s: Seq<u8>| #[trigger] sec_written(s, header, sec_comp, seg_ops@) && (*writer).written() == w1.written() + s;
            lemma_so_far_step(it.seq(), k, z, secs, *config, cur_o_pos - header.output_size, s, header);
            secs = secs.push(Sec { h: written_head(header, config.sec_comp, seg_ops@), ops: sops(seg_ops@) });
            z = z + s;
            assert((*writer).written() =~= w0.written() + z);
            lemma_so_far_end(it.seq(), k + 1, z, secs, *config, cur_o_pos as int, d, t);
        } /*-*/
    }
    Ok(())
}
//@end

}
}
