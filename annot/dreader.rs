//@alloc
// The decompressing section reader (C05, C06, C12).
pub mod reader {
use vstd::prelude::*;
use std::io::{BufReader, Cursor, Read, Seek};
use crate::io::*;
use crate::smdiff_common::*;
use crate::smdiff_reader::{few, read_ops_no_comp, read_section_header, Op, body_totals, offers_body};
use crate::smdiff_decoder::{apply_no_sec_comp, src_data, src_reliable};
use crate::format::*;
use crate::patch::*;
use crate::stubs::*;
use crate::stubs::ruzstd;
use crate::stubs::brotlic;
verus! {
broadcast use group_streams;

// ---------------------------------------------------------------- sections with secondary compression
/// the section data s stands for the content d
pub open spec fn stands_for(algo: u8, s: Seq<u8>, d: Seq<u8>) -> bool {
    if algo == 0 { s == d }
    else if algo == 1 { exists|secs: Seq<Sec>| #[trigger] is_patch(plain(), s, secs) && run_ops(flat_ops(secs), None, Seq::empty()) == Some(d) }
    else { algo <= 3 && unpacks(algo, s, d) }
}
/// the content d starts with an encoded body of these operations (and is nothing else where it is not compressed)
pub open spec fn holds_body(algo: u8, d: Seq<u8>, ops: Seq<SOp>, inter: bool) -> bool {
    exists|b: Seq<u8>| #[trigger] is_body(b, ops, inter) && prefix(b, d) && (algo == 0 ==> b == d)
}
pub open spec fn is_data(algo: u8, s: Seq<u8>, ops: Seq<SOp>, inter: bool) -> bool {
    exists|d: Seq<u8>| #[trigger] stands_for(algo, s, d) && holds_body(algo, d, ops, inter)
}
pub open spec fn is_csec_at(s: Seq<u8>, k: int, h: SHead, ops: Seq<SOp>) -> bool {
    0 <= k <= s.len() && is_head(s.take(k), h) && is_data(h.algo, s.skip(k), ops, !h.seg) && totals_ok(h, ops)
}
pub open spec fn is_csec(s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { exists|k: int| #[trigger] is_csec_at(s, k, h, ops) }
/// sections as the decompressing reader reads them
pub open spec fn packed() -> SecPred { |s: Seq<u8>, h: SHead, ops: Seq<SOp>| is_csec(s, h, ops) }

/// some data of a section with header h is offered
pub open spec fn offers_data<R: Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { offers(r, s) && is_data(h.algo, s, ops, !h.seg) && body_totals(h, ops) }
pub open spec fn offers_csec<R: Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> bool { offers(r, s) && is_csec(s, h, ops) }
/// one whole section, and nothing else, was read
pub open spec fn csec_read<R: Read>(r0: R, r1: R, h: SHead, ops: Seq<SOp>) -> bool {
    exists|s: Seq<u8>| is_csec(s, h, ops) && #[trigger] eaten(r0, r1, s) && offers(r0, s)
}
pub open spec fn same_but_adds(g: SectionHeader, h: SectionHeader) -> bool {
    g.format == h.format && g.compression_algo == h.compression_algo && g.more_sections == h.more_sections && g.num_operations == h.num_operations && g.output_size == h.output_size
        && (g.format is Segregated ==> g.num_add_bytes == h.num_add_bytes)
}

proof fn lemma_data0<R: Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>)
    requires offers_data(r, s, h, ops), h.algo == 0
    ensures offers_body(r, s, ops, !h.seg)
{ }

proof fn lemma_csec_done<R: Read>(r0: R, r1: R, r2: R, s: Seq<u8>, t: Seq<u8>, h0: SHead, h: SHead, ops: Seq<SOp>)
    requires eaten(r0, r1, s), eaten(r1, r2, t), is_head(s, h0), is_data(h.algo, t, ops, !h.seg), totals_ok(h, ops), h0.algo == h.algo, h0.seg == h.seg, h0.more == h.more,
        h0.n == h.n, h0.size == h.size, h.seg ==> h0.adds == h.adds
    ensures exists|z: Seq<u8>| is_csec(z, h, ops) && #[trigger] eaten(r0, r2, z) && offers(r0, z)
{
    let (a, b) = choose|a: int, b: int| is_head_at(s, a, b, h0);
    lemma_adds_bound(ops);
    assert(is_head_at(s, a, b, h));
    lemma_eaten_join(r0, r1, r2, s, t);
    let z = s + t;
    assert(z.len() >= 1);
    assert(offers(r0, z));
    assert(z.take(s.len() as int) =~= s);
    assert(z.skip(s.len() as int) =~= t);
    assert(is_csec_at(z, s.len() as int, h, ops));
}
/// a section is offered
pub open spec fn has_csec<R: Read>(r0: R, h: SHead, ops: Seq<SOp>) -> bool { exists|s: Seq<u8>| is_csec(s, h, ops) && #[trigger] offers(r0, s) }
pub proof fn lemma_csec_read<R: Read>(r0: R, r1: R, h: SHead, ops: Seq<SOp>) -> (s: Seq<u8>)
    requires csec_read(r0, r1, h, ops)
    ensures packed()(s, h, ops), eaten(r0, r1, s), offers(r0, s), s.len() >= 1
{
    let s = choose|s: Seq<u8>| is_csec(s, h, ops) && #[trigger] eaten(r0, r1, s) && offers(r0, s);
    let k = choose|k: int| is_csec_at(s, k, h, ops);
    let (a, b) = choose|a: int, b: int| is_head_at(s.take(k), a, b, h);
    s
}
pub open spec fn data_read<R: Read>(r0: R, r1: R, algo: u8, ops: Seq<SOp>, inter: bool) -> bool { exists|s: Seq<u8>| is_data(algo, s, ops, inter) && #[trigger] eaten(r0, r1, s) }
proof fn lemma_csec_head<R: Read>(r0: R, z: Seq<u8>, h: SHead, ops: Seq<SOp>)
    requires offers_csec(r0, z, h, ops)
    ensures exists|s: Seq<u8>| is_head(s, h) && #[trigger] crate::smdiff_reader::offers_head(r0, s, h)
{
    let k = choose|k: int| is_csec_at(z, k, h, ops);
    lemma_offers_take(r0, z, k);
    assert(crate::smdiff_reader::offers_head(r0, z.take(k), h));
}
proof fn lemma_csec_data<R: Read>(r0: R, r1: R, s: Seq<u8>, h0: SHead, z: Seq<u8>, h: SHead, ops: Seq<SOp>) -> (t: Seq<u8>)
    requires offers_csec(r0, z, h, ops), is_head(s, h0), eaten(r0, r1, s)
    ensures same_head(h0, h), offers_data(r1, t, h0, ops)
{
    let k = choose|k: int| is_csec_at(z, k, h, ops);
    lemma_offers_prefix(r0, z);
    lemma_eaten_prefix(r0, r1, s);
    lemma_prefix_skip(z, rest(r0), k);
    lemma_head_unique(s, z.take(k), rest(r0), h0, h);
    assert(z.take(k).len() == k);
    lemma_offers_skip(r0, r1, s, z);
    z.skip(k)
}
/// at one place there is at most one section
pub proof fn lemma_data_unique(algo: u8, a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, x: Seq<SOp>, y: Seq<SOp>, inter: bool)
    requires is_data(algo, a, x, inter), is_data(algo, b, y, inter), prefix(a, t), prefix(b, t), x.len() == y.len()
    ensures a == b, x == y
{
    let d = choose|d: Seq<u8>| #[trigger] stands_for(algo, a, d) && holds_body(algo, d, x, inter);
    let e = choose|d: Seq<u8>| #[trigger] stands_for(algo, b, d) && holds_body(algo, d, y, inter);
    let u = choose|b: Seq<u8>| #[trigger] is_body(b, x, inter) && prefix(b, d) && (algo == 0 ==> b == d);
    let v = choose|b: Seq<u8>| #[trigger] is_body(b, y, inter) && prefix(b, e) && (algo == 0 ==> b == e);
    if algo == 0 {
        lemma_body_unique(a, b, t, x, y, inter);
    } else {
        if algo == 1 {
            let p = choose|secs: Seq<Sec>| #[trigger] is_patch(plain(), a, secs) && run_ops(flat_ops(secs), None, Seq::empty()) == Some(d);
            let q = choose|secs: Seq<Sec>| #[trigger] is_patch(plain(), b, secs) && run_ops(flat_ops(secs), None, Seq::empty()) == Some(e);
            lemma_plain_proper();
            lemma_patch_unique(plain(), a, b, t, p, q);
        } else {
            ax_unpacks_unique(algo, a, b, t, d, e);
        }
        lemma_body_unique(u, v, d, x, y, inter);
    }
}
pub proof fn lemma_packed_proper()
    ensures proper(packed())
{
    let p = packed();
    assert forall|a: Seq<u8>, b: Seq<u8>, t: Seq<u8>, g: SHead, h: SHead, x: Seq<SOp>, y: Seq<SOp>| #![trigger p(a, g, x), p(b, h, y), prefix(a, t), prefix(b, t)]
        p(a, g, x) && p(b, h, y) && prefix(a, t) && prefix(b, t) implies a == b && g == h && x == y by {
        let j = choose|j: int| is_csec_at(a, j, g, x);
        let k = choose|k: int| is_csec_at(b, k, h, y);
        lemma_prefix_skip(a, t, j);
        lemma_prefix_skip(b, t, k);
        lemma_head_unique(a.take(j), b.take(k), t, g, h);
        assert(a.take(j).len() == j && b.take(k).len() == k);
        lemma_data_unique(g.algo, a.skip(j), b.skip(k), t.skip(j), x, y, !g.seg);
        assert(a =~= a.take(j) + a.skip(j));
        assert(b =~= b.take(k) + b.skip(k));
    }
}
/// content that starts with a body offers that body to a reader at its beginning
proof fn lemma_body_offered<C: Read>(c: C, algo: u8, ops: Seq<SOp>, inter: bool) -> (b: Seq<u8>)
    requires c.rpos() == 0, holds_body(algo, c.rdata(), ops, inter)
    ensures offers_body(c, b, ops, inter)
{
    let b = choose|b: Seq<u8>| #[trigger] is_body(b, ops, inter) && prefix(b, c.rdata()) && (algo == 0 ==> b == c.rdata());
    assert(c.rdata().take(b.len() as int) =~= c.rdata().subrange(0, b.len() as int));
    b
}
/// what was read from the beginning of the content is a body it starts with
proof fn lemma_body_taken<C: Read>(c0: C, c1: C, algo: u8, b: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires c0.rpos() == 0, eaten(c0, c1, b), is_body(b, ops, inter), algo != 0
    ensures holds_body(algo, c0.rdata(), ops, inter)
{
    if b.len() == 0 { assert(b =~= c0.rdata().take(0)); } else { assert(b =~= c0.rdata().take(b.len() as int)); }
}
proof fn lemma_patch_data<R: Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> (x: (Seq<Sec>, Seq<u8>))
    requires offers_data(r, s, h, ops), h.algo == 1
    ensures offers_patch(plain(), r, s, x.0), run_ops(flat_ops(x.0), None, Seq::empty()) == Some(x.1), !cannot(flat_ops(x.0), None, Seq::empty()), holds_body(1, x.1, ops, !h.seg)
{
    let d = choose|d: Seq<u8>| #[trigger] stands_for(h.algo, s, d) && holds_body(h.algo, d, ops, !h.seg);
    let secs = choose|secs: Seq<Sec>| #[trigger] is_patch(plain(), s, secs) && run_ops(flat_ops(secs), None, Seq::empty()) == Some(d);
    lemma_no_src(flat_ops(secs), Seq::empty());
    (secs, d)
}
proof fn lemma_unpacked_data<R: Read>(r: R, s: Seq<u8>, h: SHead, ops: Seq<SOp>) -> (c: Seq<u8>)
    requires offers_data(r, s, h, ops), h.algo > 1
    ensures unpacks(h.algo, s, c), offers(r, s), holds_body(h.algo, c, ops, !h.seg), h.algo <= 3
{
    choose|d: Seq<u8>| #[trigger] stands_for(h.algo, s, d) && holds_body(h.algo, d, ops, !h.seg)
}
proof fn lemma_is_data(algo: u8, s: Seq<u8>, d: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires stands_for(algo, s, d), holds_body(algo, d, ops, inter)
    ensures is_data(algo, s, ops, inter)
{ }
proof fn lemma_is_data0(s: Seq<u8>, ops: Seq<SOp>, inter: bool)
    requires is_body(s, ops, inter)
    ensures is_data(0, s, ops, inter)
{ assert(prefix(s, s)) by { assert(s =~= s.take(s.len() as int)); } assert(stands_for(0, s, s)); }
/// the patch that was read is the one that is offered
proof fn lemma_same_patch<R: Read>(r0: R, r1: R, s: Seq<u8>, s0: Seq<u8>, x: Seq<Sec>, y: Seq<Sec>)
    requires offers_patch(plain(), r0, s, x), eaten(r0, r1, s0), is_patch(plain(), s0, y)
    ensures s == s0, x == y
{
    lemma_offers_prefix(r0, s);
    lemma_eaten_prefix(r0, r1, s0);
    lemma_plain_proper();
    lemma_patch_unique(plain(), s, s0, rest(r0), x, y);
}

//@item smdiff-decoder/src/reader.rs struct SectionIterator
struct SectionIterator<R>{
    source: BufReader<R>,
    done:bool,
    win_data: Vec<u8>,
    ops: Vec<Op>,
}
//@end
impl<R: Read+Seek> SectionIterator<R>{
//@item smdiff-decoder/src/reader.rs impl SectionIterator / fn new
    fn new(patch: R) -> /*+*/ (r: /*-*/ Self /*+*/)
        ensures !r.done, r.source.rdata() == patch.rdata(), r.source.rpos() == patch.rpos(), r.source.rreliable() == patch.rreliable()
    /*-*/ {
        Self {
            source:BufReader::new(patch),
            done:false,
            win_data: Vec::new(),
            ops: Vec::new(),
        }
    }
//@end
//@item smdiff-decoder/src/reader.rs impl SectionIterator / fn next_borrowed
    fn next_borrowed(&mut self) -> /*+*/ (r: /*-*/ Option<std::io::Result<(&[Op],SectionHeader)>> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            r matches Some(Ok(p)) ==> {
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections && same_stream(old(self).source, final(self).source)
                &&& csec_read(old(self).source, final(self).source, shead(p.1), sops(p.0@)) && has_csec(old(self).source, shead(p.1), sops(p.0@))
                &&& p.1.compression_algo == 0 ==> few(old(self).source, 0, p.0@.len() as int)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_csec(old(self).source, s, h, ops),
    /*-*/ {
        /*+*/ hide(is_head); hide(is_data); hide(is_csec); hide(total); hide(adds);
        let ghost r0 = self.source;
        proof {
            assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_csec(r0, s, h, ops) implies exists|z: Seq<u8>| is_head(z, h) && #[trigger] crate::smdiff_reader::offers_head(r0, z, h)
                by { lemma_csec_head(r0, s, h, ops); }
        } /*-*/
        let mut header = match self.read_header()?{
            Ok(h) => h,
            Err(e) => {
                return Some(Err(e));
            }
        };
        self.ops.clear();
        /*+*/ let ghost r1 = self.source; let ghost h0 = shead(header); let ghost z = choose|z: Seq<u8>| is_head(z, h0) && #[trigger] eaten(r0, r1, z);
        proof {
            assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_csec(r0, s, h, ops) implies exists|t: Seq<u8>| #[trigger] offers_data(r1, t, h0, ops)
                by { let t = lemma_csec_data(r0, r1, z, h0, s, h, ops); assert(offers_data(r1, t, h0, ops)); }
        } /*-*/
        if let Err(e) = self.read_ops(&mut header){
            return Some(Err(e));
        }
        /*+*/ proof {
            let ops = sops(self.ops@);
            let t = choose|t: Seq<u8>| is_data(h0.algo, t, ops, !h0.seg) && #[trigger] eaten(r1, self.source, t);
            lemma_csec_done(r0, r1, self.source, z, t, h0, shead(header), ops);
            assert(csec_read(r0, self.source, shead(header), ops));
            if h0.algo == 0 { assert(few(r1, 0, self.ops@.len() as int)); assert(few(r0, 0, self.ops@.len() as int)) by { reveal(eaten); } }
        } /*-*/
        Some(Ok((&self.ops,header)))
    }
//@end
//@item smdiff-decoder/src/reader.rs impl SectionIterator / fn next_owned
    fn next_owned(&mut self) -> /*+*/ (r: /*-*/ Option<std::io::Result<(Vec<Op>,SectionHeader)>> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            r matches Some(Ok(p)) ==> {
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections && same_stream(old(self).source, final(self).source)
                &&& csec_read(old(self).source, final(self).source, shead(p.1), sops(p.0@)) && has_csec(old(self).source, shead(p.1), sops(p.0@))
                &&& p.1.compression_algo == 0 ==> few(old(self).source, 0, p.0@.len() as int)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_csec(old(self).source, s, h, ops),
    /*-*/ {
        /*+*/ hide(is_head); hide(is_data); hide(is_csec); hide(total); hide(adds);
        let ghost r0 = self.source;
        proof {
            assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_csec(r0, s, h, ops) implies exists|z: Seq<u8>| is_head(z, h) && #[trigger] crate::smdiff_reader::offers_head(r0, z, h)
                by { lemma_csec_head(r0, s, h, ops); }
        } /*-*/
        let mut header = match self.read_header()?{
            Ok(h) => h,
            Err(e) => {
                return Some(Err(e));
            }
        };
        self.ops.clear();
        /*+*/ let ghost r1 = self.source; let ghost h0 = shead(header); let ghost z = choose|z: Seq<u8>| is_head(z, h0) && #[trigger] eaten(r0, r1, z);
        proof {
            assert forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| #[trigger] offers_csec(r0, s, h, ops) implies exists|t: Seq<u8>| #[trigger] offers_data(r1, t, h0, ops)
                by { let t = lemma_csec_data(r0, r1, z, h0, s, h, ops); assert(offers_data(r1, t, h0, ops)); }
        } /*-*/
        if let Err(e) = self.read_ops(&mut header){
            return Some(Err(e));
        }
        /*+*/ proof {
            let ops = sops(self.ops@);
            let t = choose|t: Seq<u8>| is_data(h0.algo, t, ops, !h0.seg) && #[trigger] eaten(r1, self.source, t);
            lemma_csec_done(r0, r1, self.source, z, t, h0, shead(header), ops);
            assert(csec_read(r0, self.source, shead(header), ops));
            if h0.algo == 0 { assert(few(r1, 0, self.ops@.len() as int)); assert(few(r0, 0, self.ops@.len() as int)) by { reveal(eaten); } }
        } /*-*/
        Some(Ok((std::mem::take(&mut self.ops),header)))
    }
//@end
//@item smdiff-decoder/src/reader.rs impl SectionIterator / fn read_header
    fn read_header(&mut self) -> /*+*/ (r: /*-*/ Option<std::io::Result<SectionHeader>> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            final(self).done == old(self).done, same_stream(old(self).source, final(self).source),
            r matches Some(Ok(h)) ==> (h.format is Interleaved ==> h.num_add_bytes == 0) && exists|s: Seq<u8>| is_head(s, shead(h)) && #[trigger] eaten(old(self).source, final(self).source, s),
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead| is_head(s, h) ==> !#[trigger] crate::smdiff_reader::offers_head(old(self).source, s, h),
    /*-*/ {
        if self.done{
            return None;
        }
        match read_section_header(&mut self.source){
            Ok(h) => Some(Ok(h)),
            Err(e) => {
                return Some(Err(e));
            }
        }
    }
//@end
//@item smdiff-decoder/src/reader.rs impl SectionIterator / fn read_ops
    fn read_ops(&mut self,header:&mut SectionHeader) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
        ensures
            match r {
                Ok(_) => {
                    let ops = sops(final(self).ops@);
                    &&& same_stream(old(self).source, final(self).source) && same_but_adds(*old(header), *final(header))
                    &&& final(self).done == (old(self).done || !(*old(header)).more_sections)
                    &&& totals_ok(shead(*final(header)), ops) && ops_ok(ops)
                    &&& data_read(old(self).source, final(self).source, (*old(header)).compression_algo, ops, (*old(header)).format is Interleaved)
                },
                Err(_) => old(self).source.rreliable() ==> forall|s: Seq<u8>, ops: Seq<SOp>| !#[trigger] offers_data(old(self).source, s, shead(*old(header)), ops),
            },
            (*old(header)).compression_algo == 0 ==> few(old(self).source, 0, final(self).ops@.len() as int),
    /*-*/ {
        /*+*/ hide(is_data); hide(is_body); hide(holds_body); hide(body_totals); hide(has_empty_dict); hide(run_ops); hide(flat_ops); hide(is_secs); hide(total); hide(adds); hide(eaten); hide(offers);
        let ghost h0 = *header; let ghost r0 = self.source; let ghost inter = h0.format is Interleaved; let ghost algo = h0.compression_algo; proof { ax_rpos(r0); ax_cursor_vec(); } /*-*/
        self.win_data.clear();
        self.ops.clear();
        /*+*/ let ghost sh = shead(h0);
        let ghost mut zz: Seq<u8> = Seq::empty(); /*-*/
        if header.compression_algo == 1 {
            let mut crsr = Cursor::new(&mut self.win_data);
            /*+*/ proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies exists|secs: Seq<Sec>| #[trigger] offers_patch(plain(), r0, s, secs) && !cannot(flat_ops(secs), None, Seq::empty())
                    by { let x = lemma_patch_data(r0, s, sh, ops); assert(offers_patch(plain(), r0, s, x.0)); }
            } /*-*/
            /*+*/ assert(crsr.wdata() =~= Seq::empty()); let ghost k0 = crsr; assert(crate::smdiff_decoder::empty_sink(crsr));  /*-*/
            apply_no_sec_comp::<_,R,_>(&mut self.source, None, &mut crsr)?;
            /*+*/ let ghost (s0, secs0, o) = choose|s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>| #[trigger] crate::smdiff_decoder::applied(r0, self.source, crsr, None, s, secs, o) && crsr.wdata() == o; /*-*/
            /*+*/ let ghost k1 = crsr; assert(k1.wdata() == o); /*-*/
            crsr.rewind()?;
            /*+*/ let ghost c0 = crsr;
            proof {
                assert(c0.sdata() == k1.sdata()); assert(c0.rdata() == o); assert(c0.rpos() == 0);
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies exists|b: Seq<u8>| #[trigger] offers_body(c0, b, ops, inter) && body_totals(sh, ops) by {
                    let x = lemma_patch_data(r0, s, sh, ops);
                    lemma_same_patch(r0, self.source, s, s0, x.0, secs0);
                    let b = lemma_body_offered(c0, 1, ops, inter);
                }
            } /*-*/
            read_ops_no_comp(&mut crsr, header,&mut self.ops)?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                assert(self.ops@.skip(0) =~= self.ops@);
                let b = choose|s: Seq<u8>| is_body(s, ops, inter) && #[trigger] eaten(c0, crsr, s);
                lemma_body_taken(c0, crsr, 1, b, ops, inter);
                lemma_is_data(1, s0, o, ops, inter);
                zz = s0;
            } /*-*/
        }else if header.compression_algo == 2 {
            /*+*/ proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies exists|c: Seq<u8>| #[trigger] unpacks(2, s, c) && offers(r0, s)
                    by { let c = lemma_unpacked_data(r0, s, sh, ops); assert(unpacks(2, s, c)); }
                ruzstd::ax_zstd::<BufReader<R>>();
            } /*-*/
            let mut zstd = ruzstd::StreamingDecoder::new(&mut self.source)
                .map_err(|e| vp_error())?;
            /*+*/ let ghost c0 = zstd;
            proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies (r0.rreliable() ==> c0.rreliable()) && exists|b: Seq<u8>| #[trigger] offers_body(c0, b, ops, inter) && body_totals(sh, ops) by {
                    let c = lemma_unpacked_data(r0, s, sh, ops);
                    let b = lemma_body_offered(c0, 2, ops, inter);
                }
            } /*-*/
            read_ops_no_comp(&mut zstd, header,&mut self.ops)?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                assert(self.ops@.skip(0) =~= self.ops@);
                let b = choose|s: Seq<u8>| is_body(s, ops, inter) && #[trigger] eaten(c0, zstd, s);
                lemma_body_taken(c0, zstd, 2, b, ops, inter);
            } /*-*/
            std::io::copy(&mut zstd, &mut std::io::sink())?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                zz = choose|z: Seq<u8>| #[trigger] unpacks(2, z, zstd.rdata()) && eaten(zstd.start(), zstd.end(), z);
                lemma_is_data(2, zz, c0.rdata(), ops, inter);
            } /*-*/
        }else if header.compression_algo == 3 {
            /*+*/ proof { brotlic::ax_brotli::<BufReader<R>>(); } /*-*/
            let mut brot = brotlic::DecompressorReader::new(&mut self.source);
            /*+*/ let ghost c0 = brot;
            proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies (r0.rreliable() ==> c0.rreliable()) && exists|b: Seq<u8>| #[trigger] offers_body(c0, b, ops, inter) && body_totals(sh, ops) by {
                    let c = lemma_unpacked_data(r0, s, sh, ops);
                    let b = lemma_body_offered(c0, 3, ops, inter);
                }
            } /*-*/
            read_ops_no_comp(&mut brot, header,&mut self.ops)?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                assert(self.ops@.skip(0) =~= self.ops@);
                let b = choose|s: Seq<u8>| is_body(s, ops, inter) && #[trigger] eaten(c0, brot, s);
                lemma_body_taken(c0, brot, 3, b, ops, inter);
            } /*-*/
            //the end of the stream may not have been seen yet (always the case for a section without operations)
            std::io::copy(&mut brot, &mut std::io::sink())?;
            /*+*/ let ghost c2 = brot; /*-*/
            let _ = brot.into_inner()?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                zz = choose|z: Seq<u8>| #[trigger] unpacks(3, z, c2.rdata()) && eaten(c2.start(), c2.end(), z);
                lemma_is_data(3, zz, c0.rdata(), ops, inter);
            } /*-*/
        }else if header.compression_algo > 3 {
            /*+*/ proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| !#[trigger] offers_data(r0, s, sh, ops) by {
                    if offers_data(r0, s, sh, ops) { let c = lemma_unpacked_data(r0, s, sh, ops); }
                }
            } /*-*/
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Unknown compression algorithm"));
        }else{
            /*+*/ proof {
                assert forall|s: Seq<u8>, ops: Seq<SOp>| #[trigger] offers_data(r0, s, sh, ops) implies offers_body(r0, s, ops, inter) && body_totals(sh, ops) by { lemma_data0(r0, s, sh, ops); }
            } /*-*/
            read_ops_no_comp(&mut self.source, header,&mut self.ops)?;
            /*+*/ proof {
                let ops = sops(self.ops@);
                assert(self.ops@.skip(0) =~= self.ops@);
                zz = choose|s: Seq<u8>| is_body(s, ops, inter) && #[trigger] eaten(r0, self.source, s);
                lemma_is_data0(zz, ops, inter);
            } /*-*/
        }
        /*+*/ assert(eaten(r0, self.source, zz)); assert(is_data(algo, zz, sops(self.ops@), inter)); assert(same_stream(r0, self.source)); assert(same_but_adds(h0, *header)); assert(totals_ok(shead(*header), sops(self.ops@))); /*-*/
        if !header.more_sections{
            self.done = true;
        }
        /*+*/ proof { assert(data_read(r0, self.source, algo, sops(self.ops@), inter)); assert(ops_ok(sops(self.ops@))); } /*-*/
        Ok(())
    }
//@end
//@item smdiff-decoder/src/reader.rs impl Iterator for SectionIterator / fn next !private
    fn next(&mut self) -> /*+*/ (r: /*-*/ Option</*~assoc| Self::Item |~*/ std::io::Result<(Vec<Op>, SectionHeader)> /*~*/> /*+*/)
        ensures
            r is None <==> old(self).done, r is None ==> *final(self) == *old(self),
            r matches Some(Ok(p)) ==> {
                &&& totals_ok(shead(p.1), sops(p.0@)) && ops_ok(sops(p.0@)) && final(self).done == !p.1.more_sections && same_stream(old(self).source, final(self).source)
                &&& csec_read(old(self).source, final(self).source, shead(p.1), sops(p.0@)) && has_csec(old(self).source, shead(p.1), sops(p.0@))
                &&& p.1.compression_algo == 0 ==> few(old(self).source, 0, p.0@.len() as int)
            },
            r matches Some(Err(_)) && old(self).source.rreliable() ==> forall|s: Seq<u8>, h: SHead, ops: Seq<SOp>| !#[trigger] offers_csec(old(self).source, s, h, ops), /*-*/
    {
        self.next_owned()
    }
//@end
}

}
}
