//@alloc
// Applying operations (C06).
pub mod smdiff_decoder {
use vstd::prelude::*;
use std::io::{Read, Seek, Write};
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::smdiff_reader;
use crate::format::*;
use crate::patch::*;
verus! {
broadcast use group_streams;

// ---------------------------------------------------------------- the source and the sink
pub open spec fn src_data<R: Read>(s: Option<&mut R>) -> Option<Seq<u8>> {
    match s { Some(r) => Some((*r).rdata()), None => None }
}
pub open spec fn src_reliable<R: Read>(s: Option<&mut R>) -> bool { s matches Some(r) ==> (*r).rreliable() }
/// the first p bytes of the sink
pub open spec fn produced<W: Write>(w: W, p: usize) -> Seq<u8> { w.wdata().take(p as int) }
/// no sink holds more bytes than a Vec or a file can
#[verifier::external_body]
pub proof fn ax_sink_len<W: Write>(w: W)
    ensures w.wdata().len() <= i64::MAX
{ }
proof fn lemma_written(d0: Seq<u8>, d1: Seq<u8>, p: int, b: Seq<u8>)
    requires 0 <= p <= d0.len(), d1 == overwrite(d0, p, b)
    ensures d1.len() == (if p + b.len() < d0.len() { d0.len() } else { (p + b.len()) as nat }), d1.take(p + b.len()) == d0.take(p) + b
{
    assert(d1.take(p + b.len()) =~= d0.take(p) + b);
}

//@item smdiff-decoder/src/lib.rs fn apply_ops
fn apply_ops<R:Read+Seek,W:Write+Read+Seek>(ops:&[smdiff_reader::Op],src:&mut Option<&mut R>,cur_o:&mut W, cur_o_pos: &mut usize) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires *old(cur_o_pos) <= (*old(cur_o)).wdata().len()
    ensures
        src_data(*final(src)) == src_data(*old(src)), src_reliable(*final(src)) == src_reliable(*old(src)),
        (*final(cur_o)).wreliable() == (*old(cur_o)).wreliable(),
        match r {
            Ok(_) => {
                &&& *final(cur_o_pos) <= (*final(cur_o)).wdata().len()
                &&& run_ops(sops(ops@), src_data(*old(src)), produced(*old(cur_o), *old(cur_o_pos))) == Some(produced(*final(cur_o), *final(cur_o_pos)))
                &&& (*old(cur_o)).wdata().len() == *old(cur_o_pos) ==> (*final(cur_o)).wdata().len() == *final(cur_o_pos)
            },
            Err(_) => (*old(cur_o)).wreliable() && src_reliable(*old(src)) ==>
                run_ops(sops(ops@), src_data(*old(src)), produced(*old(cur_o), *old(cur_o_pos))) is None || has_empty_dict(sops(ops@)),
        }
/*-*/ {
    /*+*/ let ghost sd = src_data(*src); let ghost sr = src_reliable(*src); let ghost out0 = produced(*cur_o, *cur_o_pos); let ghost w0 = *cur_o; let ghost exact = (*cur_o).wdata().len() == *cur_o_pos;
    let ghost all = sops(ops@);
    proof { ax_sink_len(*cur_o); bx_mut_rdata::<R>(); bx_mut_rpos::<R>(); bx_mut_rreliable::<R>(); bx_mut_sdata::<R>(); bx_mut_spos::<R>(); bx_mut_sreliable::<R>(); } /*-*/
    //let mut stats = Stats::default();
    //let out_size = header.output_size as usize;
    cur_o.seek(std::io::SeekFrom::Start(*cur_o_pos as u64))?;
    /*+*/ proof { assert(all.take(0) =~= Seq::empty()); } /*-*/
    let mut copy_buffer = vec![0u8;MAX_INST_SIZE];
    for op in /*+*/ it: /*-*/ ops
        /*+*/ invariant
            all == sops(ops@), it.seq().len() == ops@.len(), forall|i: int| 0 <= i < ops@.len() ==> *(#[trigger] it.seq()[i]) == ops@[i],
            src_data(*src) == sd, src_reliable(*src) == sr, (*cur_o).wreliable() == w0.wreliable(), copy_buffer@.len() == 65535,
            *cur_o_pos <= (*cur_o).wdata().len(), (*cur_o).wpos() == *cur_o_pos, exact ==> (*cur_o).wdata().len() == *cur_o_pos,
            run_ops(all.take(it.index@ as int), sd, out0) == Some(produced(*cur_o, *cur_o_pos)),
            sd == src_data(*old(src)), sr == src_reliable(*old(src)), out0 == produced(*old(cur_o), *old(cur_o_pos)), w0 == *old(cur_o), exact == ((*old(cur_o)).wdata().len() == *old(cur_o_pos)), /*-*/
    {
        /*+*/ let ghost k = it.index@ as int; let ghost o = produced(*cur_o, *cur_o_pos); let ghost d0 = (*cur_o).wdata(); let ghost p0 = *cur_o_pos as int;
        proof {
            lemma_run_step(all, k, sd, out0, o);
            assert(all[k] == sop(*op));
            bx_mut_rdata::<R>(); bx_mut_rpos::<R>(); bx_mut_rreliable::<R>(); bx_mut_sdata::<R>(); bx_mut_spos::<R>(); bx_mut_sreliable::<R>();
            if empty_dict(all[k]) { assert(has_empty_dict(all)); }
           
        } /*-*/
        match op {
            smdiff_common::Op::Add(add) => {
                cur_o.write_all(&add.bytes)?;
                /*+*/ proof { lemma_written(d0, (*cur_o).wdata(), p0, add.bytes@); ax_sink_len(*cur_o); } /*-*/
                *cur_o_pos += add.bytes.len();
                //stats.add();
            },
            smdiff_common::Op::Copy(copy) => {
                match copy.src{
                    smdiff_common::CopySrc::Dict => {
                        let src = match src.as_mut(){
                            Some(s) => s,
                            None => return Err(vp_error()),
                        };
                        
                        src.seek(std::io::SeekFrom::Start(copy.addr))?;
                        
                        let len = copy.len as usize;
                        src.read_exact(&mut copy_buffer.vp_mut()[..len])?;
                        /*+*/ let ghost b = copy_buffer@.take(len as int); /*-*/
                        cur_o.write_all(&copy_buffer[..len])?;
                        /*+*/ proof { lemma_written(d0, (*cur_o).wdata(), p0, b); ax_sink_len(*cur_o); assert(Some(b) =~~= op_out(all[k], sd, o)); } /*-*/
                        *cur_o_pos += len;
                    },
                    smdiff_common::CopySrc::Output => {
                        let start_pos = *cur_o_pos;
                        if (match copy.addr.checked_add(copy.len as u64) { Some(end) => end > start_pos as u64, None => true, }) {
                            return Err(vp_error());
                        }
                        cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;
                        
                        let len = copy.len as usize;
                        cur_o.read_exact(&mut copy_buffer.vp_mut()[..len])?;
                        
                        cur_o.seek(std::io::SeekFrom::Start(start_pos as u64))?;
                        /*+*/ let ghost b = copy_buffer@.take(len as int); /*-*/
                        cur_o.write_all(&copy_buffer[..len])?;
                        /*+*/ proof { lemma_written(d0, (*cur_o).wdata(), p0, b); ax_sink_len(*cur_o); assert(Some(b) =~~= op_out(all[k], sd, o)); } /*-*/
                        *cur_o_pos += len;
                    },
                }
                //stats.copy();
            },
            smdiff_common::Op::Run(run) => {
                //stats.run();
                let len = run.len as usize;
                copy_buffer.vp_mut()[..len].fill(run.byte);
                /*+*/ let ghost b = copy_buffer@.take(len as int); /*-*/
                cur_o.write_all(&copy_buffer[..len])?;
                /*+*/ proof { lemma_written(d0, (*cur_o).wdata(), p0, b); ax_sink_len(*cur_o); assert(Some(b) =~~= op_out(all[k], sd, o)); } /*-*/
                *cur_o_pos += len;
            },
        }
        
    }
    /*+*/ proof { assert(all.take(all.len() as int) =~= all); } /*-*/
    Ok(())
}
//@end

pub open spec fn empty_sink<W: Write>(w: W) -> bool { w.wdata().len() == 0 }

/// s was read, it is the patch `secs`, and applying it gives o, which is now the content of the sink up to its length
pub open spec fn applied<P: Read, W: Write>(p0: P, p1: P, w: W, src: Option<Seq<u8>>, s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>) -> bool {
    &&& eaten(p0, p1, s) && is_patch(plain(), s, secs) && run_ops(flat_ops(secs), src, Seq::empty()) == Some(o)
    &&& o.len() <= w.wdata().len() && w.wdata().take(o.len() as int) == o
}

//@item smdiff-decoder/src/lib.rs fn apply_no_sec_comp
fn apply_no_sec_comp<P:Read,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures
        r.is_ok() ==> same_stream(*old(patch), *final(patch)), (*final(sink)).wreliable() == (*old(sink)).wreliable(),
        match r {
            Ok(_) => exists|s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>| #[trigger] applied(*old(patch), *final(patch), *final(sink), src_data(src), s, secs, o) && (empty_sink(*old(sink)) ==> (*final(sink)).wdata() == o),
            Err(_) => (*old(patch)).rreliable() && (*old(sink)).wreliable() && src_reliable(src) ==>
                forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(plain(), *old(patch), t, secs) ==> cannot(flat_ops(secs), src_data(src), Seq::empty()),
        }
/*-*/ {
    /*+*/ let ghost p0 = *patch; let ghost sd = src_data(src); let ghost sr = src_reliable(src); let ghost w0 = *sink; let ghost e: Seq<u8> = Seq::empty(); /*-*/
    let mut cur_o_pos = 0;
    /*+*/ let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty();
    proof { bx_mut_rdata::<P>(); bx_mut_rpos::<P>(); bx_mut_rreliable::<P>(); lemma_at_init(plain(), p0, sd, e); ax_rpos(p0); assert((*sink).wdata().take(0) =~= e); } /*-*/
    let mut reader = smdiff_reader::SectionIterator::new(patch);
    /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/
    loop
        /*+*/ invariant
            src_data(src) == sd, src_reliable(src) == sr, (*sink).wreliable() == w0.wreliable(), cur_o_pos <= (*sink).wdata().len(),
            empty_sink(w0) ==> (*sink).wdata().len() == cur_o_pos,
            at_sections(plain(), p0, *reader.source, z, secs, produced(*sink, cur_o_pos), sd, e, reader.done),
            same_stream(p0, *reader.source), *final(reader.source) == *final(patch),
            p0 == *old(patch), w0 == *old(sink), e == Seq::<u8>::empty(),
        ensures reader.done,
        decreases (*reader.source).rdata().len() - (*reader.source).rpos(), /*-*/
    {
        /*+*/ let ghost rd0 = reader; let ghost g = *reader.source; let ghost out = produced(*sink, cur_o_pos);
        proof { bx_mut_rdata::<P>(); bx_mut_rpos::<P>(); bx_mut_rreliable::<P>(); bx_mut_rid::<P>(); lemma_plain_proper(); } /*-*/
        match reader.next_borrowed() {
            Some(res) => {
                /*+*/ proof {
                    if res is Err && p0.rreliable() {
                        assert forall|u: Seq<u8>, h: SHead, ops: Seq<SOp>| plain()(u, h, ops) implies !#[trigger] offers_sec(g, u, h, ops) by {
                            assert(!crate::smdiff_reader::offers_section(rd0.source, u, h, ops));
                        }
                        lemma_at_error(plain(), p0, g, z, secs, out, sd, e);
                    }
                } /*-*/
                let (ops,_header) = res?;
                /*+*/ let ghost x = Sec { h: shead(_header), ops: sops(ops@) };
                let ghost u = choose|s: Seq<u8>| is_section(s, x.h, x.ops) && offers(rd0.source, s);
                proof { if cannot(x.ops, sd, out) { lemma_at_fail(plain(), p0, g, z, secs, out, sd, e, u, x); } } /*-*/
                apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;
                /*+*/ proof {
                    let u = choose|s: Seq<u8>| is_section(s, x.h, x.ops) && #[trigger] eaten(rd0.source, reader.source, s);
                    assert(eaten(g, *reader.source, u));
                    lemma_section_nonempty(u, x.h, x.ops);
                    lemma_at_step(plain(), p0, g, *reader.source, z, secs, out, sd, e, u, x, produced(*sink, cur_o_pos));
                    z = z + u;
                    secs = secs.push(x);
                } /*-*/
            }
            _ => break
        }
    }
    /*+*/ assert(applied(p0, *reader.source, *sink, sd, z, secs, produced(*sink, cur_o_pos))); /*-*/
    Ok(())
}
//@end

/// s is the patch `secs` (with or without secondary compression) and applying it gives o, which is now the content of the sink up to its length
pub open spec fn patched<P: Read, W: Write>(p0: P, w: W, src: Option<Seq<u8>>, s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>) -> bool {
    &&& offers(p0, s) && is_patch(crate::reader::packed(), s, secs) && run_ops(flat_ops(secs), src, Seq::empty()) == Some(o)
    &&& o.len() <= w.wdata().len() && w.wdata().take(o.len() as int) == o
}
/// the patch can only be the one that was applied, and its end does not depend on what follows it
pub proof fn theorem_one_result<P: Read, W: Write>(p0: P, w: W, src: Option<Seq<u8>>, s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>, t: Seq<u8>, us: Seq<Sec>)
    requires patched(p0, w, src, s, secs, o), offers_patch(crate::reader::packed(), p0, t, us)
    ensures s == t, secs == us, run_ops(flat_ops(us), src, Seq::empty()) == Some(w.wdata().take(o.len() as int))
{
    lemma_offers_prefix(p0, s);
    lemma_offers_prefix(p0, t);
    crate::reader::lemma_packed_proper();
    lemma_patch_unique(crate::reader::packed(), s, t, rest(p0), secs, us);
}

//@item smdiff-decoder/src/lib.rs fn apply_patch
fn apply_patch<P:Read+Seek,R:Read+Seek,W:Write+Read+Seek>(patch:&mut P,mut src:Option<&mut R>,sink:&mut W) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures
        (*final(sink)).wreliable() == (*old(sink)).wreliable(),
        match r {
            Ok(_) => exists|s: Seq<u8>, secs: Seq<Sec>, o: Seq<u8>| #[trigger] patched(*old(patch), *final(sink), src_data(src), s, secs, o) && (empty_sink(*old(sink)) ==> (*final(sink)).wdata() == o),
            Err(_) => (*old(patch)).rreliable() && (*old(sink)).wreliable() && src_reliable(src) ==>
                forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(crate::reader::packed(), *old(patch), t, secs) ==> cannot(flat_ops(secs), src_data(src), Seq::empty()),
        }
/*-*/ {
    /*+*/ let ghost p0 = *patch; let ghost sd = src_data(src); let ghost sr = src_reliable(src); let ghost w0 = *sink; let ghost e: Seq<u8> = Seq::empty(); let ghost pk = crate::reader::packed(); /*-*/
    let mut cur_o_pos: usize = 0;
    //let mut stats = Stats::default();
    /*+*/ let ghost mut z: Seq<u8> = Seq::empty(); let ghost mut secs: Seq<Sec> = Seq::empty();
    proof { bx_mut_rdata::<P>(); bx_mut_rpos::<P>(); bx_mut_rreliable::<P>(); assert((*sink).wdata().take(0) =~= e); } /*-*/
    let mut reader = crate::reader::SectionIterator::new(patch);
    /*+*/ let ghost b0 = reader.source;
    proof { lemma_at_init(pk, b0, sd, e); ax_rpos(b0); } /*-*/
    /*+*/ #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] /*-*/
    loop
        /*+*/ invariant
            src_data(src) == sd, src_reliable(src) == sr, (*sink).wreliable() == w0.wreliable(), cur_o_pos <= (*sink).wdata().len(),
            empty_sink(w0) ==> (*sink).wdata().len() == cur_o_pos,
            at_sections(pk, b0, reader.source, z, secs, produced(*sink, cur_o_pos), sd, e, reader.done),
            b0.rdata() == p0.rdata(), b0.rpos() == p0.rpos(), b0.rreliable() == p0.rreliable(), same_stream(b0, reader.source),
            p0 == *old(patch), w0 == *old(sink), e == Seq::<u8>::empty(), pk == crate::reader::packed(),
        ensures reader.done,
        decreases reader.source.rdata().len() - reader.source.rpos(), /*-*/
    {
        /*+*/ let ghost g = reader.source; let ghost out = produced(*sink, cur_o_pos);
        proof { crate::reader::lemma_packed_proper(); } /*-*/
        match reader.next_borrowed() {
            Some(res) => {
                /*+*/ proof {
                    if res is Err && p0.rreliable() {
                        assert forall|u: Seq<u8>, h: SHead, ops: Seq<SOp>| pk(u, h, ops) implies !#[trigger] offers_sec(g, u, h, ops) by {
                            assert(!crate::reader::offers_csec(g, u, h, ops));
                        }
                        lemma_at_error(pk, b0, g, z, secs, out, sd, e);
                        lemma_same_offers(p0, b0, pk);
                    }
                } /*-*/
                let (ops,_header) = res?;
                /*+*/ let ghost x = Sec { h: shead(_header), ops: sops(ops@) };
                let ghost u = choose|s: Seq<u8>| crate::reader::is_csec(s, x.h, x.ops) && #[trigger] offers(g, s);
                proof { if cannot(x.ops, sd, out) { lemma_at_fail(pk, b0, g, z, secs, out, sd, e, u, x); lemma_same_offers(p0, b0, pk); } } /*-*/
                apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;
                /*+*/ proof {
                    let u = crate::reader::lemma_csec_read(g, reader.source, x.h, x.ops);
                    lemma_at_step(pk, b0, g, reader.source, z, secs, out, sd, e, u, x, produced(*sink, cur_o_pos));
                    z = z + u;
                    secs = secs.push(x);
                } /*-*/
            }
            _ => break
        }
    }
    /*+*/ assert(offers(b0, z)); assert(patched(p0, *sink, sd, z, secs, produced(*sink, cur_o_pos))); /*-*/
    Ok(())
}
//@end
/// two readers at the same place offer the same patches
pub proof fn lemma_same_offers<A: Read, B: Read>(a: A, b: B, p: SecPred)
    requires a.rdata() == b.rdata(), a.rpos() == b.rpos()
    ensures forall|t: Seq<u8>, secs: Seq<Sec>| offers_patch(p, a, t, secs) == #[trigger] offers_patch(p, b, t, secs),
        forall|t: Seq<u8>, secs: Seq<Sec>| #[trigger] offers_patch(p, a, t, secs) == offers_patch(p, b, t, secs)
{ }

}
}
