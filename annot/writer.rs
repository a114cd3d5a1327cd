pub mod smdiff_writer {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common::*;
use crate::format::*;
verus! {

/// the parts of a control byte may be put together in any order
proof fn lemma_or_parts()
    ensures
        forall|c: u8| c <= 7 ==> #[trigger] (c << 3u8) == c * 8,
        forall|a: u8, b: u8| a <= 0x7f && (b == 0 || b == 0x80) ==> (#[trigger] (a | b)) == a + b,
        forall|a: u8, b: u8| b <= 0x7f && (a == 0 || a == 0x80) ==> (#[trigger] (a | b)) == a + b,
        forall|a: u8, b: u8| (a <= 0x3f || 0x80 <= a <= 0xbf) && (b == 0 || b == 0x40) ==> (#[trigger] (a | b)) == a + b,
        forall|a: u8, b: u8| (b <= 0x3f || 0x80 <= b <= 0xbf) && (a == 0 || a == 0x40) ==> (#[trigger] (a | b)) == a + b,
        forall|a: u8, b: u8| a <= 0x3f && (b == 0x40 || b == 0x80 || b == 0xc0) ==> (#[trigger] (a | b)) == a + b,
        forall|a: u8, b: u8| b <= 0x3f && (a == 0x40 || a == 0x80 || a == 0xc0) ==> (#[trigger] (a | b)) == a + b,
{
    assert(forall|c: u8| c <= 7 ==> #[trigger] (c << 3u8) == c * 8) by (bit_vector);
    assert(forall|a: u8, b: u8| a <= 0x7f && (b == 0 || b == 0x80) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
    assert(forall|a: u8, b: u8| b <= 0x7f && (a == 0 || a == 0x80) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
    assert(forall|a: u8, b: u8| (a <= 0x3f || 0x80 <= a <= 0xbf) && (b == 0 || b == 0x40) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
    assert(forall|a: u8, b: u8| (b <= 0x3f || 0x80 <= b <= 0xbf) && (a == 0 || a == 0x40) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
    assert(forall|a: u8, b: u8| a <= 0x3f && (b == 0x40 || b == 0x80 || b == 0xc0) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
    assert(forall|a: u8, b: u8| b <= 0x3f && (a == 0x40 || a == 0x80 || a == 0xc0) ==> (#[trigger] (a | b)) == a + b) by (bit_vector);
}

//@item smdiff-writer/src/lib.rs fn write_section_header
fn write_section_header<W: std::io::Write>(header: &SectionHeader, writer:&mut W) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        r.is_ok() ==> exists|s: Seq<u8>| is_head(s, shead(*header)) && (*final(writer)).written() == #[trigger] ((*old(writer)).written() + s),
        (*old(writer)).wreliable() && header.compression_algo <= 7 && (header.format is Segregated ==> header.num_add_bytes <= header.output_size) ==> r.is_ok(),
/*-*/ {
    if header.compression_algo > 7 {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Compression algorithm does not fit in the header"));
    }
    if header.format == Format::Segregated && header.num_add_bytes > header.output_size {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of add bytes is greater than the output size"));
    }
    /*+*/ proof {
        let c = header.compression_algo;
        assert(c <= 7 ==> (c << 3u8) == c * 8 && ((c << 3u8) | 0x40u8) == c * 8 + 0x40 && ((c << 3u8) | 0x80u8) == c * 8 + 0x80
            && (((c << 3u8) | 0x40u8) | 0x80u8) == c * 8 + 0xC0) by (bit_vector);
        lemma_or_parts();
        lemma_head_intro(shead(*header));
    } let ghost w0 = (*writer).written(); /*-*/
    let mut cntl_byte = header.compression_algo << SECTION_COMPRESSION_RSHIFT;
    if let Format::Segregated = header.format {
        cntl_byte |= SECTION_FORMAT_BIT;
    }
    if header.more_sections{
        cntl_byte |= SECTION_CONTINUE_BIT;
    }
    write_u8(writer, cntl_byte)?;
    write_u_varint(writer, header.num_operations as u64)?;
    let output_size = if header.format == Format::Segregated {
        write_u_varint(writer, header.num_add_bytes as u64)?;
        header.output_size - header.num_add_bytes
    } else {
        header.output_size
    };
    write_u_varint(writer, output_size as u64)?;
    /*+*/ proof {
        let h = shead(*header);
        let s = seq![control(h)] + uv(h.n) + (if h.seg { uv(h.adds) } else { Seq::empty() }) + uv(if h.seg { (h.size - h.adds) as nat } else { h.size });
        assert((*writer).written() =~= w0 + s);
    } /*-*/
    Ok(())
}
//@end

//@item smdiff-writer/src/lib.rs fn write_op_byte_and_size
fn write_op_byte_and_size<W: std::io::Write,A:AddOp>(writer: &mut W, op: &Op<A>) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires
        op_len(*op) <= 65535,
        vp_strict() ==> op_ok(sop(*op)),
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        r.is_ok() ==> op_ok(sop(*op)) && exists|s: Seq<u8>| is_size(s, sflag(sop(*op)), slen(sop(*op))) && (*final(writer)).written() == #[trigger] ((*old(writer)).written() + s),
        (*old(writer)).wreliable() ==> r.is_ok(),
/*-*/ {
    /*+*/ let ghost w0 = (*writer).written(); /*-*/
    let byte = op.bit_flag();
    let size = size_routine(op.oal());
    /*~may_panic| assert!(if op.is_run() { op.oal() <= 62 } else { true }); |~*/ vp_guard(if op.is_run() { op.oal() <= 62 } else { true }); /*~*/
    /*+*/ proof {
        assert(forall|b: u8, l: u8| (b == 0 || b == 0x40u8 || b == 0x80u8 || b == 0xC0u8) && l <= 63 ==> #[trigger] (b | l) == b + l) by (bit_vector);
    } /*-*/
    match size {
        Size::Done(len) => write_u8(writer, byte | len)?,
        Size::U8And62 => {
            /*~may_panic| assert!(!op.is_run()); |~*/ vp_guard(!op.is_run()); /*~*/
            write_u8(writer, byte | SIZE_MASK)?;
            write_u8(writer, (op.oal() - 62) as u8)?
        },
        Size::U16 => {
            /*~may_panic| assert!(!op.is_run()); |~*/ vp_guard(!op.is_run()); /*~*/
            write_u8(writer, byte)?;
            write_u16(writer, op.oal())?;
        }
    }
    /*+*/ proof {
        let n = op_len(*op);
        let s = match size { Size::Done(len) => seq![(byte + n) as u8], Size::U8And62 => seq![(byte + 63) as u8, (n - 62) as u8], Size::U16 => seq![byte] + le16(n as u16) };
        assert((*writer).written() =~= w0 + s);
    } /*-*/
    Ok(())
}
//@end

//@item smdiff-writer/src/lib.rs fn write_op_addtl
fn write_op_addtl<W: std::io::Write,A:AddOp>(writer: &mut W, op: &Op<A>, cur_d_addr: &mut u64, cur_o_addr: &mut u64) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        r.is_ok() ==> exists|s: Seq<u8>| is_tail(s, sop(*op), base_of(sop(*op), *old(cur_d_addr), *old(cur_o_addr)), true) && (*final(writer)).written() == #[trigger] ((*old(writer)).written() + s),
        r.is_ok() ==> *final(cur_d_addr) == (match sop(*op) { SOp::Copy { dict, addr, .. } => if dict { addr } else { *old(cur_d_addr) }, _ => *old(cur_d_addr) }),
        r.is_ok() ==> *final(cur_o_addr) == (match sop(*op) { SOp::Copy { dict, addr, .. } => if dict { *old(cur_o_addr) } else { addr }, _ => *old(cur_o_addr) }),
        (*old(writer)).wreliable() ==> r.is_ok(),
/*-*/ {
    /*+*/ let ghost w0 = (*writer).written(); proof { assert forall|n: i64| #[trigger] unzz(zz(n)) == n by { lemma_zz(n); } assert forall|n: i64| is_uv(uv(#[trigger] zz(n) as nat), zz(n) as nat) by { lemma_uv_ok(zz(n) as nat); } } /*-*/
    match op {
        Op::Run(run) => write_u8(writer, run.byte)?,
        Op::Add(add) => writer.write_all(&add.bytes())?,
        Op::Copy (Copy{ src,addr, .. }) => {
            match src {
                CopySrc::Dict => {
                    let int = diff_addresses_to_i64(*cur_d_addr, *addr);
                    write_i_varint(writer, int)?;
                    *cur_d_addr = *addr;
                },
                CopySrc::Output =>{
                    let int = diff_addresses_to_i64(*cur_o_addr, *addr);
                    write_i_varint(writer, int)?;
                    *cur_o_addr = *addr;
                },
            }
        }
    }
    Ok(())
}
//@end

/// the header describes the operations
pub open spec fn describes<A: AddOp>(h: SectionHeader, ops: Seq<Op<A>>) -> bool {
    &&& ops_ok(sops(ops))
    &&& ops.len() == h.num_operations
    &&& total(sops(ops)) == h.output_size
    &&& h.output_size <= 16777215
    &&& h.format is Segregated ==> adds(sops(ops)).len() == h.num_add_bytes
}

//@item smdiff-writer/src/lib.rs fn write_ops
fn write_ops<W: std::io::Write,A:AddOp>(ops: &[Op<A>], header:&SectionHeader, writer: &mut W) -> /*+*/ (r: /*-*/ std::io::Result<()> /*+*/)
    requires
        vp_strict() ==> ops_ok(sops(ops@)),
    ensures
        (*final(writer)).wreliable() == (*old(writer)).wreliable(),
        r.is_ok() ==> describes(*header, ops@),
        r.is_ok() ==> exists|s: Seq<u8>| is_body(s, sops(ops@), header.format is Interleaved) && (*final(writer)).written() == #[trigger] ((*old(writer)).written() + s),
        (*old(writer)).wreliable() && describes(*header, ops@) ==> r.is_ok(),
/*-*/ {
    /*+*/ hide(is_ops); hide(is_op); hide(is_body); hide(is_size); hide(is_tail); hide(total); hide(adds); hide(last_addr); /*-*/
    if header.output_size as usize > MAX_WIN_SIZE{
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Output size is greater than MAX_WIN_SIZE"));
    }
    if ops.len() != header.num_operations as usize {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of operations does not match header"));
    }
    let mut last_d_addr = 0;
    let mut last_o_addr = 0;
    let mut total_content_len = 0;
    let mut add_bytes_written = 0;
    let mut add_bytes_slices = Vec::new();
    /*+*/ let ghost w0 = (*writer).written(); let ghost mut s: Seq<u8> = Seq::empty(); let ghost mut done: Seq<SOp> = Seq::empty();
    let ghost inter = header.format is Interleaved;
    proof { assert(sops(ops@.take(0)) =~= done); reveal(is_ops); reveal(total); reveal(adds); reveal(last_addr); reveal(flat); } /*-*/
    for op in /*+*/ it: /*-*/ ops /*+*/
        invariant
            it.seq().len() == ops@.len(), ops@.len() == header.num_operations, inter == (header.format is Interleaved),
            forall|i: int| 0 <= i < ops@.len() ==> *(#[trigger] it.seq()[i]) == ops@[i],
            (*writer).wreliable() == (*old(writer)).wreliable(),
            done == sops(ops@.take(it.index@)),
            (*writer).written() == w0 + s,
            is_ops(s, done, inter),
            ops_ok(done), total_content_len == total(done),
            total(done) <= it.index@ * 65535, it.index@ <= ops@.len() <= u32::MAX, header.output_size <= 16777215,
            last_d_addr == last_addr(done, true), last_o_addr == last_addr(done, false),
            !inter ==> add_bytes_written == adds(done).len() && adds(done) == flat(add_bytes_slices@),
            vp_strict() ==> ops_ok(sops(ops@)),
            w0 == (*old(writer)).written(),
    /*-*/ {
        /*+*/ let ghost i = it.index@; let ghost w1 = (*writer).written();
        proof {
            assert(*op == ops@[i]);
            lemma_sops_push(ops@, i);
            lemma_total_push(done, sop(*op));
            lemma_total_bound(done);
            assert(vp_strict() ==> op_ok(sops(ops@)[i]));
            assert(describes(*header, ops@) ==> op_ok(sops(ops@)[i]));
            assert((i + 1) * 65535 == i * 65535 + 65535) by (nonlinear_arith);
        } /*-*/
        if let Op::Add(a) = op {
            if a.bytes().len() > MAX_INST_SIZE {
                return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Add operation is larger than MAX_INST_SIZE"));
            }
        }
        total_content_len += op.oal() as usize;
        write_op_byte_and_size(writer, &op)?;
        /*+*/ let ghost w2 = (*writer).written(); let ghost a2 = add_bytes_slices@; let ghost d1 = done; let ghost s1 = s;
        let ghost t1 = choose|t: Seq<u8>| is_size(t, sflag(sop(*op)), slen(sop(*op))) && w2 == #[trigger] (w1 + t); /*-*/
        match header.format{
            Format::Interleaved => write_op_addtl(writer, &op, &mut last_d_addr, &mut last_o_addr)?,
            Format::Segregated => {
                match op {
                    Op::Add(a) => {
                        let slice = a.bytes();
                        add_bytes_written += slice.len();
                        add_bytes_slices.push(slice)
                    },
                    a => write_op_addtl(writer, a, &mut last_d_addr, &mut last_o_addr)?,
                }
            },
        }
        /*+*/ proof {
            let o = sop(*op);
            let base = base_of(o, last_addr(d1, true), last_addr(d1, false));
            reveal(is_tail);
            let t2 = if !inter && o is Add { Seq::<u8>::empty() } else { choose|t: Seq<u8>| is_tail(t, o, base, true) && (*writer).written() == #[trigger] (w2 + t) };
            let t = t1 + t2;
            lemma_op_intro(t1, t2, o, last_addr(d1, true), last_addr(d1, false), inter);
            lemma_ops_push(s1, d1, t, o, inter);
            s = s1 + t;
            done = d1.push(o);
            assert((*writer).written() =~= w0 + s);
            assert forall|j: int| 0 <= j < done.len() implies op_ok(#[trigger] done[j]) by { if j < d1.len() { assert(op_ok(d1[j])); } }
            if !inter {
                if o is Add { reveal(is_tail); lemma_flat_push(a2, add_bytes_slices@.last()); assert(add_bytes_slices@ =~= a2.push(add_bytes_slices@.last())); }
                else { assert(adds(done) =~= adds(d1)); }
            }
        } /*-*/
    }
    /*+*/ proof { assert(ops@.take(ops@.len() as int) =~= ops@); } let ghost w3 = (*writer).written(); /*-*/
    if header.format == Format::Segregated {
        for slice in /*+*/ it: /*-*/ add_bytes_slices /*+*/
            invariant
                it.seq() == add_bytes_slices@,
                (*writer).wreliable() == (*old(writer)).wreliable(),
                (*writer).written() == w3 + flat(add_bytes_slices@.take(it.index@)),
        /*-*/ {
            /*+*/ let ghost w4 = (*writer).written(); /*-*/
            writer.write_all(slice)?;
            /*+*/ proof {
                let x = add_bytes_slices@;
                assert(x.take(it.index@ + 1) =~= x.take(it.index@).push(slice));
                lemma_flat_push(x.take(it.index@), slice);
                assert((*writer).written() =~= w3 + flat(x.take(it.index@ + 1)));
            } /*-*/
        }
        /*+*/ proof { assert(add_bytes_slices@.take(add_bytes_slices@.len() as int) =~= add_bytes_slices@); } /*-*/
        if add_bytes_written != header.num_add_bytes as usize{
            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "Number of add bytes does not match header"));
        }
    }
    if total_content_len as usize != header.output_size as usize {
        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!("Total content length {} does not match output size {}", total_content_len, header.output_size)));
    }
    /*+*/ proof {
        let b = s + (if inter { Seq::<u8>::empty() } else { adds(done) });
        lemma_body_intro(s, done, inter);
        assert((*writer).written() =~= w0 + b);
    } /*-*/
    Ok(())
}
//@end

pub open spec fn flat(v: Seq<&[u8]>) -> Seq<u8>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { flat(v.drop_last()) + v.last()@ } }
pub proof fn lemma_flat_push(v: Seq<&[u8]>, x: &[u8])
    ensures flat(v.push(x)) == flat(v) + x@
{ assert(v.push(x).drop_last() =~= v); }

}
}
