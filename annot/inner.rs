// Operations of the encoder and their meaning (C01, C02, C08).
pub mod inner {
use vstd::prelude::*;
use crate::io::*;
use crate::smdiff_common;
use crate::smdiff_common::*;
use crate::format::*;
verus! {

//@item smdiff-encoder/src/lib.rs struct Add
struct Add <'a> {
    bytes: &'a [u8],
}
//@end
impl<'a> AddOp for Add<'a> {
    open spec fn view(&self) -> Seq<u8> { self.bytes@ }
//@item smdiff-encoder/src/lib.rs impl AddOp for Add / fn bytes
    fn bytes(&self) -> &[u8] {
        &self.bytes
    }
//@end
}
//@item smdiff-encoder/src/lib.rs type Op
type Op<'a> = smdiff_common::Op<Add<'a>>;
//@end

//@item smdiff-encoder/src/encoder.rs enum InnerOp
enum InnerOp{
    MatchSrc{start:usize,length:usize,o_pos:usize},
    MatchTrgt{start:usize,length:usize,o_pos:usize},
    Run{byte:u8,length:usize,o_pos:usize},
}
//@end
pub open spec fn ipos(o: InnerOp) -> int { match o { InnerOp::MatchSrc { start, length, o_pos } => o_pos as int, InnerOp::MatchTrgt { start, length, o_pos } => o_pos as int, InnerOp::Run { byte, length, o_pos } => o_pos as int } }
pub open spec fn ilen(o: InnerOp) -> int { match o { InnerOp::MatchSrc { start, length, o_pos } => length as int, InnerOp::MatchTrgt { start, length, o_pos } => length as int, InnerOp::Run { byte, length, o_pos } => length as int } }
pub open spec fn iend(o: InnerOp) -> int { ipos(o) + ilen(o) }
/// the operation produces exactly the bytes of the target at its position
pub open spec fn iop_ok(o: InnerOp, src: Seq<u8>, trgt: Seq<u8>) -> bool {
    match o {
        InnerOp::MatchSrc { start, length, o_pos } => start + length <= src.len() && o_pos + length <= trgt.len() && src.subrange(start as int, start + length) == trgt.subrange(o_pos as int, o_pos + length),
        InnerOp::MatchTrgt { start, length, o_pos } => start + length <= o_pos && o_pos + length <= trgt.len() && trgt.subrange(start as int, start + length) == trgt.subrange(o_pos as int, o_pos + length),
        InnerOp::Run { byte, length, o_pos } => o_pos + length <= trgt.len() && forall|i: int| o_pos <= i < o_pos + length ==> #[trigger] trgt[i] == byte,
    }
}
/// the operation with its first k bytes dropped
pub open spec fn idrop(o: InnerOp, k: int) -> InnerOp {
    match o {
        InnerOp::MatchSrc { start, length, o_pos } => InnerOp::MatchSrc { start: (start + k) as usize, length: (length - k) as usize, o_pos: (o_pos + k) as usize },
        InnerOp::MatchTrgt { start, length, o_pos } => InnerOp::MatchTrgt { start: (start + k) as usize, length: (length - k) as usize, o_pos: (o_pos + k) as usize },
        InnerOp::Run { byte, length, o_pos } => InnerOp::Run { byte, length: (length - k) as usize, o_pos: (o_pos + k) as usize },
    }
}
/// the operation cut to its first n bytes
pub open spec fn icut(o: InnerOp, n: int) -> InnerOp {
    match o {
        InnerOp::MatchSrc { start, length, o_pos } => InnerOp::MatchSrc { start, length: n as usize, o_pos },
        InnerOp::MatchTrgt { start, length, o_pos } => InnerOp::MatchTrgt { start, length: n as usize, o_pos },
        InnerOp::Run { byte, length, o_pos } => InnerOp::Run { byte, length: n as usize, o_pos },
    }
}
pub proof fn lemma_cut(o: InnerOp, n: int, src: Seq<u8>, trgt: Seq<u8>)
    requires iop_ok(o, src, trgt), 0 <= n <= ilen(o)
    ensures iop_ok(icut(o, n), src, trgt)
{
    match o {
        InnerOp::MatchSrc { start, length, o_pos } => { assert(src.subrange(start as int, start + n) =~= src.subrange(start as int, start + length).take(n)); assert(trgt.subrange(o_pos as int, o_pos + n) =~= trgt.subrange(o_pos as int, o_pos + length).take(n)); },
        InnerOp::MatchTrgt { start, length, o_pos } => { assert(trgt.subrange(start as int, start + n) =~= trgt.subrange(start as int, start + length).take(n)); assert(trgt.subrange(o_pos as int, o_pos + n) =~= trgt.subrange(o_pos as int, o_pos + length).take(n)); },
        _ => { },
    }
}
pub proof fn lemma_drop(o: InnerOp, k: int, src: Seq<u8>, trgt: Seq<u8>)
    requires iop_ok(o, src, trgt), 0 <= k <= ilen(o), src.len() <= usize::MAX, trgt.len() <= usize::MAX
    ensures iop_ok(idrop(o, k), src, trgt)
{
    match o {
        InnerOp::MatchSrc { start, length, o_pos } => { assert(src.subrange(start + k, start + length) =~= src.subrange(start as int, start + length).skip(k)); assert(trgt.subrange(o_pos + k, o_pos + length) =~= trgt.subrange(o_pos as int, o_pos + length).skip(k)); },
        InnerOp::MatchTrgt { start, length, o_pos } => { assert(trgt.subrange(start + k, start + length) =~= trgt.subrange(start as int, start + length).skip(k)); assert(trgt.subrange(o_pos + k, o_pos + length) =~= trgt.subrange(o_pos as int, o_pos + length).skip(k)); },
        _ => { },
    }
}
/// what the matching returns: operations that produce what stands at their position, in order of their positions and of their ends
pub open spec fn inner_ok(ops: Seq<InnerOp>, src: Seq<u8>, trgt: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < ops.len() ==> iop_ok(#[trigger] ops[i], src, trgt)
    &&& in_order(ops)
}
pub open spec fn in_order(ops: Seq<InnerOp>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ops.len() ==> ipos(#[trigger] ops[i]) <= ipos(#[trigger] ops[j]) && iend(ops[i]) <= iend(ops[j])
}

impl InnerOp {
//@item smdiff-encoder/src/encoder.rs impl InnerOp / fn o_pos
    fn o_pos(&self)-> /*+*/ (r: /*-*/ &usize /*+*/) ensures *r == ipos(*self) /*-*/ {
        match self {
            InnerOp::MatchSrc{o_pos,..} => o_pos,
            InnerOp::MatchTrgt{o_pos,..} => o_pos,
            InnerOp::Run{o_pos,..} => o_pos,
        }
    }
//@end
//@item smdiff-encoder/src/encoder.rs impl InnerOp / fn len
    fn len(&self)-> /*+*/ (r: /*-*/ &usize /*+*/) ensures *r == ilen(*self) /*-*/ {
        match self {
            InnerOp::MatchSrc{length, ..} => length,
            InnerOp::MatchTrgt{length,..} => length,
            InnerOp::Run{length,..} => length,
        }
    }
//@end
//@item smdiff-encoder/src/encoder.rs impl InnerOp / fn set_len
    fn set_len(&mut self,new_len:usize)
        /*+*/ requires new_len <= ilen(*old(self))
        ensures *final(self) == icut(*old(self), new_len as int) /*-*/
    {
        assert!(new_len <= *self.len(), "Cannot increase length of InnerOp");
        match self {
            InnerOp::MatchSrc{length,..} => *length = new_len,
            InnerOp::MatchTrgt{length,..} => *length = new_len,
            InnerOp::Run{length,..} => *length = new_len,
        }
    }
//@end
//@item smdiff-encoder/src/encoder.rs impl InnerOp / fn set_o_pos
    fn set_o_pos(&mut self,new_pos:usize)
        /*+*/ requires ipos(*old(self)) <= new_pos <= iend(*old(self)) <= usize::MAX,
            *old(self) matches InnerOp::MatchSrc { start, length, o_pos } ==> start + length <= usize::MAX,
            *old(self) matches InnerOp::MatchTrgt { start, length, o_pos } ==> start + length <= usize::MAX,
        ensures *final(self) == idrop(*old(self), new_pos - ipos(*old(self))) /*-*/
    {
        let cur_pos = *self.o_pos();
        let cur_end = cur_pos + *self.len();
        assert!(new_pos >= cur_pos, "Cannot decrease position of InnerOp");
        let diff = new_pos - cur_pos;
        match self {
            InnerOp::MatchSrc { start, length, o_pos } => {
                *start += diff;
                *o_pos = new_pos;
                *length -= diff;
            },
            InnerOp::MatchTrgt { start, length, o_pos } => {
                *start += diff;
                *o_pos = new_pos;
                *length -= diff;
            },
            InnerOp::Run { length, o_pos, .. } => {
                *o_pos = new_pos;
                *length -= diff;
            },
        }
        assert_eq!(self.o_pos() + self.len(), cur_end, "End position of InnerOp is not maintained");
    }
//@end
}

}
}
pub use crate::inner::Add;
pub use crate::inner::Op;
