// C28: columns encoded side by side do not mix
const FID: u64 = 28;
use super::col::*;

/// the buffers of the rows cut at these places
fn buffers<R: Row>(s: &Spec, rows: &[Option<R>], cuts: &[usize]) -> Vec<R::Buf> {
    let mut out = Vec::new();
    let mut pos = 0;
    for &end in cuts {
        let mut b = R::buf(s.nullable);
        for r in &rows[pos..end] {
            R::push(&mut b, r.as_ref());
        }
        out.push(b);
        pos = end;
    }
    out
}
fn go<A: Row, B: Row>() {
    let s = spec();
    let t = Spec { nullable: nd::param(12) == 1, pre: nd::param(11) as usize, ..s };
    let (ra, rb) = (rows::<A>(&s), rows::<B>(&t));
    let (wa, wb) = (aliased(&s, &ra), aliased(&t, &rb));
    let (ba, bb) = (buffers(&s, &ra, &cuts(&s)), buffers(&t, &rb, &cuts(&t)));
    let (mut ka, mut kb) = (sink(), sink());
    let mut ea = A::encoder(s.bs, s.nullable);
    let mut eb = B::encoder(t.bs, t.nullable);
    // a third column, of patterned rows, a buffer of which is encoded before every step
    let u = Spec { nullable: !s.nullable, n: 0, bufs: 1, pre: nd::param(13) as usize, pat: 2, every: 5, ..s };
    let rc = rows::<A>(&u);
    let bc = buffers(&u, &rc, &cuts(&u));
    let mut kc = sink();
    let mut ec = A::encoder(u.bs, u.nullable);
    let mut next = bc.iter();
    let (mut i, mut j) = (0, 0);
    let mut last = 2;
    // a column's step: its next buffer, then its flush
    while i <= ba.len() || j <= bb.len() {
        if let Some(b) = next.next() {
            chk!(nd::block_on(ec.encode(b, &mut kc)).is_ok());
        }
        let a = if i > ba.len() {
            false
        } else if j > bb.len() {
            true
        } else {
            nd::flip()
        };
        if a {
            if i < ba.len() {
                chk!(nd::block_on(ea.encode(&ba[i], &mut ka)).is_ok());
            } else {
                chk!(nd::block_on(ea.flush(&mut ka)).is_ok());
            }
            i += 1;
        } else {
            if j < bb.len() {
                chk!(nd::block_on(eb.encode(&bb[j], &mut kb)).is_ok());
            } else {
                chk!(nd::block_on(eb.flush(&mut kb)).is_ok());
            }
            j += 1;
        }
        if last == !a as u8 {
            reach!(1);
        }
        last = a as u8;
    }
    for b in next {
        chk!(nd::block_on(ec.encode(b, &mut kc)).is_ok());
    }
    chk!(nd::block_on(ec.flush(&mut kc)).is_ok());
    check_blocks(&ka.blocks, &wa, s.nullable);
    check_blocks(&kc.blocks, &rc, u.nullable);
    if kc.blocks.len() > 1 {
        reach!(3);
    }
    check_blocks(&kb.blocks, &wb, t.nullable);
    obs_blocks(&ka);
    obs_blocks(&kb);
    if ka.blocks.len() > 1 && kb.blocks.len() > 1 {
        reach!(2);
    }
}
/// p0: types of both columns, p1..p9: as in Spec, p11, p12: patterned rows and nullability of
/// the second, p13: patterned rows of the third
#[no_mangle]
pub extern "C" fn h_c28_enc() {
    match nd::param(0) {
        0 => go::<i32, i32>(),
        1 => go::<i64, i32>(),
        2 => go::<f64, u64>(),
        3 => go::<i32, Vec<u8>>(),
        _ => go::<Vec<u8>, Vec<u8>>(),
    }
}
