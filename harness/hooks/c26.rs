// C26: a buffer whose nullability is not the column's is refused
const FID: u64 = 26;
use super::col::*;

fn go<R: Row>() {
    let s = spec();
    // rows of the column, in buffers of its nullability
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    chk!(feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, _| {}));
    // then one of the other nullability
    let o = Spec { nullable: !s.nullable, n: nd::param(10) as usize, pre: nd::param(11) as usize, ..s };
    let other = self::rows::<R>(&o);
    let mut b = R::buf(!s.nullable);
    for r in &other {
        R::push(&mut b, r.as_ref());
    }
    let before = k.blocks.len();
    nd::expect_panic(true);
    let r = nd::block_on(e.encode(&b, &mut k));
    nd::expect_panic(false);
    chk!(r.is_err() || other.is_empty());
    // what was written are rows of the column
    chk!(k.blocks.len() >= before);
    let mut pos = 0usize;
    let rows = aliased(&s, &rows);
    for (id, d) in &k.blocks {
        let end = *id as usize + 1;
        chk!(end >= pos && end <= rows.len());
        check_block(d, &rows[pos..end], s.nullable);
        pos = end;
    }
    if !rows.is_empty() {
        reach!(1);
    }
    if before > 0 {
        reach!(2);
    }
    if other.iter().any(|r| r.is_some()) {
        reach!(3);
    }
    if !other.is_empty() && other.iter().all(|r| r.is_none()) {
        reach!(4);
    }
    obs_blocks(&k);
}
/// p10: symbolic rows of the other buffer, p11: patterned ones before them
#[no_mangle]
pub extern "C" fn h_c26() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
