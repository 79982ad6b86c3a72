// C13: how rows are batched does not change what is written
const FID: u64 = 13;
use super::col::*;

fn go<R: Row>() {
    let s = spec();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    chk!(feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, _| {}));
    chk!(nd::block_on(e.flush(&mut k)).is_ok());
    let mut e = R::encoder(s.bs, s.nullable);
    let mut one = sink();
    let again = aliased(&s, &rows);
    chk!(feed::<R, _>(&mut e, &mut one, &again, &[rows.len()], &s, |_, _| {}));
    chk!(nd::block_on(e.flush(&mut one)).is_ok());
    chk!(k.blocks.len() == one.blocks.len());
    for (a, b) in k.blocks.iter().zip(one.blocks.iter()) {
        chk!(a.0 == b.0);
        chk!(nd::same(&a.1, &b.1));
    }
    obs_blocks(&k);
    if k.blocks.len() > 2 {
        reach!(1);
    }
}
#[no_mangle]
pub extern "C" fn h_c13() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
