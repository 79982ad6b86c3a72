// C09: numeric columns are written out completely and in order
const FID: u64 = 9;
use super::col::*;

fn go<R: Row>() {
    let s = spec();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, _| {});
    chk!(ok);
    chk!(nd::block_on(e.flush(&mut k)).is_ok());
    check_blocks(&k.blocks, &aliased(&s, &rows), s.nullable);
    obs_blocks(&k);
    if k.blocks.len() > 1 {
        reach!(1);
    }
    if rows.iter().all(|r| r.is_none()) && rows.len() > 0 {
        reach!(2);
    }
    if rows.is_empty() {
        reach!(3);
    }
}
#[no_mangle]
pub extern "C" fn h_c09() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        _ => go::<f64>(),
    }
}
