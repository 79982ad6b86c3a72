// C14, encoders: a block the sink refuses is reported by the call that wrote it
const FID: u64 = 14;
use super::col::*;

/// p0: type, p1..p9 as in Spec; the call to the sink that fails is any of the first p10
fn go<R: Row>() {
    let s = spec();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    k.any_fail = nd::param(10) as u32;
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, k| chk!(k.failed == 0));
    chk!(ok == (k.failed == 0));
    if !ok {
        reach!(1);
        return;
    }
    let r = nd::block_on(e.flush(&mut k));
    chk!(r.is_ok() == (k.failed == 0));
    if r.is_err() {
        reach!(2);
        return;
    }
    // every block counted as written was accepted: nothing was skipped
    check_blocks(&k.blocks, &rows, s.nullable);
    obs_blocks(&k);
    reach!(3);
}
#[no_mangle]
pub extern "C" fn h_c14_enc() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
