// C12: blocks are cut at the configured size
const FID: u64 = 12;
use super::col::*;

fn go<R: Row>() {
    let s = spec();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let sizes: Vec<Option<usize>> = rows.iter().map(|r| r.as_ref().map(|v| v.bytes().len())).collect();
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    let mut seen = 0;
    let mut vpos = 0; // rows before it are accounted for by the blocks seen
    let mut written = 0;
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |pos, k| {
        for (_, d) in &k.blocks[seen..] {
            // the shortest run of values that reaches the block size
            let mut acc = 0;
            while vpos < pos && acc < s.bs {
                acc += sizes[vpos].unwrap_or(0);
                vpos += 1;
            }
            let b = value_bytes(d);
            chk!(b >= s.bs);
            chk!(b == acc);
            written += b;
            reach!(1);
        }
        seen = k.blocks.len();
        let given: usize = sizes[..pos].iter().map(|x| x.unwrap_or(0)).sum();
        chk!(written <= given);
        chk!(given - written < s.bs);
        if given > written && seen > 0 {
            reach!(2);
        }
    });
    chk!(ok);
    let given: usize = sizes.iter().map(|x| x.unwrap_or(0)).sum();
    chk!(nd::block_on(e.flush(&mut k)).is_ok());
    chk!(k.blocks.len() <= seen + 1);
    let mut rest = 0;
    for (_, d) in &k.blocks[seen..] {
        rest += value_bytes(d);
    }
    chk!(rest == given - written);
    obs_blocks(&k);
}
#[no_mangle]
pub extern "C" fn h_c12() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
