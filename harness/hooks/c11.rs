// C11: block row ids partition the rows of a column
const FID: u64 = 11;
use super::col::*;

/// ids from `*prev` on; for each block what it says about its own size
fn ids<R: Row>(blocks: &[(u32, Vec<u8>)], from: usize, prev: &mut i64, rows: &[Option<R>], nullable: bool) {
    for (id, d) in &blocks[from..] {
        let id = *id as i64;
        chk!(id > *prev);
        if id <= *prev || id as usize >= rows.len() {
            chk!(false);
            return;
        }
        let held = &rows[(*prev + 1) as usize..=id as usize];
        let count = held.len();
        // the rows between two ids are the rows the block holds
        let mut bytes = 0;
        let mut nonnull = 0;
        for r in held {
            if let Some(v) = r {
                bytes += v.bytes().len();
                nonnull += 1;
            }
        }
        let mut pos = 0;
        let len = varint(d, &mut pos).unwrap_or(u64::MAX) as usize;
        chk!(len == bytes);
        if len != bytes || pos + len > d.len() {
            return;
        }
        let mut rest = &d[pos + len..];
        if R::PACKED {
            match rest.get(0).and_then(|w| unpack(&rest[1..], nonnull, *w as usize)) {
                Some((l, size)) => {
                    chk!(l.iter().map(|x| *x as usize).sum::<usize>() == bytes);
                    rest = &rest[1 + size..];
                }
                None => chk!(false),
            }
        }
        if nullable {
            match expand(rest) {
                Some(b) => {
                    chk!(b.len() == (count + 7) / 8);
                    let mut set = 0;
                    for (i, x) in b.iter().enumerate() {
                        set += x.count_ones() as usize;
                        if (i + 1) * 8 > count && count >= i * 8 {
                            chk!((*x as u32) >> (count - i * 8) == 0);
                        }
                    }
                    chk!(set == nonnull);
                }
                None => chk!(false),
            }
        }
        *prev = id;
    }
}
fn go<R: Row>() {
    let s = spec();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = R::encoder(s.bs, s.nullable);
    let mut k = sink();
    let mut prev = -1i64;
    let mut seen = 0;
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |pos, k| {
        ids::<R>(&k.blocks, seen, &mut prev, &rows[..pos], s.nullable);
        seen = k.blocks.len();
    });
    chk!(ok);
    if seen > 1 {
        reach!(1);
    }
    chk!(nd::block_on(e.flush(&mut k)).is_ok());
    ids::<R>(&k.blocks, seen, &mut prev, &rows, s.nullable);
    chk!(prev == rows.len() as i64 - 1);
    nd::obs(prev as u64);
    obs_blocks(&k);
    if k.blocks.len() > seen {
        reach!(2);
    }
}
#[no_mangle]
pub extern "C" fn h_c11() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
/// the same for the rows after any number of earlier ones: the ids go on from there, and where
/// they would not fit into 32 bits the column is refused
#[cfg(meerkat_verif_far)]
fn go_far<R: Row>(make: fn(&Spec, u32) -> Box<dyn BlockEncoder<R::Buf, Sink>>) {
    let s = spec();
    let start = nd::u32();
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut e = make(&s, start);
    let mut k = sink();
    if start as u64 + rows.len() as u64 > u32::MAX as u64 {
        nd::expect_panic(true);
        reach!(4);
    }
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, _| {}) && nd::block_on(e.flush(&mut k)).is_ok();
    nd::expect_panic(false);
    if !ok {
        chk!(start as u64 + rows.len() as u64 > u32::MAX as u64);
        return;
    }
    let mut at = start as u64;
    for (id, d) in &k.blocks {
        let id = *id as u64;
        chk!(id >= at);
        chk!(id - at < rows.len() as u64);
        let first = nd::fix(at - start as u64) as usize;
        let last = nd::fix(id - start as u64) as usize;
        if last < first || last >= rows.len() {
            chk!(false);
            return;
        }
        check_block(d, &rows[first..=last], s.nullable);
        at = id + 1;
    }
    chk!(at == start as u64 + rows.len() as u64);
    nd::obs(at);
    if rows.len() > 0 {
        reach!(3);
    }
}
#[cfg(meerkat_verif_far)]
#[no_mangle]
pub extern "C" fn h_c11_far() {
    use crate::store::encoding::raw::{binary_enc, primitive_enc};
    if nd::param(0) == 0 {
        go_far::<i32>(|s, start| {
            let mut e = primitive_enc::Encoder::new(s.bs, s.nullable);
            e.verif_set_rows(start);
            Box::new(e)
        });
    } else {
        go_far::<Vec<u8>>(|s, start| {
            let mut e = binary_enc::Encoder::new(s.bs as u32, s.nullable);
            e.verif_set_rows(start);
            Box::new(e)
        });
    }
}
