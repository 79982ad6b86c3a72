// C25: rows written to a segment are read back from its data file
const FID: u64 = 25;
use super::seg::*;
use crate::store::encoding::verif::col::*;
use crate::store::io::verif::rd;
use tokio::mk;

/// p0: columns; p1..p9: each column's rows and buffers, as in Spec (p1, p2 unused);
/// p10: schedule, p11: short and interrupted writes and reads, p12: 1: read as a batch,
/// p13: length of one more item at the end of each column, p14: columns begun, given so many
/// buffers and abandoned before each column
#[no_mangle]
pub extern "C" fn h_c25() {
    let cols = nd::param(0);
    let w = mk::world();
    w.sched = nd::param(10) as u8;
    if nd::param(11) > 0 {
        w.faults = mk::Faults { budget: nd::param(11) as u32, write: true, read: true, short: true, intr: true, ..mk::NO_FAULTS };
        w.no_hard = true;
    }
    let mut s = nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap();
    // of every column: its rows, the first position, and the blocks
    let mut want = Vec::new();
    for c in 0..cols {
        let mut sp = spec();
        sp.nullable = (c + nd::param(2)) % 2 == 1;
        if nd::param(14) > 0 {
            let name = ["x", "a", "b"][c as usize % 3];
            let mut cw = match s.new_binary_column_writer(column(name, true)) {
                Ok(c) => c,
                Err(_) => {
                    chk!(false);
                    return;
                }
            };
            for _ in 0..nd::param(14) {
                let mut b = BinaryBuffer::new(true);
                let mut v = vec![0xcc; 200];
                v[0] = nd::u8();
                b.append(&v);
                b.append_null();
                b.append(&v[..3]);
                chk!(nd::block_on(cw.write(&b)).is_ok());
            }
            reach!(4);
        }
        let start = s.data_writer.pos();
        let mut rows = rows::<Vec<u8>>(&sp);
        let mut cuts = cuts(&sp);
        let mut also = aliased(&sp, &rows);
        let long = nd::param(13) as usize;
        if long > 0 {
            let (x, y) = (nd::u8(), nd::u8());
            let mut v: Vec<u8> = (0..long).map(|i| i as u8).collect();
            v[0] = x;
            v[long - 1] = y;
            rows.push(Some(v.clone()));
            v[0] = nd::alias8(x);
            v[long - 1] = nd::alias8(y);
            also.push(Some(v));
            cuts.push(rows.len());
        }
        {
            let mut cw = match s.new_binary_column_writer(column(["a", "b", "c"][c as usize % 3], sp.nullable)) {
                Ok(c) => c,
                Err(_) => {
                    chk!(false);
                    return;
                }
            };
            let mut pos = 0;
            let mut b = BinaryBuffer::new(sp.nullable);
            for end in cuts {
                if sp.reuse {
                    b.clear();
                } else {
                    b = BinaryBuffer::new(sp.nullable);
                }
                for r in &rows[pos..end] {
                    <Vec<u8> as Row>::push(&mut b, r.as_ref());
                }
                pos = end;
                chk!(nd::block_on(cw.write(&b)).is_ok());
            }
            chk!(nd::block_on(cw.close()).is_ok());
        }
        let (ids, ends) = s.block_index.verif_entries();
        chk!(ids.len() == ends.len());
        if ids.len() > 2 {
            reach!(1);
        }
        want.push((also, sp.nullable, start, ids, ends));
    }
    chk!(nd::block_on(s.close()).is_ok());
    let k = match file(b".dat") {
        Some(k) => k,
        None => {
            chk!(false);
            return;
        }
    };
    let path = mk::world().files[k].path.clone();
    let mut ranges = Vec::new();
    for (_, _, start, _, ends) in &want {
        let mut at = *start;
        for e in ends {
            chk!(at <= *e);
            ranges.push((at, *e));
            at = *e;
        }
    }
    let data = match rd::read(&path, &ranges, nd::param(12) == 1) {
        Some(d) => d,
        None => {
            chk!(false);
            return;
        }
    };
    let mut i = 0;
    for (rows, nullable, _, ids, _) in &want {
        let mut blocks = Vec::new();
        for id in ids {
            blocks.push((*id, data[i].clone()));
            i += 1;
        }
        check_blocks(&blocks, rows, *nullable);
        nd::obs(blocks.len() as u64);
        for b in &blocks {
            nd::obs_bytes(&b.1);
        }
    }
    reach!(2);
    if mk::world().soft > 0 {
        reach!(3);
    }
}
