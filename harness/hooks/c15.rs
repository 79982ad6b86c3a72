// C15: the block index matches the data file
const FID: u64 = 15;
use super::seg::*;
use crate::store::encoding::BlockSink;
use tokio::mk;

fn block(max: u64, big: usize) -> Vec<u8> {
    let n = nd::choice(max + 1);
    if big > 0 && n == max {
        let mut b: Vec<u8> = (0..big).map(|i| (i % 251) as u8).collect();
        for i in edges(big) {
            b[i] = nd::u8();
        }
        return b;
    }
    (0..n).map(|_| nd::u8()).collect()
}
/// positions of the symbolic bytes of a long block: its ends, and both sides of
/// the limit at which the file's buffer is written out
fn edges(big: usize) -> Vec<usize> {
    let mut e = vec![0, 1, big / 2, big - 1];
    for x in [16383 - DATA.len(), 16384 - DATA.len(), 16383, 16384, 32767, 32768] {
        if x < big {
            e.push(x);
        }
    }
    e
}
fn agree(i: &BlockIndex, ids: &[u32], ends: &[u64]) {
    let (a, b) = i.verif_entries();
    chk!(nd::same32(&a, ids));
    chk!(b.len() == ends.len());
    for (x, y) in b.iter().zip(ends) {
        chk!(*x == *y);
    }
}
/// p0: columns, p1: blocks per column, p2: longest block, p3: size of the long block,
/// p4: schedule, p5: short and interrupted writes, p6: bytes the files held before, from an
/// earlier segment of the same id
#[no_mangle]
pub extern "C" fn h_c15() {
    let (cols, blocks, max, big) = (nd::param(0), nd::param(1), nd::param(2), nd::param(3) as usize);
    mk::world().sched = nd::param(4) as u8;
    if nd::param(5) > 0 {
        mk::world().faults = mk::Faults { budget: nd::param(5) as u32, write: true, short: true, intr: true, ..mk::NO_FAULTS };
        mk::world().no_hard = true;
    }
    if nd::param(6) > 0 {
        drop(nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap());
        mk::drain();
        for f in &mut mk::world().files {
            f.data = vec![0xee; nd::param(6) as usize];
        }
    }
    let mut s = match nd::block_on(SegmentWriter::new("/seg", info(1))) {
        Ok(s) => s,
        Err(_) => {
            // an existing segment may also be left alone
            chk!(nd::param(6) > 0);
            return;
        }
    };
    let mut want: Vec<u8> = DATA.to_vec();
    chk!(s.data_writer.pos() == want.len() as u64);
    chk!(s.index_writer.pos() == INDEX.len() as u64);
    for c in 0..cols {
        // starting a column empties the index and leaves the position
        {
            let _ = s.new_binary_column_writer(column("c", true)).unwrap();
        }
        agree(&s.block_index, &[], &[]);
        chk!(s.data_writer.pos() == want.len() as u64);
        let mut ids: Vec<u32> = Vec::new();
        let mut ends: Vec<u64> = Vec::new();
        for _ in 0..blocks {
            let b = block(max, big);
            let id = nd::u32();
            {
                let mut k = BlockSinkImpl::new(&mut s.data_writer, &mut s.block_index);
                chk!(nd::block_on(k.write_block(id, &b)).is_ok());
            }
            let start = want.len();
            want.extend_from_slice(&b);
            if b.len() > 100 {
                for i in edges(b.len()) {
                    want[start + i] = nd::alias8(b[i]);
                }
            } else {
                for x in &mut want[start..] {
                    *x = nd::alias8(*x);
                }
            }
            ids.push(nd::alias32(id));
            ends.push(want.len() as u64);
            chk!(s.data_writer.pos() == want.len() as u64);
            agree(&s.block_index, &ids, &ends);
        }
    }
    chk!(nd::block_on(s.data_writer.flush()).is_ok());
    let k = file(b".dat");
    chk!(k.is_some());
    let d = &mk::world().files[k.unwrap()].data;
    chk!(nd::same(d, &want));
    nd::obs_bytes(&d[..d.len().min(40)]);
    if want.len() > 16384 {
        reach!(1);
    }
    if want.len() == DATA.len() && blocks > 0 {
        reach!(2);
    }
    if mk::world().soft > 0 {
        reach!(3);
    }
}
/// many blocks: p0 of them, p1: the longest, p2: schedule; one at a symbolic place has a
/// symbolic row id and content
#[no_mangle]
pub extern "C" fn h_c15_many() {
    let (n, max) = (nd::param(0), nd::param(1));
    mk::world().sched = nd::param(2) as u8;
    let mut s = nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap();
    let mut want: Vec<u8> = DATA.to_vec();
    let (mut ids, mut ends) = (Vec::new(), Vec::new());
    let special = [0, 1, n / 2, n - 1][nd::choice(4) as usize];
    {
        let _ = s.new_binary_column_writer(column("c", true)).unwrap();
    }
    for i in 0..n {
        let mut b: Vec<u8> = (0..i * 7 % (max + 1)).map(|j| (i + j * 3) as u8).collect();
        let mut c = b.clone();
        let (mut id, mut idc) = (i as u32 * 5 + 4, i as u32 * 5 + 4);
        if i == special {
            b.push(nd::u8());
            c.push(nd::alias8(b[b.len() - 1]));
            id = nd::u32();
            idc = nd::alias32(id);
        }
        {
            let mut k = BlockSinkImpl::new(&mut s.data_writer, &mut s.block_index);
            chk!(nd::block_on(k.write_block(id, &b)).is_ok());
        }
        want.extend_from_slice(&c);
        ids.push(idc);
        ends.push(want.len() as u64);
    }
    chk!(s.data_writer.pos() == want.len() as u64);
    agree(&s.block_index, &ids, &ends);
    chk!(nd::block_on(s.data_writer.flush()).is_ok());
    let d = &mk::world().files[file(b".dat").unwrap()].data;
    chk!(nd::same(d, &want));
    // the next column starts with an empty index
    {
        let _ = s.new_binary_column_writer(column("d", true)).unwrap();
    }
    agree(&s.block_index, &[], &[]);
    chk!(s.data_writer.pos() == want.len() as u64);
    reach!(5);
}
/// blocks written far into a long data file; p0: blocks, p1: longest block, p2: bits of the position
#[cfg(meerkat_verif_far)]
#[no_mangle]
pub extern "C" fn h_c15_far() {
    let mut s = nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap();
    let start = nd::range(DATA.len() as u64, (1 << nd::param(2)) - 1);
    s.data_writer.verif_set_pos(start);
    chk!(s.data_writer.pos() == start);
    let (mut ids, mut ends) = (Vec::new(), Vec::new());
    {
        let _ = s.new_binary_column_writer(column("c", true)).unwrap();
    }
    chk!(s.data_writer.pos() == start);
    let mut at = start;
    for _ in 0..nd::param(0) {
        let b = block(nd::param(1), 0);
        let id = nd::u32();
        {
            let mut k = BlockSinkImpl::new(&mut s.data_writer, &mut s.block_index);
            chk!(nd::block_on(k.write_block(id, &b)).is_ok());
        }
        at += b.len() as u64;
        ids.push(nd::alias32(id));
        ends.push(at);
        chk!(s.data_writer.pos() == at);
        agree(&s.block_index, &ids, &ends);
    }
    reach!(4);
}
