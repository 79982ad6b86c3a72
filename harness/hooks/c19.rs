// C19: batched reads keep request order and pairing
const FID: u64 = 19;
use super::unix_disk_block_reader::Reader;
use futures::StreamExt;
use tokio::mk;

fn info(kind: u64, id: u32) -> OpInfo {
    match kind {
        0 => OpInfo::GenericBlock,
        1 => OpInfo::IndexBlock,
        _ => OpInfo::DataBlock { first_row_id: id },
    }
}
fn check_info(i: &OpInfo, kind: u64, id: u32) {
    match i {
        OpInfo::GenericBlock => chk!(kind == 0),
        OpInfo::IndexBlock => chk!(kind == 1),
        OpInfo::DataBlock { first_row_id } => chk!(kind == 2 && *first_row_id == id),
    }
}
/// p0: requests, p1: failing, short and interrupted reads, p2: schedule, p3: 1: the
/// ranges of the requests may overlap, be empty or reach beyond the end, p4: tags of every kind
#[no_mangle]
pub extern "C" fn h_c19() {
    let n = nd::param(0) as usize;
    const LEN: usize = 12;
    let a: Vec<u8> = (0..LEN).map(|_| nd::u8()).collect();
    let want: Vec<u8> = a.iter().map(|x| nd::alias8(*x)).collect();
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let mut ops = Vec::new();
    let mut asked = Vec::new();
    for i in 0..n {
        let (start, end) = match nd::param(3) {
            0 => (i as u64 % 6 * 2, i as u64 % 6 * 2 + 2),
            _ => {
                let k = nd::choice(4);
                [(0, 3), (2, 7), (7, 7), (9, 9 + LEN as u64)][k as usize]
            }
        };
        let kind = if nd::param(4) == 1 { nd::choice(3) } else { 2 };
        let id = nd::u32();
        ops.push(ReadOp { block_range: BlockRange { start, end }, op_info: info(kind, id) });
        asked.push((start, end, kind, nd::alias32(id)));
    }
    mk::world().sched = nd::param(2) as u8;
    mk::world().faults = mk::Faults { budget: nd::param(1) as u32, read: true, short: nd::param(1) > 1, intr: nd::param(1) > 1, ..mk::NO_FAULTS };
    let mut s = r.read_blocks(ops);
    let mut errors = 0;
    for (start, end, kind, id) in &asked {
        match nd::block_on(s.next()) {
            None => {
                chk!(false);
                return;
            }
            Some(Ok(b)) => {
                check_info(&b.op_info, *kind, *id);
                chk!(*end <= LEN as u64);
                if *end <= LEN as u64 {
                    chk!(nd::same(&b.buf, &want[*start as usize..*end as usize]));
                }
                nd::obs_bytes(&b.buf);
                reach!(1);
            }
            Some(Err(e)) => {
                check_info(&e.op_info, *kind, *id);
                if *end <= LEN as u64 {
                    errors += 1;
                }
                reach!(2);
            }
        }
    }
    chk!(nd::block_on(s.next()).is_none());
    // as many requests within the file failed as reads did
    mk::drain();
    let w = mk::world();
    let wrong: usize = w.hard;
    chk!(errors <= wrong);
    if nd::param(3) == 0 {
        chk!(errors == wrong);
    }
    nd::obs(errors as u64);
}
/// a long batch, p0 requests, of any of which the reads may fail; p1: failing reads, p2: schedule
#[no_mangle]
pub extern "C" fn h_c19_long() {
    let n = nd::param(0) as usize;
    let a: Vec<u8> = (0..n + 3).map(|i| i as u8 ^ (i >> 8) as u8).collect();
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let first = nd::u32();
    let op = |i: usize| (i as u64, (i + i % 4) as u64);
    let ops = (0..n).map(|i| ReadOp { block_range: BlockRange { start: op(i).0, end: op(i).1 }, op_info: OpInfo::DataBlock { first_row_id: first ^ i as u32 } }).collect();
    let w = mk::world();
    w.sched = nd::param(2) as u8;
    w.faults = mk::Faults { budget: nd::param(1) as u32, read: true, ..mk::NO_FAULTS };
    let mut s = r.read_blocks(ops);
    let mut errors = 0;
    for i in 0..n {
        let (start, end) = op(i);
        match nd::block_on(s.next()) {
            None => {
                chk!(false);
                return;
            }
            Some(Ok(b)) => {
                check_info(&b.op_info, 2, first ^ i as u32);
                chk!(nd::same(&b.buf, &a[start as usize..end as usize]));
            }
            Some(Err(e)) => {
                check_info(&e.op_info, 2, first ^ i as u32);
                errors += 1;
            }
        }
    }
    chk!(nd::block_on(s.next()).is_none());
    chk!(errors == mk::world().hard);
    reach!(3);
}
