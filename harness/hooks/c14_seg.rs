// C14, segments: a failing file operation surfaces in the calls of the segment writer
const FID: u64 = 34;
use super::seg::*;
use tokio::mk;

/// what a run writes: per column the buffers handed in
type Script = Vec<Vec<Vec<Vec<u8>>>>;

/// runs the script and stops at the first call that reports an error; the number of calls
/// that succeeded, and whether all did
fn run(dir: &str, script: &Script) -> (u64, bool) {
    let mut calls = 0;
    macro_rules! go {
        ($e:expr) => {
            match nd::block_on($e) {
                Ok(x) => {
                    calls += 1;
                    x
                }
                Err(_) => return (calls, false),
            }
        };
    }
    let mut s = go!(SegmentWriter::new(dir, info(5)));
    for (i, col) in script.iter().enumerate() {
        let mut c = match s.new_binary_column_writer(column(["a", "b", "c"][i], true)) {
            Ok(c) => c,
            Err(_) => return (calls, false),
        };
        for rows in col {
            let mut b = BinaryBuffer::new(true);
            for r in rows {
                b.append(r);
            }
            go!(c.write(&b));
        }
        go!(c.close());
    }
    go!(s.close());
    go!(s.sync());
    (calls, true)
}
/// p0: columns, p1: buffers per column, p2: item size (bytes; two items to a buffer),
/// p3: schedule, p4: failures, p5: what fails (1 writes, 2 syncs, 4 opens, 8 short and
/// interrupted calls as well)
#[no_mangle]
pub extern "C" fn h_c14_seg() {
    let (cols, bufs, size) = (nd::param(0), nd::param(1), nd::param(2) as usize);
    let mut script: Script = Vec::new();
    let mut same: Script = Vec::new();
    for _ in 0..cols {
        let (mut col, mut col2) = (Vec::new(), Vec::new());
        for _ in 0..bufs {
            let (mut items, mut items2) = (Vec::new(), Vec::new());
            for _ in 0..2 {
                let mut item = vec![7u8; size];
                if size > 0 {
                    item[0] = nd::u8();
                    item[size - 1] = nd::u8();
                }
                let mut item2 = item.clone();
                if size > 0 {
                    item2[0] = nd::alias8(item[0]);
                    item2[size - 1] = nd::alias8(item[size - 1]);
                }
                items.push(item);
                items2.push(item2);
            }
            col.push(items);
            col2.push(items2);
        }
        script.push(col);
        same.push(col2);
    }
    // what an undisturbed run writes
    let (n, ok) = run("/ok", &same);
    mk::drain();
    chk!(ok);
    let (da, ia) = (file(b".dat").unwrap(), file(b".idx").unwrap());
    // the same with failures
    let w = mk::world();
    let what = nd::param(5);
    w.sched = nd::param(3) as u8;
    w.faults = mk::Faults {
        budget: nd::param(4) as u32,
        write: what & 1 > 0,
        sync: what & 2 > 0,
        open: what & 4 > 0,
        short: what & 8 > 0,
        intr: what & 8 > 0,
        ..mk::NO_FAULTS
    };
    let (m, ok) = run("/seg", &script);
    mk::world().faults = mk::NO_FAULTS;
    mk::world().sched = 0;
    mk::drain();
    chk!(ok == (mk::world().hard == 0));
    if !ok {
        reach!(1);
        if m + 2 == n {
            reach!(2);
        }
        if m + 1 == n {
            reach!(3);
        }
        return;
    }
    chk!(m == n);
    let (db, ib) = (file(b".dat").unwrap(), file(b".idx").unwrap());
    chk!(da != db && ia != ib);
    let f = &mk::world().files;
    chk!(nd::same(&f[da].data, &f[db].data));
    if cols < 2 {
        chk!(nd::same(&f[ia].data, &f[ib].data));
    } else {
        // the order of the columns in the metadata is not determined
        chk!(f[ia].data.len() == f[ib].data.len());
    }
    nd::obs(f[db].data.len() as u64);
    reach!(4);
    if mk::world().soft > 0 {
        reach!(5);
    }
}
