// C21: a synced segment survives a crash
const FID: u64 = 21;
use super::seg::*;
use tokio::mk;
use tokio::mk::Kind;

/// whether the byte p of file f was written before operation i
fn has_p_at(log: &[mk::Op], f: usize, i: usize, p: u64) -> bool {
    let mut r = false;
    for op in &log[..i] {
        if op.file == f && op.kind == Kind::Write && op.ok {
            r |= (p >= op.off) & (p < op.off + op.data.len() as u64);
        }
    }
    r
}
/// p0: columns, p1: buffers per column, p2: longest item, p3: size of an extra long item,
/// p4: schedule, p5: short, interrupted and failing calls, p6: failing ones too
#[no_mangle]
pub extern "C" fn h_c21() {
    let (cols, bufs, max, long) = (nd::param(0), nd::param(1), nd::param(2), nd::param(3) as usize);
    // where a crash strikes, and two positions in a file
    let (crash, p, q) = (nd::u64(), nd::u64(), nd::u64());
    let w = mk::world();
    w.sched = nd::param(4) as u8;
    if nd::param(5) > 0 {
        w.faults = mk::Faults { budget: nd::param(5) as u32, write: true, short: true, intr: true, sync: true, ..mk::NO_FAULTS };
        w.no_hard = nd::param(6) == 0;
    }
    let mut good = true;
    let mut closed = false;
    let mut synced = false;
    // the program stops at the first error, as its caller would
    'run: loop {
        let mut s = match nd::block_on(SegmentWriter::new("/seg", info(9))) {
            Ok(s) => s,
            Err(_) => break 'run,
        };
        for c in 0..cols {
            let nullable = nd::flip();
            let mut cw = s.new_binary_column_writer(column(["a", "b", "c"][c as usize], nullable)).unwrap();
            for _ in 0..bufs {
                let mut b = BinaryBuffer::new(nullable);
                let n = nd::choice(max + 1);
                let item: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
                b.append(&item);
                if long > 0 {
                    b.append(&vec![7; long]);
                }
                good = good && nd::block_on(cw.write(&b)).is_ok();
                if !good {
                    break 'run;
                }
            }
            good = nd::block_on(cw.close()).is_ok();
            if !good {
                break 'run;
            }
        }
        closed = nd::block_on(s.close()).is_ok();
        if !closed {
            break 'run;
        }
        synced = nd::block_on(s.sync()).is_ok();
        break 'run;
    }
    let w = mk::world();
    let at_ack = w.log.len();
    w.faults = mk::NO_FAULTS;
    // whatever is still queued when both calls have reported success comes too late
    mk::drain();
    let w = mk::world();
    let (d, x) = match (file(b".dat"), file(b".idx")) {
        (Some(d), Some(x)) => (d, x),
        _ => {
            chk!(!closed);
            return;
        }
    };
    // a crash after any number of file operations, and any bytes of either file
    for f in [d, x] {
        let total = w.files[f].data.len() as u64;
        // the byte p was handed over before the crash, the byte q as well; p was synced after
        // the last write to it
        let (mut has_p, mut has_q, mut durable) = (false, false, false);
        let mut len = 0u64;
        for (i, op) in w.log.iter().enumerate() {
            if op.file != f {
                continue;
            }
            let done = (i as u64) < crash;
            match op.kind {
                Kind::Write if op.ok => {
                    let end = op.off + op.data.len() as u64;
                    has_p |= done & (p >= op.off) & (p < end);
                    has_q |= done & (q >= op.off) & (q < end);
                    durable &= !((p >= op.off) & (p < end));
                    len = len.max(end);
                }
                Kind::Sync if op.ok && i < at_ack => durable |= has_p_at(&w.log, f, i, p),
                Kind::Truncate | Kind::Rename | Kind::Unlink => chk!(false),
                _ => {}
            }
        }
        chk!(len == total);
        // no byte was handed over before one in front of it: what a crash leaves has no
        // holes, and a complete footer stands behind everything else
        chk!(!((p < q) & has_q & !has_p));
        if closed && synced {
            chk!(!(p < total) | durable);
            reach!(1);
        }
    }
    if closed {
        let idx = &w.files[x].data;
        let n = idx.len();
        chk!(n >= INDEX.len() + 8 && nd::same(&idx[..INDEX.len()], INDEX));
        if n < INDEX.len() + 8 {
            return;
        }
        let mut foot = [0u8; 8];
        foot.copy_from_slice(&idx[n - 8..]);
        let pos = nd::fix(u64::from_le_bytes(foot));
        chk!(pos >= INDEX.len() as u64 && pos <= n as u64 - 8);
        reach!(2);
    }
    if mk::world().hard > 0 {
        reach!(3);
    }
    nd::obs(w.log.len() as u64);
    nd::obs(at_ack as u64);
}
