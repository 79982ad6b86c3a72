// C28: segments written side by side do not mix
const FID: u64 = 35;
use super::seg::*;
use crate::store::encoding::verif::col::*;
use crate::store::io::verif::rd;
use tokio::mk;

struct Side {
    bufs: Vec<BinaryBuffer>,
    want: Vec<Option<Vec<u8>>>,
    nullable: bool,
    /// its files, by number
    data: usize,
    index: usize,
}
async fn create(id: u32) -> SegmentWriter {
    SegmentWriter::new("/seg", SegmentInfo { shard_id: id, ..info((id as u128) << 100) }).await.unwrap()
}
fn side(id: u32, nullable: bool) -> Side {
    let item = nd::param(2) as usize;
    let mut bufs = Vec::new();
    let mut want = Vec::new();
    for _ in 0..nd::param(0) {
        let mut b = BinaryBuffer::new(nullable);
        for _ in 0..nd::param(1) {
            if nullable && nd::flip() {
                b.append_null();
                want.push(None);
                continue;
            }
            let mut v = vec![id as u8; item];
            let x = nd::u8();
            v[0] = x;
            b.append(&v);
            v[0] = nd::alias8(x);
            want.push(Some(v));
        }
        bufs.push(b);
    }
    let (mut data, mut index) = (usize::MAX, usize::MAX);
    let w = mk::world();
    let name = base64::encode_config(Uuid::from_u128((id as u128) << 100).as_bytes(), base64::URL_SAFE_NO_PAD);
    for k in 0..w.files.len() {
        let p = &w.files[k].path;
        if p.ends_with(format!("/{}.dat", name).as_bytes()) {
            data = k;
        }
        if p.ends_with(format!("/{}.idx", name).as_bytes()) {
            index = k;
        }
    }
    chk!(data != usize::MAX && index != usize::MAX);
    Side { bufs, want, nullable, data, index }
}
fn check(s: &SegmentWriter, x: &Side, start: u64, id: u32) {
    let (ids, ends) = s.block_index.verif_entries();
    chk!(ids.len() == ends.len());
    let mut ranges = Vec::new();
    let mut at = start;
    for e in &ends {
        chk!(at <= *e);
        ranges.push((at, *e));
        at = *e;
    }
    let f = &mk::world().files[x.data];
    chk!(f.data.len() as u64 == at);
    chk!(f.data.len() >= DATA.len() && &f.data[..DATA.len()] == DATA);
    let path = f.path.clone();
    let got = match rd::read(&path, &ranges, nd::param(4) == 1) {
        Some(g) => g,
        None => {
            chk!(false);
            return;
        }
    };
    let blocks: Vec<(u32, Vec<u8>)> = ids.iter().copied().zip(got).collect();
    check_blocks(&blocks, &x.want, x.nullable);
    for b in &blocks {
        nd::obs_bytes(&b.1);
    }
    // its own metadata
    let d = &mk::world().files[x.index].data;
    chk!(d.len() >= INDEX.len() + 8 && &d[..INDEX.len()] == INDEX);
    let mut foot = [0u8; 8];
    foot.copy_from_slice(&d[d.len() - 8..]);
    let pos = nd::fix(u64::from_le_bytes(foot)) as usize;
    chk!(pos >= INDEX.len() && pos <= d.len() - 8);
    match Metadata::decode(&d[pos..d.len() - 8]) {
        Ok(m) => {
            let g = m.segment_meta.unwrap();
            chk!(g.shard_id == id);
            chk!(&g.segment_id[..] == &Uuid::from_u128((id as u128) << 100).as_bytes()[..]);
            chk!(g.columns_meta.len() == 1 && g.columns_meta.contains_key(["x", "y"][id as usize - 1]));
        }
        Err(_) => chk!(false),
    }
}
/// p0: buffers of each segment, p1: rows of each, p2: length of the items, p3: schedule,
/// p4: 1: read as a batch, p5: 1: calls are awaited together, p6: nullability of both,
/// p7: short and interrupted writes, p8: the part with this schedule and these faults: 1: the
/// buffers, 2: closing the columns (if awaited together), 3: closing the segments, 4: creating
/// them, awaited together
#[no_mangle]
pub extern "C" fn h_c28_seg() {
    let w = mk::world();
    // the schedule, and the faults, of one part
    let part = |p: u64| {
        let w = mk::world();
        w.sched = 0;
        w.faults = mk::NO_FAULTS;
        if p != nd::param(8) {
            return;
        }
        w.sched = nd::param(3) as u8;
        if nd::param(7) == 0 {
            return;
        }
        w.faults = mk::Faults { budget: nd::param(7) as u32, write: true, short: true, intr: true, ..mk::NO_FAULTS };
        w.no_hard = true;
    };
    let (mut s, mut t) = if nd::param(8) == 4 {
        part(4);
        let both = nd::block_on(futures::future::join(create(1), create(2)));
        mk::drain();
        part(0);
        both
    } else {
        (nd::block_on(create(1)), nd::block_on(create(2)))
    };
    let x = side(1, nd::param(6) & 1 > 0);
    let y = side(2, nd::param(6) & 2 > 0);
    let (s0, t0) = (s.data_writer.pos(), t.data_writer.pos());
    let n = x.bufs.len();
    part(1);
    {
        let mut a = s.new_binary_column_writer(column("x", x.nullable)).unwrap();
        let mut b = t.new_binary_column_writer(column("y", y.nullable)).unwrap();
        if nd::param(5) == 1 {
            for i in 0..n {
                let (p, q) = nd::block_on(futures::future::join(a.write(&x.bufs[i]), b.write(&y.bufs[i])));
                chk!(p.is_ok() && q.is_ok());
            }
            part(2);
            let (p, q) = nd::block_on(futures::future::join(a.close(), b.close()));
            chk!(p.is_ok() && q.is_ok());
            reach!(1);
        } else {
            let (mut i, mut j) = (0, 0);
            while i <= n || j <= n {
                let first = if i > n {
                    false
                } else if j > n {
                    true
                } else {
                    nd::flip()
                };
                if first {
                    chk!(if i < n { nd::block_on(a.write(&x.bufs[i])).is_ok() } else { nd::block_on(a.close()).is_ok() });
                    i += 1;
                } else {
                    chk!(if j < n { nd::block_on(b.write(&y.bufs[j])).is_ok() } else { nd::block_on(b.close()).is_ok() });
                    j += 1;
                }
            }
            reach!(2);
        }
    }
    part(3);
    if nd::param(5) == 1 {
        let (p, q) = nd::block_on(futures::future::join(s.close(), t.close()));
        chk!(p.is_ok() && q.is_ok());
    } else if nd::flip() {
        chk!(nd::block_on(s.close()).is_ok());
        chk!(nd::block_on(t.close()).is_ok());
    } else {
        chk!(nd::block_on(t.close()).is_ok());
        chk!(nd::block_on(s.close()).is_ok());
    }
    mk::drain();
    part(0);
    check(&s, &x, s0, 1);
    check(&t, &y, t0, 2);
    reach!(3);
    if w.soft > 0 {
        reach!(4);
    }
}
