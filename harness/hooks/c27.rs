// C27: a column's index is given every buffer written, and its layout is recorded
const FID: u64 = 27;
use super::seg::*;
use crate::store::index::ColumnIndex;
use anyhow::anyhow;
use async_trait::async_trait;
use crate::store::segment_metadata::column_layout::ColumnIndexLayout;
use crate::store::segment_metadata::{Range, StringIndexV1};
use tokio::mk;

type Rows = Vec<Option<Vec<u8>>>;

/// what the indexes were asked, in order
struct Log {
    given: Vec<(u64, Rows)>,
    flushed: Vec<u64>,
    ranges: Vec<(u64, u64)>,
    /// calls that may still fail
    fail: u32,
    failed: bool,
    bytes: Vec<Vec<u8>>,
    size: u64,
}
static mut LOG: Log = Log { given: Vec::new(), flushed: Vec::new(), ranges: Vec::new(), fail: 0, failed: false, bytes: Vec::new(), size: 0 };
fn log() -> &'static mut Log {
    unsafe { &mut *core::ptr::addr_of_mut!(LOG) }
}
fn fails() -> bool {
    let l = log();
    if l.fail > 0 && nd::bit() {
        l.fail -= 1;
        l.failed = true;
        return true;
    }
    false
}
struct Idx {
    col: u64,
}
#[async_trait]
impl ColumnIndex<BinaryBuffer> for Idx {
    fn index(&mut self, b: &BinaryBuffer) -> Result<()> {
        if fails() {
            return Err(anyhow!("index"));
        }
        let mut rows: Rows = Vec::new();
        let mut k = 0;
        let n = match b.validity() {
            Some(v) => v.len(),
            None => b.len(),
        };
        for i in 0..n {
            if b.validity().map(|v| v.is_set(i)).unwrap_or(true) {
                let (s, e) = (b.offsets()[k] as usize, b.offsets()[k + 1] as usize);
                rows.push(Some(b.data()[s..e].to_vec()));
                k += 1;
            } else {
                rows.push(None);
            }
        }
        log().given.push((self.col, rows));
        Ok(())
    }
    async fn flush(&mut self, w: &mut BlockWriter) -> Result<ColumnIndexLayout> {
        if fails() {
            return Err(anyhow!("index"));
        }
        let l = log();
        let n = nd::choice(3);
        let mut b: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
        b.resize(b.len() + l.size as usize, 0x5a);
        let start = w.pos();
        w.write_block(&b).await?;
        let end = w.pos();
        l.flushed.push(self.col);
        l.ranges.push((start, end));
        l.bytes.push(b);
        Ok(ColumnIndexLayout::StringIndexV1(StringIndexV1 { range: Some(Range { start: start as _, end: end as _ }) }))
    }
}
const NAMES: [&str; 3] = ["c", "d", "e"];
fn same(a: &Rows, b: &Rows) {
    chk!(a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Some(x), Some(y)) => chk!(nd::same(x, y)),
            (None, None) => {}
            _ => chk!(false),
        }
    }
}
/// p0: columns, p1: buffers of each, p2: rows of a buffer, p3: which columns have an index (bits),
/// p4: calls to an index that may fail, p5: size of the item before them, p6: faults of the
/// files, p7: bytes an index adds to the file
#[no_mangle]
pub extern "C" fn h_c27() {
    let (cols, bufs, rows) = (nd::param(0), nd::param(1), nd::param(2));
    log().fail = nd::param(4) as u32;
    log().size = nd::param(7);
    if nd::param(6) > 0 {
        mk::world().faults = mk::Faults { budget: nd::param(6) as u32, write: true, short: true, intr: true, ..mk::NO_FAULTS };
        mk::world().no_hard = true;
    }
    let mut s = nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap();
    let mut want: Vec<(u64, Rows)> = Vec::new();
    let mut indexed = Vec::new();
    for c in 0..cols {
        let nullable = c % 2 == 0;
        let has = nd::param(3) >> c & 1 == 1;
        let mut cw = s.new_binary_column_writer(column(NAMES[c as usize], nullable)).unwrap();
        if has {
            cw.column_index = Some(Box::new(Idx { col: c }));
            indexed.push(c);
        }
        for _ in 0..bufs {
            let mut b = BinaryBuffer::new(nullable);
            let mut r: Rows = Vec::new();
            if nd::param(5) > 0 {
                let v = vec![7u8; nd::param(5) as usize];
                b.append(&v);
                r.push(Some(v));
            }
            for _ in 0..rows {
                if nullable && nd::flip() {
                    b.append_null();
                    r.push(None);
                } else {
                    let v = [nd::u8(), 1];
                    let v = &v[..nd::choice(3) as usize];
                    b.append(v);
                    r.push(Some(v.iter().map(|x| nd::alias8(*x)).collect()));
                }
            }
            let ok = nd::block_on(cw.write(&b)).is_ok();
            // an index that fails is reported
            chk!(ok == !log().failed);
            if !ok {
                reach!(1);
                return;
            }
            if has {
                want.push((c, r));
            }
            // each buffer once, in order, whole
            chk!(log().given.len() == want.len());
        }
        chk!(log().flushed.iter().all(|x| *x != c));
        let ok = nd::block_on(cw.close()).is_ok();
        chk!(ok == !log().failed);
        if !ok {
            reach!(2);
            return;
        }
        chk!(log().flushed.len() == indexed.len());
    }
    chk!(nd::block_on(s.close()).is_ok());
    for (a, b) in log().given.iter().zip(&want) {
        chk!(a.0 == b.0);
        same(&a.1, &b.1);
    }
    chk!(log().flushed == indexed);
    let x = file(b".idx");
    chk!(x.is_some());
    let x = &mk::world().files[x.unwrap()].data;
    chk!(x.len() >= 8);
    let mut foot = [0u8; 8];
    foot.copy_from_slice(&x[x.len() - 8..]);
    let pos = nd::fix(u64::from_le_bytes(foot)) as usize;
    chk!(pos <= x.len() - 8);
    let m = match Metadata::decode(&x[pos..x.len() - 8]) {
        Ok(m) => m,
        Err(_) => {
            chk!(false);
            return;
        }
    };
    chk!(m.columns_layout.len() == cols as usize);
    let mut k = 0;
    for c in 0..cols {
        let l = m.columns_layout.get(NAMES[c as usize]);
        chk!(l.is_some());
        let l = &l.unwrap().column_index_layout;
        if nd::param(3) >> c & 1 == 1 {
            let (start, end) = log().ranges[k];
            match l {
                Some(ColumnIndexLayout::StringIndexV1(StringIndexV1 { range: Some(r) })) => {
                    chk!(r.start as u64 == start && r.end as u64 == end);
                }
                _ => chk!(false),
            }
            // what the index wrote is where it was told it would be
            chk!(end as usize <= pos);
            chk!(nd::same(&x[start as usize..end as usize], &log().bytes[k]));
            k += 1;
        } else {
            chk!(!matches!(l, Some(ColumnIndexLayout::StringIndexV1(_))));
        }
    }
    nd::obs(x.len() as u64);
    reach!(3);
}
