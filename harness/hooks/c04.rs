// C04: binary buffers
const FID: u64 = 4;
use crate::store::indexing_buffer::BinaryBuffer;

type Row = Option<Vec<u8>>;

fn item(max: u64) -> Vec<u8> {
    let n = nd::choice(max + 1);
    (0..n).map(|_| nd::u8()).collect()
}
fn agree(b: &BinaryBuffer, rows: &[Row], nullable: bool) {
    let mut data: Vec<u8> = Vec::new();
    let mut offs: Vec<u32> = vec![0];
    let mut nonnull = 0;
    for r in rows {
        if let Some(d) = r {
            data.extend_from_slice(d);
            offs.push(data.len() as u32);
            chk!(b.item_len(nonnull) == d.len() as u32);
            nonnull += 1;
        }
    }
    chk!(b.len() == nonnull);
    chk!(b.num_values() == rows.len());
    chk!(b.is_nullable() == nullable);
    chk!(b.has_nulls() == (nonnull < rows.len()));
    chk!(nd::same32(b.offsets(), &offs));
    chk!(nd::same(b.data(), &data));
    match b.validity() {
        None => chk!(!nullable),
        Some(m) => {
            chk!(nullable);
            chk!(m.len() == rows.len());
            for (i, r) in rows.iter().enumerate() {
                chk!(m.is_set(i) == r.is_some());
            }
        }
    }
}
fn fill(b: &mut BinaryBuffer, rows: &mut Vec<Row>, n: usize, nullable: bool, max: u64) {
    for _ in 0..n {
        if nullable && nd::flip() {
            b.append_null();
            rows.push(None);
        } else {
            let v = item(max);
            b.append(&v);
            rows.push(Some(v.iter().map(|x| nd::alias8(*x)).collect()));
        }
    }
}
/// p0: operations, p1: nullable, p2: rows of the source, p3: longest item
#[no_mangle]
pub extern "C" fn h_c04_history() {
    let steps = nd::param(0);
    let nullable = nd::param(1) == 1;
    let slen = nd::param(2) as usize;
    let max = nd::param(3);
    let mut b = BinaryBuffer::new(nullable);
    let mut rows: Vec<Row> = Vec::new();
    let mut src = BinaryBuffer::new(nullable);
    let mut srows: Vec<Row> = Vec::new();
    fill(&mut src, &mut srows, slen, nullable, max);
    for _ in 0..steps {
        match nd::choice(if slen > 0 { 4 } else { 3 }) {
            0 => {
                let v = item(max);
                b.append(&v);
                rows.push(Some(v.iter().map(|x| nd::alias8(*x)).collect()));
                reach!(1);
            }
            1 => {
                b.clear();
                rows.clear();
                agree(&b, &rows, nullable);
                reach!(2);
            }
            2 => {
                if nullable {
                    b.append_null();
                    rows.push(None);
                    reach!(3);
                } else {
                    reach!(4);
                    nd::expect_panic(true);
                    b.append_null();
                    nd::expect_panic(false);
                    chk!(false);
                }
            }
            _ => {
                let vpos = nd::choice(slen as u64 + 1) as usize;
                let start = srows[..vpos].iter().filter(|r| r.is_some()).count();
                let have = srows[vpos..].iter().filter(|r| r.is_some()).count();
                let n = nd::choice(have as u64 + 1) as usize;
                let r = b.append_from(&src, start, start + n, vpos);
                let mut pos = vpos;
                let mut got = 0;
                while got < n {
                    rows.push(srows[pos].clone());
                    got += srows[pos].is_some() as usize;
                    pos += 1;
                }
                if nullable {
                    chk!(r == pos);
                }
                reach!(5);
            }
        }
    }
    agree(&b, &rows, nullable);
    agree(&src, &srows, nullable);
    nd::obs_bytes(b.data());
}
/// copying between a nullable and a non-nullable buffer panics; p0: destination nullable
#[no_mangle]
pub extern "C" fn h_c04_mixed() {
    let dst_nullable = nd::param(0) == 1;
    let mut src = BinaryBuffer::new(!dst_nullable);
    let mut srows = Vec::new();
    fill(&mut src, &mut srows, 2, !dst_nullable, 1);
    let mut b = BinaryBuffer::new(dst_nullable);
    let mut rows = Vec::new();
    fill(&mut b, &mut rows, 1, dst_nullable, 1);
    let n = srows.iter().filter(|r| r.is_some()).count();
    let k = nd::choice(n as u64 + 1) as usize;
    reach!(6);
    nd::expect_panic(true);
    b.append_from(&src, 0, k, 0);
    nd::expect_panic(false);
    chk!(false);
}
/// a large buffer: filled, cleared, refilled, copied; p0: rows, p1: pattern
#[no_mangle]
pub extern "C" fn h_c04_reuse() {
    let n = nd::param(0) as usize;
    let mut b = BinaryBuffer::new(true);
    let x = if n > 9999 { 9 } else { nd::u8() };
    for i in 0..n {
        b.append(&[x, x, 1]);
    }
    b.clear();
    let mut rows: Vec<Row> = Vec::new();
    for i in 0..n {
        if nd::param(1) == 0 || i % 3 != 0 {
            b.append_null();
            rows.push(None);
        } else {
            let v = if i % 2 == 0 { vec![x, i as u8] } else { vec![] };
            b.append(&v);
            rows.push(Some(if n > 9999 { v } else { v.iter().map(|x| nd::alias8(*x)).collect() }));
        }
    }
    let big = n > 9999;
    fill(&mut b, &mut rows, if big { 1 } else { 2 }, true, if big { 1 } else { 2 });
    agree(&b, &rows, true);
    let mut c = BinaryBuffer::new(true);
    let mut crows: Vec<Row> = Vec::new();
    fill(&mut c, &mut crows, if big { 0 } else { 1 }, true, 1);
    let k = b.len();
    let end = c.append_from(&b, 0, k, 0);
    let mut last = 0;
    for (i, r) in rows.iter().enumerate() {
        if r.is_some() {
            last = i + 1;
        }
    }
    chk!(end == last);
    crows.extend_from_slice(&rows[..last]);
    agree(&c, &crows, true);
    reach!(7);
}
/// long items; p0: length, p1: nullable
#[no_mangle]
pub extern "C" fn h_c04_long() {
    let n = nd::param(0) as usize;
    let nullable = nd::param(1) == 1;
    let mut b = BinaryBuffer::new(nullable);
    let mut rows: Vec<Row> = Vec::new();
    for k in 0..3 {
        fill(&mut b, &mut rows, 1, nullable, 1);
        let mut v: Vec<u8> = (0..n + k).map(|i| (i * 3 + k) as u8).collect();
        let mut w = v.clone();
        for i in [0, n / 2, n + k - 1] {
            v[i] = nd::u8();
            w[i] = nd::alias8(v[i]);
        }
        b.append(&v);
        rows.push(Some(w));
    }
    agree(&b, &rows, nullable);
    // the second half copied behind a short item
    let mut c = BinaryBuffer::new(nullable);
    let mut crows: Vec<Row> = Vec::new();
    fill(&mut c, &mut crows, 1, nullable, 1);
    let first = rows.iter().take(3).filter(|r| r.is_some()).count();
    let end = c.append_from(&b, first, b.len(), 3);
    chk!(end == if nullable { 6 } else { b.len() - first });
    crows.extend_from_slice(&rows[3..]);
    agree(&c, &crows, nullable);
    reach!(6);
}
/// large ranges copied, from anywhere near the start, the middle and the end; p0: rows of the source, p1: nullable
#[no_mangle]
pub extern "C" fn h_c04_bulk() {
    let n = nd::param(0) as usize;
    let nullable = nd::param(1) == 1;
    let mut src = BinaryBuffer::new(nullable);
    let mut srows: Vec<Row> = Vec::new();
    for i in 0..n {
        if nullable && i % 5 == 3 {
            src.append_null();
            srows.push(None);
        } else {
            let v: Vec<u8> = (0..i * 7 % 4).map(|k| (i + k) as u8).collect();
            src.append(&v);
            srows.push(Some(v));
        }
    }
    fill(&mut src, &mut srows, 1, nullable, 1);
    let mut b = BinaryBuffer::new(nullable);
    let mut rows: Vec<Row> = Vec::new();
    fill(&mut b, &mut rows, nd::choice(2) as usize, nullable, 1);
    for _ in 0..2 {
        let vpos = [0, 1, 2, 9, n / 2, n - 1][nd::choice(6) as usize];
        let start = srows[..vpos].iter().filter(|r| r.is_some()).count();
        let have = srows[vpos..].iter().filter(|r| r.is_some()).count();
        let k = have - [0, 1, 2, have / 2][nd::choice(4) as usize].min(have);
        let r = b.append_from(&src, start, start + k, vpos);
        let mut pos = vpos;
        let mut got = 0;
        while got < k {
            rows.push(srows[pos].clone());
            got += srows[pos].is_some() as usize;
            pos += 1;
        }
        if nullable {
            chk!(r == pos);
        }
        agree(&b, &rows, nullable);
        if nd::flip() {
            b.clear();
            rows.clear();
        }
    }
    reach!(5);
}
