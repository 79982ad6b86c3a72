// C03: numeric buffers
const FID: u64 = 3;
use crate::store::indexing_buffer::PrimitiveBuffer;

trait Num: Clone {
    fn any() -> Self;
    fn raw(&self) -> u64;
}
impl Num for i32 {
    fn any() -> i32 {
        nd::u32() as i32
    }
    fn raw(&self) -> u64 {
        *self as u32 as u64
    }
}
impl Num for i64 {
    fn any() -> i64 {
        nd::u64() as i64
    }
    fn raw(&self) -> u64 {
        *self as u64
    }
}
impl Num for u64 {
    fn any() -> u64 {
        nd::u64()
    }
    fn raw(&self) -> u64 {
        *self
    }
}
impl Num for f64 {
    fn any() -> f64 {
        f64::from_bits(nd::u64())
    }
    fn raw(&self) -> u64 {
        self.to_bits()
    }
}

fn agree<T: Num>(b: &PrimitiveBuffer<T>, rows: &[Option<u64>], nullable: bool) {
    let nonnull = rows.iter().filter(|r| r.is_some()).count();
    chk!(b.values().len() == nonnull);
    chk!(b.len() == nonnull);
    chk!(b.num_values() == rows.len());
    chk!(b.is_nullable() == nullable);
    chk!(b.has_nulls() == (nonnull < rows.len()));
    let mut ok = true;
    let mut k = 0;
    for r in rows {
        if let Some(v) = r {
            ok &= b.values()[k].raw() == *v;
            k += 1;
        }
    }
    chk!(ok);
    match b.validity() {
        None => chk!(!nullable),
        Some(m) => {
            chk!(nullable);
            chk!(m.len() == rows.len());
            for (i, r) in rows.iter().enumerate() {
                chk!(m.is_set(i) == r.is_some());
            }
        }
    }
}
fn fill<T: Num>(b: &mut PrimitiveBuffer<T>, rows: &mut Vec<Option<u64>>, n: usize, nullable: bool) {
    for _ in 0..n {
        if nullable && nd::flip() {
            b.append_null();
            rows.push(None);
        } else {
            let v = T::any();
            rows.push(Some(nd::alias64(v.raw())));
            b.append(v);
        }
    }
}
fn history<T: Num>() {
    let steps = nd::param(1);
    let nullable = nd::param(2) == 1;
    let slen = nd::param(3) as usize;
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut rows: Vec<Option<u64>> = Vec::new();
    let mut src: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut srows: Vec<Option<u64>> = Vec::new();
    fill(&mut src, &mut srows, slen, nullable);
    for _ in 0..steps {
        match nd::choice(if slen > 0 { 4 } else { 3 }) {
            0 => {
                let v = T::any();
                rows.push(Some(nd::alias64(v.raw())));
                b.append(v);
                reach!(1);
            }
            1 => {
                b.clear();
                rows.clear();
                agree(&b, &rows, nullable);
                reach!(2);
            }
            2 => {
                if nullable {
                    b.append_null();
                    rows.push(None);
                    reach!(3);
                } else {
                    reach!(4);
                    nd::expect_panic(true);
                    b.append_null();
                    nd::expect_panic(false);
                    chk!(false);
                }
            }
            _ => {
                // rows of the source from row `vpos` until `n` values are copied
                let vpos = nd::choice(slen as u64 + 1) as usize;
                let start = srows[..vpos].iter().filter(|r| r.is_some()).count();
                let have = srows[vpos..].iter().filter(|r| r.is_some()).count();
                let n = nd::choice(have as u64 + 1) as usize;
                let r = b.append_from(&src, start, start + n, vpos);
                let mut pos = vpos;
                let mut got = 0;
                while got < n {
                    rows.push(srows[pos]);
                    got += srows[pos].is_some() as usize;
                    pos += 1;
                }
                if nullable {
                    chk!(r == pos);
                }
                reach!(5);
            }
        }
    }
    agree(&b, &rows, nullable);
    agree(&src, &srows, nullable);
    for v in b.values() {
        nd::obs(v.raw());
    }
}
/// p0: type, p1: operations, p2: nullable, p3: rows of the source copied from
#[no_mangle]
pub extern "C" fn h_c03_history() {
    match nd::param(0) {
        0 => history::<i32>(),
        1 => history::<i64>(),
        2 => history::<u64>(),
        _ => history::<f64>(),
    }
}
fn mixed<T: Num>() {
    let dst_nullable = nd::param(1) == 1;
    let mut src: PrimitiveBuffer<T> = PrimitiveBuffer::new(!dst_nullable);
    let mut srows = Vec::new();
    fill(&mut src, &mut srows, 2, !dst_nullable);
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(dst_nullable);
    let mut rows = Vec::new();
    fill(&mut b, &mut rows, 1, dst_nullable);
    let n = srows.iter().filter(|r| r.is_some()).count();
    let k = nd::choice(n as u64 + 1) as usize;
    reach!(6);
    nd::expect_panic(true);
    b.append_from(&src, 0, k, 0);
    nd::expect_panic(false);
    chk!(false);
}
/// copying between a nullable and a non-nullable buffer panics; p1: destination nullable
#[no_mangle]
pub extern "C" fn h_c03_mixed() {
    match nd::param(0) {
        0 => mixed::<i32>(),
        1 => mixed::<i64>(),
        2 => mixed::<u64>(),
        _ => mixed::<f64>(),
    }
}
/// reuse of a large buffer: filled, cleared, refilled; p1: rows, p2: pattern
fn reuse<T: Num>() {
    let n = nd::param(1) as usize;
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(true);
    let any = T::any();
    for i in 0..n {
        b.append(any.clone());
    }
    b.clear();
    let mut rows = Vec::new();
    for i in 0..n {
        if nd::param(2) == 0 || i % 3 != 0 {
            b.append_null();
            rows.push(None);
        } else {
            b.append(any.clone());
            rows.push(Some(any.raw()));
        }
    }
    fill(&mut b, &mut rows, 3, true);
    agree(&b, &rows, true);
    // copied whole into another one
    let mut c: PrimitiveBuffer<T> = PrimitiveBuffer::new(true);
    let mut crows = Vec::new();
    fill(&mut c, &mut crows, 1, true);
    let k = b.len();
    let end = c.append_from(&b, 0, k, 0);
    let mut last = 0;
    for (i, r) in rows.iter().enumerate() {
        if r.is_some() {
            last = i + 1;
        }
    }
    chk!(end == last);
    crows.extend_from_slice(&rows[..last]);
    agree(&c, &crows, true);
    reach!(7);
}
#[no_mangle]
pub extern "C" fn h_c03_reuse() {
    match nd::param(0) {
        0 => reuse::<i32>(),
        1 => reuse::<i64>(),
        2 => reuse::<u64>(),
        _ => reuse::<f64>(),
    }
}
/// large ranges copied, from anywhere near the start, the middle and the end; p1: rows of the source, p2: nullable
fn bulk<T: Num>() {
    let n = nd::param(1) as usize;
    let nullable = nd::param(2) == 1;
    let mut src: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut srows: Vec<Option<u64>> = Vec::new();
    let some = [T::any(), T::any(), T::any()];
    for i in 0..n {
        if nullable && i % 5 == 3 {
            src.append_null();
            srows.push(None);
        } else {
            let v = some[i % 3].clone();
            srows.push(Some(v.raw()));
            src.append(v);
        }
    }
    fill(&mut src, &mut srows, 1, nullable);
    let mut b: PrimitiveBuffer<T> = PrimitiveBuffer::new(nullable);
    let mut rows: Vec<Option<u64>> = Vec::new();
    let before = nd::choice(2) as usize;
    fill(&mut b, &mut rows, before, nullable);
    for _ in 0..2 {
        let vpos = [0, 1, 2, 9, n / 2, n - 1][nd::choice(6) as usize];
        let start = srows[..vpos].iter().filter(|r| r.is_some()).count();
        let have = srows[vpos..].iter().filter(|r| r.is_some()).count();
        let k = have - [0, 1, 2, have / 2][nd::choice(4) as usize].min(have);
        let r = b.append_from(&src, start, start + k, vpos);
        let mut pos = vpos;
        let mut got = 0;
        while got < k {
            rows.push(srows[pos]);
            got += srows[pos].is_some() as usize;
            pos += 1;
        }
        if nullable {
            chk!(r == pos);
        }
        agree(&b, &rows, nullable);
        if nd::flip() {
            b.clear();
            rows.clear();
        }
    }
    reach!(5);
}
#[no_mangle]
pub extern "C" fn h_c03_bulk() {
    match nd::param(0) {
        0 => bulk::<i32>(),
        1 => bulk::<i64>(),
        2 => bulk::<u64>(),
        _ => bulk::<f64>(),
    }
}
