// C05: boolean buffers
const FID: u64 = 5;
use crate::store::indexing_buffer::BoolBuffer;

fn agree(b: &BoolBuffer, rows: &[Option<bool>], nullable: bool) {
    let nonnull = rows.iter().filter(|r| r.is_some()).count();
    chk!(b.len() == rows.len());
    chk!(b.is_nullable() == nullable);
    chk!(b.has_nulls() == (nonnull < rows.len()));
    chk!(b.values().len() == nonnull);
    let mut ok = true;
    let mut k = 0;
    for r in rows {
        if let Some(v) = r {
            ok &= b.values().is_set(k) == *v;
            k += 1;
        }
    }
    chk!(ok);
    if nullable {
        chk!(b.validity().len() == rows.len());
        for (i, r) in rows.iter().enumerate() {
            chk!(b.validity().is_set(i) == r.is_some());
        }
    }
}
/// p0: operations, p1: nullable
#[no_mangle]
pub extern "C" fn h_c05_history() {
    let nullable = nd::param(1) == 1;
    let mut b = BoolBuffer::new(nullable);
    let mut rows: Vec<Option<bool>> = Vec::new();
    for _ in 0..nd::param(0) {
        match nd::choice(3) {
            0 => {
                let v = nd::bit();
                b.append(v);
                rows.push(Some(v));
                reach!(1);
            }
            1 => {
                b.clear();
                rows.clear();
                agree(&b, &rows, nullable);
                reach!(2);
            }
            _ => {
                if nullable {
                    b.append_null();
                    rows.push(None);
                    reach!(3);
                } else {
                    reach!(4);
                    nd::expect_panic(true);
                    b.append_null();
                    nd::expect_panic(false);
                    chk!(false);
                }
            }
        }
    }
    agree(&b, &rows, nullable);
    for i in 0..b.values().len() {
        nd::obs(b.values().is_set(i) as u64);
    }
}
/// p0: rows before the clear, p1: rows after, p2: pattern, p3: nullable; then 3 symbolic rows
#[no_mangle]
pub extern "C" fn h_c05_reuse() {
    let nullable = nd::param(3) == 1;
    let mut b = BoolBuffer::new(nullable);
    for _ in 0..nd::param(0) {
        b.append(true);
    }
    b.clear();
    let mut rows: Vec<Option<bool>> = Vec::new();
    for i in 0..nd::param(1) {
        let r = match nd::param(2) {
            0 => Some(false),
            1 => if nullable { None } else { Some(i % 2 == 0) },
            _ => if i % 3 == 0 && nullable { None } else { Some(i % 2 == 0) },
        };
        match r {
            Some(v) => b.append(v),
            None => b.append_null(),
        }
        rows.push(r);
    }
    for _ in 0..3 {
        if nullable && nd::flip() {
            b.append_null();
            rows.push(None);
        } else {
            let v = nd::bit();
            b.append(v);
            rows.push(Some(v));
        }
    }
    agree(&b, &rows, nullable);
    reach!(5);
}
