// C08: packed item lengths are recoverable
const FID: u64 = 8;
use super::super::offsets::OffsetEncoder;

fn width(l: &[u32]) -> u32 {
    let mut o = 0u32;
    for x in l {
        o |= *x;
    }
    32 - o.leading_zeros()
}
fn pack(l: &[u32], prefix: &[u8]) -> Vec<u8> {
    let mut src = l.to_vec();
    let mut dst = prefix.to_vec();
    let mut e = OffsetEncoder::new();
    e.encode(&mut src, &mut dst);
    dst
}
fn two(a: &[u32], b: &[u32]) {
    let p = [nd::u8(), 7, nd::u8()];
    let x = pack(a, &p);
    let y = pack(b, &p);
    chk!(x.len() >= 4 && y.len() >= 4);
    // appended, after what was there
    chk!(nd::same(&x[..3], &p));
    chk!(nd::same(&y[..3], &p));
    // the width comes first
    chk!(x[3] as u32 == width(a));
    chk!(y[3] as u32 == width(b));
    // the bytes determine the list
    if nd::same32(a, b) {
        chk!(nd::same(&x, &y));
        reach!(1);
    } else {
        chk!(!nd::same(&x, &y));
        reach!(2);
    }
    nd::obs_bytes(&x);
}
/// p0 entries, all symbolic, in both lists; p1..=p2: widths of the widest entry
#[no_mangle]
pub extern "C" fn h_c08_small() {
    let n = nd::param(0) as usize;
    let w = nd::choose(nd::param(1), nd::param(2)) as u32;
    let a: Vec<u32> = (0..n).map(|_| nd::u32()).collect();
    let b: Vec<u32> = (0..n).map(|_| nd::u32()).collect();
    // one path per width; lists of different widths differ in the first byte
    nd::assume(width(&a) == w);
    nd::assume(width(&b) == w);
    two(&a, &b);
}
/// p0 entries, concrete except p1 of them, spread out, of at most p2 bits
#[no_mangle]
pub extern "C" fn h_c08_large() {
    let n = nd::param(0) as usize;
    let k = nd::param(1) as usize;
    let w = nd::param(2) as u32;
    let base = nd::param(3) as u32;
    let mut a: Vec<u32> = (0..n).map(|i| (i as u32).wrapping_mul(base) & (((1u64 << w) - 1) as u32)).collect();
    let mut b = a.clone();
    for j in 0..k {
        // the last entries of the list and of the groups, and the first
        let i = match j {
            0 => n - 1,
            1 => 0,
            2 => n / 2,
            3 => if n > 127 { 127 } else { 1 },
            4 => if n > 128 { 128 } else { 2 },
            5 => n - 2,
            _ => (j * 31) % n,
        };
        let m = ((1u64 << w) - 1) as u32;
        a[i] = nd::u32() & m;
        b[i] = nd::u32() & m;
    }
    nd::assume(width(&a) == w);
    nd::assume(width(&b) == w);
    two(&a, &b);
    reach!(3);
}
/// lists that differ in one entry, any of p0, and perhaps another; of exactly p1 bits
#[no_mangle]
pub extern "C" fn h_c08_any() {
    let n = nd::param(0) as usize;
    let w = nd::param(1) as u32;
    let m = ((1u64 << w) - 1) as u32;
    let mut a: Vec<u32> = (0..n).map(|i| (i as u32).wrapping_mul(0x9e37_79b9) & m).collect();
    a[n / 3] |= 1 << (w - 1);
    let i = nd::choice(n as u64) as usize;
    if i == n / 3 {
        return;
    }
    let mut b = a.clone();
    a[i] = nd::u32() & m;
    b[i] = nd::u32() & m;
    let (x, y) = (pack(&a, &[]), pack(&b, &[]));
    chk!(x.len() > 0 && x[0] as u32 == w && y[0] as u32 == w);
    if a[i] == b[i] {
        chk!(nd::same(&x, &y));
    } else {
        chk!(!nd::same(&x, &y));
    }
}
/// one encoder used twice packs as two would; p0, p1: entries
#[no_mangle]
pub extern "C" fn h_c08_reuse() {
    let a: Vec<u32> = (0..nd::param(0)).map(|_| nd::u8() as u32).collect();
    let b: Vec<u32> = (0..nd::param(1)).map(|_| nd::u8() as u32).collect();
    let mut e = OffsetEncoder::new();
    let mut s = a.clone();
    let mut d = Vec::new();
    e.encode(&mut s, &mut d);
    let mut s = b.clone();
    let mut d = Vec::new();
    e.encode(&mut s, &mut d);
    chk!(nd::same(&d, &pack(&b, &[])));
    reach!(4);
}
