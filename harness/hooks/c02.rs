// C02: bitmaps are sequences of booleans
const FID: u64 = 2;
use crate::store::indexing_buffer::Bitmap;

fn agree(b: &Bitmap, list: &[bool]) {
    chk!(b.len() == list.len());
    let mut ok = true;
    for i in 0..list.len() {
        ok &= b.is_set(i) == list[i];
    }
    chk!(ok);
}
fn bits(n: usize) -> Vec<bool> {
    (0..n).map(|_| nd::bit()).collect()
}
fn from_list(l: &[bool]) -> Bitmap {
    let mut b = Bitmap::new();
    for x in l {
        b.append(*x);
    }
    b
}
/// copy from `src` at `start` until `n` set bits, in both
fn copy(b: &mut Bitmap, list: &mut Vec<bool>, src: &Bitmap, slist: &[bool], start: usize, n: usize) {
    let r = b.append_from(src, start, n);
    let mut pos = start;
    let mut got = 0;
    while got < n {
        let v = slist[pos];
        list.push(v);
        if v {
            got += 1;
        }
        pos += 1;
    }
    chk!(r == pos);
}

/// histories of `steps` symbolic operations; p0: steps, p1: capacity (0 = new()), p2:
/// 1 = with a source to copy from
#[no_mangle]
pub extern "C" fn h_c02_history() {
    let steps = nd::param(0);
    let cap = nd::param(1) as usize;
    let slen = nd::param(2) as usize;
    let mut b = if cap == 0 { Bitmap::new() } else { Bitmap::with_capacity(cap - 1) };
    let mut list: Vec<bool> = Vec::new();
    let slist = bits(slen);
    let src = from_list(&slist);
    for _ in 0..steps {
        match nd::choice(if slen > 0 { 3 } else { 2 }) {
            0 => {
                let v = nd::bit();
                b.append(v);
                list.push(v);
                reach!(1);
            }
            1 => {
                b.clear();
                list.clear();
                reach!(2);
            }
            _ => {
                let start = nd::choice(slen as u64 + 1) as usize;
                let mut have = 0;
                for i in start..slen {
                    have += slist[i] as u64;
                }
                let n = nd::choice(slen as u64 + 1);
                nd::assume(n <= have);
                copy(&mut b, &mut list, &src, &slist, start, n as usize);
                reach!(3);
            }
        }
    }
    agree(&b, &list);
    agree(&src, &slist);
    for i in 0..list.len() {
        nd::obs(b.is_set(i) as u64);
    }
}

/// a bitmap filled to the edge of its capacity, then symbolic appends across the
/// growth, a clear, and again; p0: capacity in bits (0 = new()), p1: bits before,
/// p2: symbolic bits, p3: pattern
#[no_mangle]
pub extern "C" fn h_c02_growth() {
    let cap = nd::param(0) as usize;
    let fill = nd::param(1) as usize;
    let k = nd::param(2) as usize;
    let pat = nd::param(3);
    let mut b = if cap == 0 { Bitmap::new() } else { Bitmap::with_capacity(cap) };
    for round in 0..2 {
        let mut list: Vec<bool> = Vec::with_capacity(fill + k);
        for i in 0..fill {
            let v = match pat {
                0 => false,
                1 => true,
                _ => (i * 7 + i / 5 + round) % 3 == 0,
            };
            b.append(v);
            list.push(v);
        }
        for _ in 0..k {
            let v = nd::bit();
            b.append(v);
            list.push(v);
        }
        agree(&b, &list);
        reach!(10 + round);
        // any position, also read through a symbolic index near the end
        let i = nd::range((fill + k).saturating_sub(12) as u64, (fill + k - 1) as u64) as usize;
        let mut want = false;
        for j in (fill + k).saturating_sub(12)..fill + k {
            want |= (i == j) & list[j];
        }
        chk!(b.is_set(i) == want);
        // copied as a whole into a fresh one
        if round == 1 {
            let mut c = Bitmap::new();
            let mut n = 0usize;
            let mut last = 0;
            for j in 0..fill {
                if list[j] {
                    n += 1;
                    last = j + 1;
                }
            }
            c.append(true);
            let r = c.append_from(&b, 0, n);
            chk!(r == last);
            chk!(c.len() == last + 1);
            let mut ok = c.is_set(0);
            for j in 0..last {
                ok &= c.is_set(j + 1) == list[j];
            }
            chk!(ok);
        }
        b.clear();
        chk!(b.len() == 0);
    }
}

/// a large bitmap, ending in symbolic bits; p0: bits before, p1: symbolic bits
#[no_mangle]
pub extern "C" fn h_c02_large() {
    let fill = nd::param(0) as usize;
    let k = nd::param(1) as usize;
    let mut b = Bitmap::new();
    for i in 0..fill {
        b.append(i & 0x25 == 5);
    }
    let list = bits(k);
    for v in &list {
        b.append(*v);
    }
    chk!(b.len() == fill + k);
    let mut ok = true;
    for i in 0..fill {
        ok &= b.is_set(i) == (i & 0x25 == 5);
    }
    chk!(ok);
    for i in 0..k {
        ok &= b.is_set(fill + i) == list[i];
    }
    chk!(ok);
    reach!(12);
}

/// reading at or past the end panics; p0: number of bits, p1: 1 = cleared before
#[no_mangle]
pub extern "C" fn h_c02_end() {
    let n = nd::param(0) as usize;
    let mut b = Bitmap::new();
    if nd::param(1) == 1 {
        for _ in 0..n + 3 {
            b.append(true);
        }
        b.clear();
    }
    for _ in 0..n {
        b.append(nd::bit());
    }
    let i = nd::u64() as usize;
    nd::assume(i >= n);
    reach!(20);
    nd::expect_panic(true);
    let r = b.is_set(i);
    nd::expect_panic(false);
    chk!(false);
}

/// copying more set bits than there are panics rather than inventing rows
#[no_mangle]
pub extern "C" fn h_c02_copy_end() {
    let n = nd::param(0) as usize;
    let l = bits(n);
    let src = from_list(&l);
    let start = nd::choice(n as u64 + 2) as usize;
    let mut have = 0u64;
    for i in start..n {
        have += l[i] as u64;
    }
    let k = have + 1 + nd::choice(2);
    let mut b = Bitmap::new();
    reach!(21);
    nd::expect_panic(true);
    b.append_from(&src, start, k as usize);
    nd::expect_panic(false);
    chk!(false);
}
