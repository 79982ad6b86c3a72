// C07: any well-formed compressed bitmap decodes to its meaning
const FID: u64 = 7;
use super::super::bitmap_rle;

fn put_varint(out: &mut Vec<u8>, mut v: u64, pad: u64) {
    let start = out.len();
    while v >= 0x80 {
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
    if pad == 0 {
        out.push(v as u8);
    } else {
        // the same number, written longer than needed
        out.push(v as u8 | 0x80);
        for _ in 1..pad {
            out.push(0x80);
        }
        out.push(0);
    }
}
fn decode_and_check(enc: &[u8], bytes: &[u8]) {
    let mut want: Vec<u32> = Vec::new();
    for (i, b) in bytes.iter().enumerate() {
        for k in 0..8 {
            if (*b >> k) & 1 == 1 {
                want.push((i * 8 + k) as u32);
            }
        }
    }
    let mut got = vec![0u32; want.len()];
    bitmap_rle::decode(enc, &mut got);
    chk!(nd::same32(&got, &want));
    let mut got = vec![u32::MAX; want.len() + 1];
    bitmap_rle::decode(enc, &mut got);
    chk!(nd::same32(&got[..want.len()], &want));
    chk!(got[want.len()] == u32::MAX);
    for x in &got {
        nd::obs(*x as u64);
    }
}
/// a byte with `n` symbolic bits at the given place, the others clear or set
fn byte(n: u64, place: u64) -> u8 {
    match n {
        0 => [0u8, 0xff, 0x81][nd::choice(3) as usize],
        8 => nd::fix(nd::u8() as u64) as u8,
        _ => {
            let v = nd::choice(1 << n) as u8;
            let base = if nd::flip() { 0xffu8 } else { 0 };
            let m = ((1u8 << n) - 1) << place;
            (base & !m) | (v << place)
        }
    }
}
/// p0 frames; p1: symbolic bits per byte; p2: their place; p3: longest literal/run; p4: padding
#[no_mangle]
pub extern "C" fn h_c07_frames() {
    let (frames, nb, place, max) = (nd::param(0), nd::param(1), nd::param(2), nd::param(3));
    let pad = nd::param(4);
    let mut enc: Vec<u8> = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    for _ in 0..frames {
        let n = nd::choice(max + 1);
        if nd::flip() {
            put_varint(&mut enc, n << 1 | 1, pad);
            for _ in 0..n {
                let b = byte(nb, place);
                enc.push(b);
                bytes.push(b);
            }
            reach!(1);
        } else {
            let b = byte(nb, place);
            put_varint(&mut enc, n << 1, pad);
            enc.push(b);
            for _ in 0..n {
                bytes.push(b);
            }
            reach!(2);
        }
    }
    decode_and_check(&enc, &bytes);
}
/// long frames; p0: length, p1: literal, p2: value kind; between two short literals
#[no_mangle]
pub extern "C" fn h_c07_long() {
    let n = nd::param(0);
    let mut enc: Vec<u8> = Vec::new();
    let mut bytes: Vec<u8> = Vec::new();
    for part in 0..3 {
        if part == 1 {
            let v = match nd::param(2) {
                0 => 0u8,
                1 => 0xff,
                _ => 0x18,
            };
            if nd::param(1) == 1 {
                put_varint(&mut enc, n << 1 | 1, 0);
                for i in 0..n {
                    let b = v ^ (i as u8 & 1);
                    enc.push(b);
                    bytes.push(b);
                }
            } else {
                put_varint(&mut enc, n << 1, 0);
                enc.push(v);
                for _ in 0..n {
                    bytes.push(v);
                }
            }
        } else {
            put_varint(&mut enc, 3, 0);
            let b = if n > 9999 { [1u8, 0xc0][nd::flip() as usize] } else { byte(2, 3 * part) };
            enc.push(b);
            bytes.push(b);
        }
    }
    decode_and_check(&enc, &bytes);
    reach!(3);
}
/// a run of zeros of any length, then a literal or a run, p0 times; p1: padding of the headers
#[no_mangle]
pub extern "C" fn h_c07_skip() {
    let mut enc: Vec<u8> = Vec::new();
    let mut want: Vec<u32> = Vec::new();
    let mut at: u32 = 0;
    let parts = nd::param(0);
    for part in 0..parts {
        // positions are 32-bit numbers
        let n = if part > 0 && nd::param(2) == 1 { 70 * nd::choice(3) } else { nd::range(0, ((1 << 29) - 1) / parts - 64) };
        put_varint(&mut enc, n << 1, nd::param(1));
        enc.push(0);
        at += (n as u32) * 8;
        let (b, k) = if parts == 1 { (byte(2, 3), nd::choice(3)) } else { ([1u8, 0xc0][nd::flip() as usize], 1 + nd::choice(2)) };
        if nd::flip() {
            put_varint(&mut enc, k << 1 | 1, nd::param(1));
            for _ in 0..k {
                enc.push(b);
            }
        } else {
            put_varint(&mut enc, k << 1, nd::param(1));
            enc.push(b);
        }
        for _ in 0..k {
            for i in 0..8 {
                if (b >> i) & 1 == 1 {
                    want.push(at + i);
                }
            }
            at += 8;
        }
    }
    let mut got = vec![0u32; want.len()];
    bitmap_rle::decode(&enc, &mut got);
    let want: Vec<u32> = want.iter().map(|x| nd::alias32(*x)).collect();
    chk!(nd::same32(&got, &want));
    for x in &got {
        nd::obs(*x as u64);
    }
    reach!(4);
}
