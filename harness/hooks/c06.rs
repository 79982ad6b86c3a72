// C06: validity compression is lossless
const FID: u64 = 6;
use super::super::bitmap_rle;
use crate::store::indexing_buffer::Bitmap;

fn varint(d: &[u8], pos: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut sh = 0;
    while *pos < d.len() && sh < 64 {
        let b = d[*pos];
        *pos += 1;
        v |= ((b & 0x7f) as u64) << sh;
        if b < 0x80 {
            return Some(v);
        }
        sh += 7;
    }
    None
}
/// the bytes a sequence of frames describes; None if it is not well formed
fn expand(d: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut pos = 0;
    while pos < d.len() {
        let h = varint(d, &mut pos)?;
        let n = (h >> 1) as usize;
        if n > 1 << 20 {
            return None;
        }
        if h & 1 == 1 {
            if pos + n > d.len() {
                return None;
            }
            out.extend_from_slice(&d[pos..pos + n]);
            pos += n;
        } else {
            if pos >= d.len() {
                return None;
            }
            for _ in 0..n {
                out.push(d[pos]);
            }
            pos += 1;
        }
    }
    Some(out)
}
fn pack(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= (*b as u8) << (i % 8);
    }
    out
}
fn check_bytes(enc: &[u8], bits: &[bool]) {
    match expand(enc) {
        Some(b) => {
            let want = pack(bits);
            chk!(b.len() == want.len());
            chk!(nd::same(&b, &want));
        }
        None => chk!(false),
    }
}
/// the repository's own decoder gives exactly the set positions; branches on every bit
fn check_decode(enc: &[u8], bits: &[bool]) {
    let mut want: Vec<u32> = Vec::new();
    for (i, b) in bits.iter().enumerate() {
        if *b {
            want.push(i as u32);
        }
    }
    // a buffer of exactly the right size, and one with room to spare that must stay untouched
    let mut got = vec![0u32; want.len()];
    bitmap_rle::decode(enc, &mut got);
    chk!(nd::same32(&got, &want));
    let mut got = vec![u32::MAX; want.len() + 2];
    bitmap_rle::decode(enc, &mut got);
    chk!(nd::same32(&got[..want.len()], &want));
    chk!(got[want.len()] == u32::MAX && got[want.len() + 1] == u32::MAX);
}
fn encode(e: &mut bitmap_rle::Encoder, bits: &[bool]) {
    for b in bits {
        e.put(*b);
    }
    e.flush();
}
/// some use of the encoder before it is cleared
fn dirty(e: &mut bitmap_rle::Encoder, kind: u64) {
    match kind {
        0 => {}
        1 => {
            for _ in 0..13 {
                e.put(true);
            }
        }
        2 => {
            for _ in 0..40 {
                e.put(true);
            }
            e.flush();
        }
        3 => {
            for i in 0..20 {
                e.put(i % 3 == 0);
            }
            e.flush();
        }
        _ => {
            for i in 0..16 {
                e.put(false);
            }
            for i in 0..35 {
                e.put(true);
            }
        }
    }
    if kind > 0 {
        e.clear();
    }
}
fn bits(n: usize) -> Vec<bool> {
    (0..n).map(|_| nd::bit()).collect()
}

/// p0: number of symbolic bits, p1: earlier use
#[no_mangle]
pub extern "C" fn h_c06_bits() {
    let l = bits(nd::param(0) as usize);
    let mut e = bitmap_rle::Encoder::new();
    dirty(&mut e, nd::param(1));
    encode(&mut e, &l);
    check_bytes(e.encoded_values(), &l);
    nd::obs_bytes(e.encoded_values());
    reach!(1);
}
/// as above, with the repository's decoder; p2: bits per symbolic bit (runs of equal bits)
#[no_mangle]
pub extern "C" fn h_c06_decode() {
    let n = nd::param(0) as usize;
    let rep = nd::param(2) as usize;
    let mut l = Vec::new();
    for _ in 0..n {
        let b = nd::flip();
        for _ in 0..rep {
            l.push(b);
        }
    }
    let mut e = bitmap_rle::Encoder::new();
    dirty(&mut e, nd::param(1));
    encode(&mut e, &l);
    check_bytes(e.encoded_values(), &l);
    check_decode(e.encoded_values(), &l);
    reach!(2);
}
/// segments: p0 segments of symbolic kind and length class, then p1 symbolic bits. Kinds:
/// run of 0x00, of 0xff, of 0x55, literal bytes that differ from their neighbours;
/// lengths 1,2,3,4 or, once in a while, p2
#[no_mangle]
pub extern "C" fn h_c06_segments() {
    let segs = nd::param(0);
    let tail = nd::param(1) as usize;
    let long = nd::param(2) as usize;
    let mut l: Vec<bool> = Vec::new();
    let mut c = 0u8;
    let x = nd::u8();
    for s in 0..segs {
        let kind = nd::choice(4);
        let k = nd::choice(5) as usize;
        let n = if k == 4 { long } else { k + 1 };
        for j in 0..n {
            let byte = match kind {
                0 => 0u8,
                1 => 0xff,
                2 => 0x55,
                _ => {
                    c = c.wrapping_add(37);
                    // never two equal bytes in a row, top bit symbolic throughout
                    (c & 0x7f) | (x & 0x80)
                }
            };
            for b in 0..8 {
                l.push((byte >> b) & 1 == 1);
            }
        }
    }
    for _ in 0..tail {
        l.push(nd::bit());
    }
    let mut e = bitmap_rle::Encoder::new();
    encode(&mut e, &l);
    check_bytes(e.encoded_values(), &l);
    // once more with the same encoder
    let first: Vec<u8> = e.encoded_values().to_vec();
    e.clear();
    encode(&mut e, &l);
    chk!(nd::same(e.encoded_values(), &first));
    reach!(3);
}
/// long literals and runs, up to and over the header widths; p0: bytes, p1: 0 literal,
/// 1 run, 2 literal then run, 3 run then literal; ends with a symbolic partial byte
#[no_mangle]
pub extern "C" fn h_c06_long() {
    let n = nd::param(0) as usize;
    let kind = nd::param(1);
    let mut l: Vec<bool> = Vec::new();
    let put = |l: &mut Vec<bool>, byte: u8| {
        for b in 0..8 {
            l.push((byte >> b) & 1 == 1);
        }
    };
    let x = nd::u8();
    for i in 0..n {
        let byte = match kind {
            0 => (i as u8 & 0x3f) | (x & 0xc0),
            1 => 0xff,
            2 => if i < n / 2 { i as u8 } else { 0 },
            _ => if i < n / 2 { 0xff } else { i as u8 },
        };
        put(&mut l, byte);
    }
    for _ in 0..nd::param(2) {
        l.push(nd::bit());
    }
    let mut e = bitmap_rle::Encoder::new();
    encode(&mut e, &l);
    check_bytes(e.encoded_values(), &l);
    reach!(4);
}
/// rows of a bitmap from a start row until n set rows; p0: bits of the bitmap, p1: bits
/// put before them
#[no_mangle]
pub extern "C" fn h_c06_from() {
    let n = nd::param(0) as usize;
    let before = nd::param(1) as usize;
    let l = bits(n);
    let mut bm = Bitmap::new();
    for b in &l {
        bm.append(*b);
    }
    let start = nd::choice(n as u64 + 1) as usize;
    let mut have = 0;
    for i in start..n {
        have += l[i] as u64;
    }
    let k = nd::choice(n as u64 + 1);
    nd::assume(k <= have);
    let mut e = bitmap_rle::Encoder::new();
    let mut want = bits(before);
    for b in &want {
        e.put(*b);
    }
    let r = e.put_from(&bm, start, k as usize);
    let mut pos = start;
    let mut got = 0;
    while got < k {
        want.push(l[pos]);
        if l[pos] {
            got += 1;
        }
        pos += 1;
    }
    chk!(r == pos);
    e.flush();
    check_bytes(e.encoded_values(), &want);
    reach!(5);
}
