// C01: variable-length integers
const FID: u64 = 1;
use super::super::varint::{decode_varint, encode_varint, encoded_len_varint, Encoder as _};

/// base-128 little-endian value of the first number in `d`, with its length;
/// None if its first ten bytes all continue
fn spec(d: &[u8]) -> Option<(u64, usize)> {
    let mut v: u64 = 0;
    let mut i = 0;
    while i < d.len() && i < 10 {
        let b = d[i] as u64;
        v = v.wrapping_add((b & 0x7f).wrapping_shl(7 * i as u32) * ((i < 10) as u64));
        i += 1;
        if b < 0x80 {
            return Some((v, i));
        }
    }
    None
}

/// every 64-bit value, followed by arbitrary bytes
#[no_mangle]
pub extern "C" fn h_c01_value() {
    let v = nd::u64();
    let tail = nd::param(0) as usize;
    let mut out = vec![0u8; 10];
    let n = encode_varint(v, &mut out);
    chk!(n >= 1 && n <= 10);
    chk!(n == encoded_len_varint(v));
    // the bytes mean the value, and are the shortest that do
    match spec(&out[..n]) {
        Some((w, m)) => {
            chk!(w == v);
            chk!(m == n);
        }
        None => chk!(false),
    }
    chk!(n == 1 || out[n - 1] != 0);
    // decoded whatever follows
    let mut d = vec![0u8; n + tail];
    d[..n].copy_from_slice(&out[..n]);
    for i in 0..tail {
        d[n + i] = nd::u8();
    }
    if tail > 0 {
        // the decoder requires ten bytes or a terminating last byte
        nd::assume(n + tail >= 10 || d[n + tail - 1] < 0x80);
    }
    match decode_varint(&d) {
        Ok((w, m)) => {
            chk!(w == v);
            chk!(m == n);
        }
        Err(_) => chk!(false),
    }
    // appended to a buffer that already holds something
    let a = nd::u8();
    let b = nd::u8();
    let mut buf = vec![a, b];
    buf.put_varint(v);
    chk!(buf.len() == n + 2);
    chk!(buf[0] == a && buf[1] == b);
    chk!(nd::same(&buf[2..], &out[..n]));
    nd::obs(n as u64);
    nd::obs_bytes(&buf);
    reach!(n);
}

/// every byte string of the given length that meets the decoder's precondition
#[no_mangle]
pub extern "C" fn h_c01_bytes() {
    let len = nd::param(0) as usize;
    let mut d = vec![0u8; len];
    for i in 0..len {
        d[i] = nd::u8();
    }
    nd::assume(len >= 10 || d[len - 1] < 0x80);
    let r = decode_varint(&d);
    let s = spec(&d);
    match (r, s) {
        (Ok((v, n)), Some((w, m))) => {
            chk!(v == w);
            chk!(n == m);
            nd::obs(v);
            nd::obs(n as u64);
            reach!(20);
        }
        (Err(_), None) => {
            reach!(21);
        }
        (Ok(_), None) => chk!(false),
        (Err(_), Some(_)) => chk!(false),
    }
}
