// C20: an encoding is either honoured or refused
const FID: u64 = 20;
use super::col::*;
use crate::store::segment_metadata::column_layout::EncoderLayout;

const ENCODINGS: [Encoding; 5] = [Encoding::Raw, Encoding::BitPacked, Encoding::DeltaBinaryPacked, Encoding::RleDictionary, Encoding::Snappy];

trait Make: Row {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>>;
}
impl Make for i32 {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_i32_encoder(e, bs, nullable)
    }
}
impl Make for i64 {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_i64_encoder(e, bs, nullable)
    }
}
impl Make for u64 {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_u64_encoder(e, bs, nullable)
    }
}
impl Make for f64 {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_f64_encoder(e, bs, nullable)
    }
}
impl Make for Vec<u8> {
    fn make(e: Encoding, bs: usize, nullable: bool) -> Result<Box<dyn BlockEncoder<Self::Buf, Sink>>> {
        new_binary_encoder(e, bs as u32, nullable)
    }
}

/// p0: type, p1..p9 as in Spec, p10: encoding
fn go<R: Make>() {
    let s = spec();
    let enc = ENCODINGS[nd::param(10) as usize];
    let mut e = match R::make(enc, s.bs, s.nullable) {
        Ok(e) => e,
        Err(_) => {
            // refusing is fine, except for the encoding every type has
            chk!(enc != Encoding::Raw);
            reach!(1);
            return;
        }
    };
    let rows = rows::<R>(&s);
    let cuts = cuts(&s);
    let mut k = sink();
    let ok = feed::<R, _>(&mut e, &mut k, &rows, &cuts, &s, |_, _| {});
    chk!(ok);
    let layout = nd::block_on(e.flush(&mut k));
    chk!(layout.is_ok());
    match (&layout, enc) {
        (Ok(EncoderLayout::Plain(_)), Encoding::Raw) => {}
        (Ok(EncoderLayout::BinaryDict(_)), Encoding::RleDictionary) => {}
        (Ok(EncoderLayout::Snappy(_)), Encoding::Snappy) => {}
        _ => chk!(false),
    }
    if enc == Encoding::Raw {
        check_blocks(&k.blocks, &aliased(&s, &rows), s.nullable);
        obs_blocks(&k);
        reach!(2);
    } else if rows.iter().any(|r| r.is_some()) {
        // the format is not documented, but rows that differ have to differ in it as well
        any_written(&k);
        if k.blocks.len() > 0 {
            let other: Vec<Option<R>> = rows.iter().map(|r| r.as_ref().map(|v| v.like())).collect();
            let mut equal = true;
            for (a, b) in rows.iter().zip(&other) {
                if let (Some(a), Some(b)) = (a, b) {
                    equal &= nd::same(&a.bytes(), &b.bytes());
                }
            }
            nd::assume(!equal);
            let mut e = R::make(enc, s.bs, s.nullable).unwrap();
            let mut k2 = sink();
            chk!(feed::<R, _>(&mut e, &mut k2, &other, &cuts, &s, |_, _| {}));
            chk!(nd::block_on(e.flush(&mut k2)).is_ok());
            let mut same = k.blocks.len() == k2.blocks.len();
            for (a, b) in k.blocks.iter().zip(&k2.blocks) {
                same &= a.0 == b.0 && nd::same(&a.1, &b.1);
            }
            recoverable(!same);
        }
    }
}
#[inline(never)]
fn any_written(k: &Sink) {
    chk!(k.blocks.len() > 0)
}
/// whether different rows gave different blocks
#[inline(never)]
fn recoverable(different_rows_different_blocks: bool) {
    chk!(different_rows_different_blocks)
}
#[no_mangle]
pub extern "C" fn h_c20() {
    match nd::param(0) {
        0 => go::<i32>(),
        1 => go::<i64>(),
        2 => go::<u64>(),
        3 => go::<f64>(),
        _ => go::<Vec<u8>>(),
    }
}
