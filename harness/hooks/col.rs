// Shared by the column encoder harnesses: a sink that records blocks (and may fail), an
// independent reader of the block formats, and the generator of rows and buffers.
const FID: u64 = 30;
use crate::store::indexing_buffer::*;

pub struct Sink {
    pub blocks: Vec<(u32, Vec<u8>)>,
    pub calls: u32,
    /// any of the first so many calls may fail
    pub any_fail: u32,
    pub failed: u32,
}
pub fn sink() -> Sink {
    Sink { blocks: Vec::new(), calls: 0, any_fail: 0, failed: 0 }
}
#[async_trait]
impl BlockSink for Sink {
    async fn write_block(&mut self, row_id: u32, block_data: &[u8]) -> Result<()> {
        let c = self.calls;
        self.calls += 1;
        if c < self.any_fail && nd::bit() {
            self.failed += 1;
            return Err(anyhow!("sink"));
        }
        self.blocks.push((row_id, block_data.to_vec()));
        Ok(())
    }
}

// ------------------------------------------------------------ block formats

pub fn varint(d: &[u8], pos: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    let mut sh = 0;
    while *pos < d.len() && sh < 64 {
        let b = d[*pos];
        *pos += 1;
        v |= ((b & 0x7f) as u64) << sh;
        if b < 0x80 {
            return Some(v);
        }
        sh += 7;
    }
    None
}
/// the bytes a sequence of validity frames describes
pub fn expand(d: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut pos = 0;
    while pos < d.len() {
        let h = varint(d, &mut pos)?;
        let n = (h >> 1) as usize;
        if n > 1 << 20 {
            return None;
        }
        if h & 1 == 1 {
            if pos + n > d.len() {
                return None;
            }
            out.extend_from_slice(&d[pos..pos + n]);
            pos += n;
        } else {
            if pos >= d.len() {
                return None;
            }
            for _ in 0..n {
                out.push(d[pos]);
            }
            pos += 1;
        }
    }
    Some(out)
}
pub fn pack_bits(bits: &[bool]) -> Vec<u8> {
    let mut out = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        out[i / 8] |= (*b as u8) << (i % 8);
    }
    out
}
/// n lengths of w bits from the start of d, and how many bytes they take: groups of 128,
/// four interleaved lanes of 32-bit words each, trailing words of all lanes trimmed
pub fn unpack(d: &[u8], n: usize, w: usize) -> Option<(Vec<u32>, usize)> {
    let words = |len: usize| (w * ((len + 3) / 4) + 31) / 32;
    let group = words(128) * 16;
    let size = n / 128 * group + words(n % 128) * 16;
    if w > 32 || size > d.len() {
        return None;
    }
    let mut out = Vec::new();
    for i in 0..n {
        let (g, k) = (i / 128, i % 128);
        let (lane, idx) = (k % 4, k / 4);
        let mut v = 0u32;
        for b in 0..w {
            let bit = idx * w + b;
            let byte = g * group + (bit / 32 * 4 + lane) * 4 + bit % 32 / 8;
            v |= ((d[byte] >> (bit % 8)) as u32 & 1) << b;
        }
        out.push(v);
    }
    Some((out, size))
}
fn check_validity(rest: &[u8], bits: &[bool], nullable: bool) {
    if !nullable {
        chk!(rest.is_empty());
        return;
    }
    match expand(rest) {
        Some(b) => chk!(nd::same(&b, &pack_bits(bits))),
        None => chk!(false),
    }
}
/// the block holds exactly these rows
pub fn check_block<R: Row>(d: &[u8], rows: &[Option<R>], nullable: bool) {
    let mut pos = 0;
    let len = match varint(d, &mut pos) {
        Some(l) => l as usize,
        None => {
            chk!(false);
            return;
        }
    };
    let mut want = Vec::new();
    let mut lens = Vec::new();
    let mut bits = Vec::new();
    for r in rows {
        bits.push(r.is_some());
        if let Some(v) = r {
            let b = v.bytes();
            lens.push(b.len() as u32);
            want.extend_from_slice(&b);
        }
    }
    chk!(len == want.len());
    if pos + len > d.len() || len != want.len() {
        chk!(false);
        return;
    }
    chk!(nd::same(&d[pos..pos + len], &want));
    let mut rest = &d[pos + len..];
    if R::PACKED {
        if rest.is_empty() {
            chk!(false);
            return;
        }
        let w = rest[0] as usize;
        match unpack(&rest[1..], lens.len(), w) {
            Some((got, size)) => {
                chk!(nd::same32(&got, &lens));
                rest = &rest[1 + size..];
            }
            None => {
                chk!(false);
                return;
            }
        }
    }
    check_validity(rest, &bits, nullable);
}
/// the blocks, with their row ids, hold exactly these rows
pub fn check_blocks<R: Row>(blocks: &[(u32, Vec<u8>)], rows: &[Option<R>], nullable: bool) {
    let mut pos = 0usize;
    for (id, d) in blocks {
        let end = *id as usize + 1;
        if end < pos || end > rows.len() {
            chk!(false);
            return;
        }
        check_block(d, &rows[pos..end], nullable);
        pos = end;
    }
    chk!(pos == rows.len());
}
/// number of value bytes a block says it holds
pub fn value_bytes(d: &[u8]) -> usize {
    let mut pos = 0;
    match varint(d, &mut pos) {
        Some(l) => l as usize,
        None => {
            chk!(false);
            0
        }
    }
}

// ------------------------------------------------------------- rows, buffers

pub trait Row: Clone {
    type Buf;
    const PACKED: bool;
    fn any(max: u64) -> Self;
    fn fixed(i: usize, x: u8) -> Self;
    /// the same with long items, where there are items
    fn long(i: usize, x: u8) -> Self {
        Self::fixed(i, x)
    }
    fn bytes(&self) -> Vec<u8>;
    /// any value of the same size
    fn like(&self) -> Self;
    /// the same value under another name
    fn alias(&self) -> Self;
    fn buf(nullable: bool) -> Self::Buf;
    fn push(b: &mut Self::Buf, v: Option<&Self>);
    fn clear(b: &mut Self::Buf);
    fn encoder(bs: usize, nullable: bool) -> Box<dyn BlockEncoder<Self::Buf, Sink>>;
}
macro_rules! num {
    ($t:ty, $any:expr, $fixed:expr, $alias:expr, $ctor:ident) => {
        impl Row for $t {
            type Buf = PrimitiveBuffer<$t>;
            const PACKED: bool = false;
            fn any(_: u64) -> Self {
                $any
            }
            fn fixed(i: usize, x: u8) -> Self {
                let f = $fixed;
                f((i as u64).wrapping_mul(0x0123_4567_89ab_cdef) ^ x as u64)
            }
            fn bytes(&self) -> Vec<u8> {
                self.to_le_bytes().to_vec()
            }
            fn like(&self) -> Self {
                $any
            }
            fn alias(&self) -> Self {
                let f = $alias;
                f(*self)
            }
            fn buf(nullable: bool) -> Self::Buf {
                PrimitiveBuffer::new(nullable)
            }
            fn push(b: &mut Self::Buf, v: Option<&Self>) {
                match v {
                    Some(v) => b.append(*v),
                    None => b.append_null(),
                }
            }
            fn clear(b: &mut Self::Buf) {
                b.clear();
            }
            fn encoder(bs: usize, nullable: bool) -> Box<dyn BlockEncoder<Self::Buf, Sink>> {
                $ctor(Encoding::Raw, bs, nullable).unwrap()
            }
        }
    };
}
num!(i32, nd::u32() as i32, |x: u64| x as i32, |x: i32| nd::alias32(x as u32) as i32, new_i32_encoder);
num!(i64, nd::u64() as i64, |x: u64| x as i64, |x: i64| nd::alias64(x as u64) as i64, new_i64_encoder);
num!(u64, nd::u64(), |x: u64| x, |x: u64| nd::alias64(x), new_u64_encoder);
num!(f64, f64::from_bits(nd::u64()), |x: u64| f64::from_bits(x), |x: f64| f64::from_bits(nd::alias64(x.to_bits())), new_f64_encoder);
impl Row for Vec<u8> {
    type Buf = BinaryBuffer;
    const PACKED: bool = true;
    fn any(max: u64) -> Self {
        let n = nd::choice(max + 1);
        (0..n).map(|_| nd::u8()).collect()
    }
    fn fixed(i: usize, x: u8) -> Self {
        match i % 5 {
            0 => vec![],
            1 => vec![x],
            2 => vec![i as u8, x],
            3 => vec![x ^ i as u8],
            _ => vec![1, 2, i as u8, x],
        }
    }
    fn long(i: usize, x: u8) -> Self {
        let n = [130, 0, 300, 1, 5000, 255, 65535, 256, 65536, 2][i % 10];
        let mut v: Vec<u8> = (0..n).map(|k| (k * 7 + i) as u8).collect();
        if n > 0 {
            v[0] = x;
            v[n / 2] ^= x;
            v[n - 1] = x ^ i as u8;
        }
        v
    }
    fn bytes(&self) -> Vec<u8> {
        self.clone()
    }
    fn like(&self) -> Self {
        self.iter().map(|_| nd::u8()).collect()
    }
    fn alias(&self) -> Self {
        self.iter().map(|x| nd::alias8(*x)).collect()
    }
    fn buf(nullable: bool) -> Self::Buf {
        BinaryBuffer::new(nullable)
    }
    fn push(b: &mut Self::Buf, v: Option<&Self>) {
        match v {
            Some(v) => b.append(v),
            None => b.append_null(),
        }
    }
    fn clear(b: &mut Self::Buf) {
        b.clear();
    }
    fn encoder(bs: usize, nullable: bool) -> Box<dyn BlockEncoder<Self::Buf, Sink>> {
        new_binary_encoder(Encoding::Raw, bs as u32, nullable).unwrap()
    }
}

/// what a job asks for, from the parameters after the type
#[derive(Clone, Copy)]
pub struct Spec {
    /// configured block size; parameter 2^24 + k: any of 1..=k, 2^25: any up to 2^31
    pub bs: usize,
    pub nullable: bool,
    /// symbolic rows, in up to `bufs` buffers cut anywhere
    pub n: usize,
    pub bufs: usize,
    /// longest symbolic item
    pub max: u64,
    /// patterned rows before them, in buffers of `every` rows (0: all in the first one);
    /// pattern + 10: with long items
    pub pre: usize,
    pub pat: u64,
    pub every: usize,
    /// 1: one buffer object, cleared and refilled, instead of a new one each time
    pub reuse: bool,
}
pub fn spec() -> Spec {
    let p = |i| nd::param(i) as usize;
    let bs = match p(1) >> 24 {
        0 => p(1),
        1 => nd::choose(1, p(1) as u64 & 0xffff) as usize,
        _ => {
            nd::sym_alloc(true);
            let x = (nd::u32() >> 1) as usize;
            nd::assume(x > 0);
            x
        }
    };
    Spec { bs, nullable: p(2) == 1, n: p(3), bufs: p(4), max: p(5) as u64, pre: p(6), pat: p(7) as u64, every: p(8), reuse: p(9) == 1 }
}
pub fn rows<R: Row>(s: &Spec) -> Vec<Option<R>> {
    let mut out = Vec::new();
    let x = if s.pre > 0 { nd::u8() } else { 0 };
    for i in 0..s.pre {
        let null = s.nullable
            && match s.pat % 10 {
                0 => false,
                1 => true,
                2 => i % 3 == 0,
                3 => (i / 20) % 2 == 1,
                4 => i % 2 == 0,
                _ => i + 10 > s.pre,
            };
        out.push(if null { None } else { Some(if s.pat >= 10 { R::long(i, x) } else { R::fixed(i, x) }) });
    }
    for _ in 0..s.n {
        out.push(if s.nullable && nd::flip() { None } else { Some(R::any(s.max)) });
    }
    out
}
/// the rows that are not patterned under other names
pub fn aliased<R: Row>(s: &Spec, rows: &[Option<R>]) -> Vec<Option<R>> {
    rows.iter().enumerate().map(|(i, r)| if i < s.pre { r.clone() } else { r.as_ref().map(|v| v.alias()) }).collect()
}
/// positions at which rows are cut into buffers, and the end
pub fn cuts(s: &Spec) -> Vec<usize> {
    let mut c = Vec::new();
    if s.every > 0 {
        let mut i = s.every;
        while i <= s.pre {
            c.push(i);
            i += s.every;
        }
    }
    let mut at = if s.every > 0 { s.pre } else { 0 };
    let mut lo = 0;
    for _ in 1..s.bufs {
        lo = nd::choose(lo, s.n as u64);
        c.push(s.pre + lo as usize);
    }
    c.push(s.pre + s.n);
    c
}
/// hands the rows to the encoder, a buffer per cut; after each, `each(rows so far, sink)`
pub fn feed<R: Row, F: FnMut(usize, &Sink)>(enc: &mut Box<dyn BlockEncoder<R::Buf, Sink>>, sink: &mut Sink, rows: &[Option<R>], cuts: &[usize], s: &Spec, mut each: F) -> bool {
    let mut pos = 0;
    let mut b = R::buf(s.nullable);
    for &end in cuts {
        if s.reuse {
            R::clear(&mut b);
        } else {
            b = R::buf(s.nullable);
        }
        for r in &rows[pos..end] {
            R::push(&mut b, r.as_ref());
        }
        pos = end;
        if nd::block_on(enc.encode(&b, sink)).is_err() {
            return false;
        }
        each(pos, sink);
    }
    true
}
pub fn obs_blocks(s: &Sink) {
    nd::obs(s.blocks.len() as u64);
    for (id, d) in &s.blocks {
        nd::obs(*id as u64);
        nd::obs_bytes(d);
    }
}
