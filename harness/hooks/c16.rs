// C16: a closed segment can be opened from its footer and describes itself
const FID: u64 = 16;
use super::seg::*;
use crate::store::segment_metadata::column_layout::EncoderLayout;
use tokio::mk;

const TYPES: [ColumnType; 10] = [
    ColumnType::Bool,
    ColumnType::Datetime,
    ColumnType::Decimal,
    ColumnType::Dynamic,
    ColumnType::Float64,
    ColumnType::Guid,
    ColumnType::Int32,
    ColumnType::Int64,
    ColumnType::String,
    ColumnType::Timespan,
];
const INDEXES: [IndexType; 4] = [IndexType::NoIndex, IndexType::FullText, IndexType::Brin, IndexType::Kdtree];
const NAMES: [&str; 10] = ["c", "", "columna_\u{f1}\u{4e2d}", "d", "a name of more than one hundred and twenty-seven bytes .............................................................................", "C", " c", "c ", "c.d/../e", "c\0c"];

/// the name of column c: of the list, a long one, or made up
fn name_of(first: u64, c: u64) -> String {
    if c >= 10 {
        let mut s = String::from("column ");
        s.push((b'a' + (c % 26) as u8) as char);
        s.push((b'a' + (c / 26) as u8) as char);
        return s;
    }
    if first >= 100 && c == 0 {
        return "long".repeat(first as usize / 4);
    }
    NAMES[((first + c) % 10) as usize].to_string()
}
/// a name of n symbolic ASCII bytes, and the same under other symbols; a long one is symbolic
/// at some places
fn text(n: u64) -> (String, Vec<u8>) {
    let symbolic = |i: u64| n <= 200 || i == n / 2 || i + 1 == n;
    let b: Vec<u8> = (0..n).map(|i| if symbolic(i) { nd::range(0x20, 0x7e) as u8 } else { b'!' + (i % 90) as u8 }).collect();
    let a = b.iter().enumerate().map(|(i, x)| if symbolic(i as u64) { nd::alias8(*x) } else { *x }).collect();
    let (mut b, mut a) = (b, a);
    if n > 100 {
        // not only ASCII
        for v in [&mut b, &mut a] {
            v[n as usize / 3] = 0xc3;
            v[n as usize / 3 + 1] = 0xb1;
        }
    }
    (unsafe { String::from_utf8_unchecked(b) }, a)
}
/// p0: columns, p1: rows per column, p2: how column attributes vary (0: types, 1: index types,
/// 2: encodings and nullability), p3: length of the database and table names, p4: first
/// column name (100 or more: one of that many bytes), p5: schedule, p6: short and interrupted writes, p7: a longer segment of the
/// same id existed before, p8: columns begun and abandoned, of so many buffers, before each
#[no_mangle]
pub extern "C" fn h_c16() {
    let (cols, rows, vary, len, first) = (nd::param(0), nd::param(1), nd::param(2), nd::param(3), nd::param(4));
    let w = mk::world();
    w.sched = nd::param(5) as u8;
    if nd::param(6) > 0 {
        w.faults = mk::Faults { budget: nd::param(6) as u32, write: true, short: true, intr: true, ..mk::NO_FAULTS };
        w.no_hard = true;
    }
    let id: Vec<u8> = (0..16).map(|_| nd::u8()).collect();
    let idc: Vec<u8> = id.iter().map(|x| nd::alias8(*x)).collect();
    let (db, dbc) = text(len);
    let (table, tablec) = text(len / 2);
    let (shard, num) = (nd::u32(), nd::u32());
    let (shardc, numc) = (nd::alias32(shard), nd::alias32(num));
    let stale = nd::param(7) == 1;
    let (id, idc) = if stale { (vec![7; 16], vec![7; 16]) } else { (id, idc) };
    if stale {
        let si = SegmentInfo { segment_id: Uuid::from_slice(&id).unwrap(), database_name: "x".repeat(300), table_name: "y".repeat(300), shard_id: 9, num_rows: 8 };
        let mut s = nd::block_on(SegmentWriter::new("/seg", si)).unwrap();
        chk!(nd::block_on(s.close()).is_ok());
        drop(s);
        mk::drain();
    }
    w.no_lookup = !stale;
    let si = SegmentInfo { segment_id: Uuid::from_slice(&id).unwrap(), database_name: db, table_name: table, shard_id: shard, num_rows: num };
    let mut s = match nd::block_on(SegmentWriter::new("/seg", si)) {
        Ok(s) => s,
        Err(_) => {
            // an existing segment may also be left alone
            chk!(stale);
            return;
        }
    };
    // (name, type, nullable, encoding, index type)
    let mut want = Vec::new();
    let mut wrote = 0;
    for c in 0..cols {
        let name = name_of(first, c);
        let t = if vary == 0 { TYPES[nd::choice(10) as usize] } else { ColumnType::String };
        let i = if vary == 1 { INDEXES[nd::choice(4) as usize] } else { IndexType::NoIndex };
        let e = if vary == 2 && nd::flip() { Encoding::Snappy } else { Encoding::Raw };
        let nullable = if vary == 2 { nd::flip() } else { c % 2 == 0 };
        for k in 0..nd::param(8) {
            let ci = ColumnInfo { name: ["gone", "c"][c as usize % 2].to_string(), column_type: t, encoding: Encoding::Raw, index_type: IndexType::Brin, nullable: !nullable };
            match s.new_binary_column_writer(ci) {
                Ok(mut cw) => {
                    for _ in 0..k {
                        let mut b = BinaryBuffer::new(!nullable);
                        b.append(&[nd::u8(); 150]);
                        chk!(nd::block_on(cw.write(&b)).is_ok());
                    }
                }
                Err(_) => chk!(false),
            }
        }
        let ci = ColumnInfo { name: name.clone(), column_type: t, encoding: e, index_type: i, nullable };
        let mut cw = match s.new_binary_column_writer(ci) {
            Ok(c) => c,
            Err(_) => {
                // only plain encoding has to be accepted; a refused column is not written
                chk!(e != Encoding::Raw);
                continue;
            }
        };
        for _ in 0..rows {
            let mut b = BinaryBuffer::new(nullable);
            let item = [nd::u8(); 150];
            b.append(&item[..if wrote % 2 == 0 { 1 } else { 150 }]);
            wrote += 1;
            chk!(nd::block_on(cw.write(&b)).is_ok());
        }
        chk!(nd::block_on(cw.close()).is_ok());
        want.push((name, t, nullable, e, i));
    }
    chk!(nd::block_on(s.close()).is_ok());
    let (d, x) = (file(b".dat"), file(b".idx"));
    chk!(d.is_some() && x.is_some());
    let d = &mk::world().files[d.unwrap()].data;
    let x = &mk::world().files[x.unwrap()].data;
    chk!(d.len() >= DATA.len() && nd::same(&d[..DATA.len()], DATA));
    chk!(x.len() >= INDEX.len() + 8 && nd::same(&x[..INDEX.len()], INDEX));
    let mut foot = [0u8; 8];
    foot.copy_from_slice(&x[x.len() - 8..]);
    let pos = nd::fix(u64::from_le_bytes(foot)) as usize;
    chk!(pos >= INDEX.len() && pos <= x.len() - 8);
    let m = match Metadata::decode(&x[pos..x.len() - 8]) {
        Ok(m) => m,
        Err(_) => {
            chk!(false);
            return;
        }
    };
    let g = match &m.segment_meta {
        Some(g) => g,
        None => {
            chk!(false);
            return;
        }
    };
    chk!(nd::same(&g.segment_id, &idc));
    chk!(nd::same(g.database_name.as_bytes(), &dbc));
    chk!(nd::same(g.table_name.as_bytes(), &tablec));
    chk!(g.shard_id == shardc);
    chk!(g.num_rows == numc);
    chk!(g.columns_meta.len() == want.len());
    chk!(m.columns_layout.len() == want.len());
    for (name, t, nullable, e, i) in &want {
        match g.columns_meta.get(name) {
            Some(c) => {
                chk!(c.name == *name);
                chk!(c.column_type == *t as i32);
                chk!(c.nullable == *nullable);
                chk!(c.encoding == *e as i32);
                chk!(c.index_type == *i as i32);
            }
            None => chk!(false),
        }
        match m.columns_layout.get(name) {
            Some(l) => {
                chk!(l.block_index_layout.is_some());
                match &l.encoder_layout {
                    Some(EncoderLayout::Plain(_)) => chk!(*e == Encoding::Raw),
                    Some(EncoderLayout::Snappy(_)) => chk!(*e == Encoding::Snappy),
                    _ => chk!(false),
                }
            }
            None => chk!(false),
        }
    }
    nd::obs(x.len() as u64);
    nd::obs(d.len() as u64);
    if cols == 0 {
        reach!(1);
    }
    if mk::world().soft > 0 {
        reach!(2);
    }
    reach!(3);
}
/// the footer of an index file of any length; p0: bits of the position
#[cfg(meerkat_verif_far)]
#[no_mangle]
pub extern "C" fn h_c16_far() {
    let mut s = nd::block_on(SegmentWriter::new("/seg", info(1))).unwrap();
    let at = nd::range(INDEX.len() as u64, (1 << nd::param(0)) - 1);
    s.index_writer.verif_set_pos(at);
    chk!(nd::block_on(s.close()).is_ok());
    let x = file(b".idx");
    chk!(x.is_some());
    let x = &mk::world().files[x.unwrap()].data;
    chk!(x.len() >= INDEX.len() + 8);
    let mut foot = [0u8; 8];
    foot.copy_from_slice(&x[x.len() - 8..]);
    chk!(u64::from_le_bytes(foot) == at);
    reach!(4);
}
