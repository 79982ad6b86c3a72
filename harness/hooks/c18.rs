// C18: block reads return exactly the requested bytes or an error
const FID: u64 = 18;
use super::unix_disk_block_reader::Reader;
use tokio::mk;

fn content(n: usize) -> (Vec<u8>, Vec<u8>) {
    let a: Vec<u8> = if n <= 64 { (0..n).map(|_| nd::u8()).collect() } else { (0..n).map(|i| (i % 253) as u8).collect() };
    let mut b = a.clone();
    if n <= 64 {
        for x in &mut b {
            *x = nd::alias8(*x);
        }
    }
    (a, b)
}
fn faults(n: u64) {
    mk::world().faults = mk::Faults { budget: n as u32, read: true, short: true, intr: true, ..mk::NO_FAULTS };
}
/// p0: file size, p1: reads, p2: faults, p3: schedule, p4: how far beyond the end ranges go,
/// p5: another file of the same size is read in between, and this one rewritten
#[no_mangle]
pub extern "C" fn h_c18() {
    let n = nd::param(0) as usize;
    let (a, want) = content(n);
    mk::put_file(b"/x", &vec![0xa5; n]);
    mk::put_file(b"/f", &a);
    mk::world().sched = nd::param(3) as u8;
    let r = nd::block_on(Reader::new("/f")).unwrap();
    chk!(r.len() == n as u64);
    let other = nd::block_on(Reader::new("/x")).unwrap();
    let beyond = nd::param(4);
    for _ in 0..nd::param(1) {
        let start = nd::choose(0, n as u64 + beyond);
        let end = nd::choose(start, n as u64 + beyond);
        let hard = mk::world().hard;
        faults(nd::param(2));
        let got = nd::block_on(r.read_block(BlockRange { start, end }));
        mk::world().faults = mk::NO_FAULTS;
        let failed = mk::world().hard > hard;
        match got {
            Ok(d) => {
                chk!(!failed);
                if start < end {
                    chk!(end <= n as u64);
                }
                chk!(d.len() as u64 == end - start);
                if end <= n as u64 {
                    chk!(nd::same(&d, &want[start as usize..end as usize]));
                    reach!(1);
                }
                nd::obs_bytes(&d);
            }
            Err(_) => {
                // only a failing read or a range beyond the end is refused
                chk!(failed || end > n as u64);
                if failed {
                    reach!(2);
                } else {
                    reach!(3);
                }
            }
        }
        if mk::world().soft > 0 {
            reach!(4);
        }
        if nd::param(5) == 1 {
            let x = nd::block_on(other.read_block(BlockRange { start: 0, end: n as u64 }));
            chk!(x.is_ok());
        }
    }
}
/// any range at all, of a file of p0 bytes: start and end are symbolic 64-bit numbers less
/// than p1 apart
#[no_mangle]
pub extern "C" fn h_c18_far() {
    let n = nd::param(0) as usize;
    let (a, want) = content(n);
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let start = nd::u64();
    let len = nd::choose(1, nd::param(1));
    nd::assume(start <= u64::MAX - len);
    let got = nd::block_on(r.read_block(BlockRange { start, end: start + len }));
    let inside = start + len <= n as u64;
    chk!(got.is_ok() == inside);
    if let Ok(d) = got {
        let s = nd::fix(start) as usize;
        chk!(d.len() as u64 == len);
        chk!(s + d.len() <= n && nd::same(&d, &want[s..s + d.len()]));
        reach!(5);
    } else {
        reach!(6);
    }
}
/// ranges far longer than the file and than any memory, from any position: p0: file size,
/// p1: log2 of the length, p2: schedule
#[no_mangle]
pub extern "C" fn h_c18_huge() {
    let n = nd::param(0) as usize;
    let (a, want) = content(n);
    mk::put_file(b"/f", &a);
    mk::world().sched = nd::param(2) as u8;
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let start = nd::u64();
    let len = 1 << nd::param(1);
    nd::assume(start <= u64::MAX - len);
    chk!(nd::block_on(r.read_block(BlockRange { start, end: start + len })).is_err());
    // the reader is none the worse for it
    let got = nd::block_on(r.read_block(BlockRange { start: 0, end: n as u64 }));
    chk!(got.is_ok() && nd::same(&got.unwrap(), &want));
    reach!(11);
}
/// a long file of p0 bytes, symbolic at some places: ranges between any two of them;
/// p1: faults
#[no_mangle]
pub extern "C" fn h_c18_long() {
    let n = nd::param(0) as usize;
    let mut a: Vec<u8> = (0..n).map(|i| (i % 253) as u8 ^ (i >> 8) as u8).collect();
    let mut want = a.clone();
    let at: Vec<usize> = [0usize, 1, 255, 256, 4095, 4096, 8191, 8192, 16384, 32768, 65535, 65536, n - 1].iter().copied().filter(|i| *i < n).collect();
    for i in &at {
        a[*i] = nd::u8();
        want[*i] = nd::alias8(a[*i]);
    }
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let i = nd::choice(at.len() as u64) as usize;
    let j = i as u64 + nd::choice((at.len() - i) as u64);
    let (start, end) = (at[i], at[j as usize] + 1 + nd::choice(3) as usize);
    faults(nd::param(1));
    let got = nd::block_on(r.read_block(BlockRange { start: start as u64, end: end as u64 }));
    match got {
        Ok(d) => {
            chk!(mk::world().hard == 0 && end <= n);
            chk!(end > n || nd::same(&d, &want[start..end]));
            reach!(10);
        }
        Err(_) => chk!(mk::world().hard > 0 || end > n),
    }
}
/// the file cannot be opened
#[no_mangle]
pub extern "C" fn h_c18_open() {
    mk::put_file(b"/f", b"abc");
    if nd::param(0) == 0 {
        chk!(nd::block_on(Reader::new("/none")).is_err());
    } else {
        mk::world().faults = mk::Faults { budget: nd::param(0) as u32, open: true, intr: true, ..mk::NO_FAULTS };
        let r = nd::block_on(Reader::new("/f"));
        chk!(r.is_ok() == (mk::world().hard == 0));
        if let Ok(r) = r {
            chk!(r.len() == 3);
        }
    }
    reach!(7);
}
/// what a writer wrote and flushed, in blocks of symbolic content, read back by range
#[no_mangle]
pub extern "C" fn h_c18_written() {
    mk::world().sched = nd::param(2) as u8;
    let mut w = nd::block_on(BlockWriter::new("/f")).unwrap();
    let mut want = Vec::new();
    let mut ranges = Vec::new();
    for _ in 0..nd::param(0) {
        let n = nd::choice(nd::param(1) + 1);
        let b: Vec<u8> = (0..n).map(|_| nd::u8()).collect();
        let c: Vec<u8> = b.iter().map(|x| nd::alias8(*x)).collect();
        let start = w.pos();
        chk!(nd::block_on(w.write_block(&b)).is_ok());
        ranges.push((start, w.pos()));
        want.push(c);
    }
    chk!(nd::block_on(w.flush()).is_ok());
    let r = nd::block_on(Reader::new("/f")).unwrap();
    chk!(r.len() == w.pos());
    for (i, (start, end)) in ranges.iter().enumerate() {
        match nd::block_on(r.read_block(BlockRange { start: *start, end: *end })) {
            Ok(d) => chk!(nd::same(&d, &want[i])),
            Err(_) => chk!(false),
        }
        reach!(8);
    }
}
/// two reads in flight at once, of one file, by a reader and its clone: p0: file size,
/// p1: schedule, p2: faults; of a longer file, ranges between a few positions
#[no_mangle]
pub extern "C" fn h_c18_two() {
    let n = nd::param(0) as usize;
    let (a, want) = content(n);
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let r2 = r.clone();
    let range = || {
        if n > 64 {
            let at = [0, n as u64 / 4, n as u64];
            let i = nd::choice(2) as usize;
            return (at[i] + 3 * i as u64, at[i + 1 + nd::choice(2 - i as u64) as usize]);
        }
        let start = nd::choose(0, n as u64);
        (start, nd::choose(start, n as u64))
    };
    let (s1, e1) = range();
    let (s2, e2) = range();
    mk::world().sched = nd::param(1) as u8;
    faults(nd::param(2));
    let (x, y) = nd::block_on(futures::future::join(r.read_block(BlockRange { start: s1, end: e1 }), r2.read_block(BlockRange { start: s2, end: e2 })));
    mk::world().faults = mk::NO_FAULTS;
    let mut errors = 0;
    for (d, s, e) in [(x, s1, e1), (y, s2, e2)].iter() {
        match d {
            Ok(d) => chk!(nd::same(d, &want[*s as usize..*e as usize])),
            Err(_) => errors += 1,
        }
    }
    chk!(errors == mk::world().hard);
    reach!(9);
}
/// a read or a batch is begun and given up, then the file is read: p0: file size, p1: schedule,
/// p2: 0: a single read, 1: a batch, of which up to two results are taken, p3: faults
#[no_mangle]
pub extern "C" fn h_c18_drop() {
    let n = nd::param(0) as usize;
    let (a, want) = content(n);
    mk::put_file(b"/f", &a);
    let r = nd::block_on(Reader::new("/f")).unwrap();
    let range = || {
        let start = nd::choose(0, n as u64);
        (start, nd::choose(start, n as u64))
    };
    mk::world().sched = nd::param(1) as u8;
    faults(nd::param(3));
    if nd::param(2) == 0 {
        let (start, end) = range();
        drop(mk::poll_once(r.read_block(BlockRange { start, end })));
    } else {
        let ops = (0..n as u64).map(|i| ReadOp { block_range: BlockRange { start: i, end: i + 1 }, op_info: OpInfo::DataBlock { first_row_id: i as u32 } }).collect();
        let mut s = r.read_blocks(ops);
        for i in 0..nd::choice(3) as usize {
            match nd::block_on(futures::StreamExt::next(&mut s)) {
                Some(Ok(b)) => {
                    chk!(i < n && nd::same(&b.buf, &want[i..i + 1]));
                    chk!(b.op_info == OpInfo::DataBlock { first_row_id: i as u32 });
                }
                Some(Err(_)) => chk!(mk::world().hard > 0),
                None => chk!(i >= n),
            }
        }
    }
    mk::world().faults = mk::NO_FAULTS;
    let (start, end) = range();
    match nd::block_on(r.read_block(BlockRange { start, end })) {
        Ok(d) => chk!(nd::same(&d, &want[start as usize..end as usize])),
        Err(_) => chk!(false),
    }
    mk::drain();
    reach!(12);
}
