// C17: segment files are uniquely and safely named
const FID: u64 = 17;
use super::seg::*;
use tokio::mk;

fn open(dir: &str, id: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let w = mk::world();
    w.opened.clear();
    let si = SegmentInfo { segment_id: Uuid::from_slice(id).unwrap(), database_name: "d".to_string(), table_name: "t".to_string(), shard_id: 1, num_rows: 2 };
    let r = nd::block_on(SegmentWriter::new(dir, si));
    chk!(r.is_ok());
    chk!(w.opened.len() == 2);
    if w.opened.len() != 2 {
        return None;
    }
    let (a, b) = (w.opened[0].clone(), w.opened[1].clone());
    Some((a, b))
}
/// a file name directly inside dir, with nothing in it that means another place
fn inside(path: &[u8], dir: &[u8]) {
    let mut n = dir.len();
    if path.len() < n || !nd::same(&path[..n], dir) {
        chk!(false);
        return;
    }
    let relative = n == 0 && !(path.len() > 0 && path[0] == b'/');
    while n < path.len() && path[n] == b'/' {
        n += 1;
    }
    chk!(relative || n > dir.len());
    chk!(path.len() > n && path.len() <= n + 255);
    let mut ok = true;
    for c in &path[n..] {
        ok &= *c != b'/' && *c != 0;
    }
    chk!(ok);
    let name = &path[n..];
    if name.len() <= 2 {
        chk!(!(name.iter().all(|c| *c == b'.')));
    }
}
fn differ(a: &[u8], b: &[u8]) -> bool {
    !nd::same(a, b)
}
const DIRS: [&str; 10] = ["/seg", ".", "/a/b c", "/", "/seg/", "seg.idx", "a/../b", "", "/\u{f1}\u{4e2d}", "../.hidden.dat/"];

/// p0: 0 one id with all its bytes free; 1: two ids, free bytes p1..p2 (the others equal,
/// the same or not); p3: directory
#[no_mangle]
pub extern "C" fn h_c17() {
    let w = mk::world();
    w.no_lookup = true;
    let dir = DIRS[nd::param(3) as usize];
    let prefix = dir.trim_end_matches('/').as_bytes();
    chk!(prefix.len() > 0 || dir.len() < 2);
    let a: Vec<u8> = (0..16).map(|_| nd::u8()).collect();
    let (a1, a2) = match open(dir, &a) {
        Some(x) => x,
        None => return,
    };
    inside(&a1, prefix);
    inside(&a2, prefix);
    chk!(differ(&a1, &a2));
    reach!(1);
    if nd::param(0) == 0 {
        // the same id names the same files
        let c: Vec<u8> = a.iter().map(|x| nd::alias8(*x)).collect();
        if let Some((b1, b2)) = open(dir, &c) {
            chk!(nd::same(&a1, &b1) && nd::same(&a2, &b2));
            nd::obs_bytes(&b1);
            nd::obs_bytes(&b2);
            reach!(2);
        }
        return;
    }
    let (lo, hi) = (nd::param(1) as usize, nd::param(2) as usize);
    let b: Vec<u8> = (0..16).map(|i| if i >= lo && i < hi { nd::u8() } else { a[i] }).collect();
    nd::assume(!nd::same(&a, &b));
    let (b1, b2) = match open(dir, &b) {
        Some(x) => x,
        None => return,
    };
    chk!(differ(&a1, &b1) && differ(&a1, &b2) && differ(&a2, &b1) && differ(&a2, &b2));
    nd::obs_bytes(&b1);
    nd::obs_bytes(&b2);
    reach!(3);
}
