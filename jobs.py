"""What each property's check executes: harness jobs, bounds, reach points."""
import json, os

FILES = {}  # fid -> hook file
PROPS = {}
_JOBS = {}

ASSUME = [
    "the code under test is compiled by rustc with the harness's profile (opt-level 2, LTO, overflow checks as in debug builds, panic=abort) rather than the repository's; the executor interprets the LLVM IR of that build, and the native replays run the machine code generated from the same IR",
    "the executor's memory model and LLVM semantics are trusted, and checked in every run by replaying recorded paths natively and comparing the observed values",
    "allocation never fails; heap objects are never adjacent, so an access outside its object is reported",
]


def fid(prop):
    return int(prop[1:])


def prop(id, bounds, files=None, outside="", reach=(), assume=(), level="model_checking", limits=None, far_reach=()):
    PROPS[id] = dict(bounds=bounds, outside=outside, reach=list(reach), assume=list(assume), level=level, limits=limits or {}, far_reach=list(far_reach))
    FILES[fid(id)] = (files or [id.lower() + ".rs"])

    def deco(f):
        _JOBS[id] = f
        return f

    return deco


def jobs(id, tier):
    out = []

    def add(name, harness, *params):
        out.append((name, harness, list(params)))

    _JOBS[id](add, tier == "thorough")
    names = [j[0] for j in out]
    assert len(set(names)) == len(names), "duplicate job names"
    return out


def known_findings(V, id):
    p = os.path.join(V, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("property") == id and e.get("status") == "open":
                    r.append(e)
    return r


def match_finding(known, job, v, native, text):
    """the listed finding this violation is an instance of: same harness, same
    parameters (the configuration), same failing assertion"""
    for e in known:
        if e["harness"] != job["harness"] or e["params"] != job["params"]:
            continue
        if v["kind"] == e["kind"] and e["where"] in text:
            return e
    return None


@prop("C01",
      "every 64-bit value, encoded and decoded with 0 or up to 2 (thorough: 10) arbitrary trailing bytes; every byte string of up to 12 (thorough: 16) bytes that meets the decoder's precondition (ten bytes, or a last byte below 0x80)",
      outside="byte strings that meet neither part of the decoder's documented precondition; longer ones (the decoder never looks beyond ten bytes)",
      reach=[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 20, 21])
def c01(add, deep):
    for t in (0, 1, 2) if not deep else range(0, 11):
        add("value+%d" % t, "h_c01_value", t)
    for n in range(1, 13 if not deep else 17):
        add("bytes%d" % n, "h_c01_bytes", n)


@prop("C02",
      dict(quick="histories of up to 4 operations (append of a symbolic bit, clear, append_from with symbolic start and count) on a bitmap of symbolic content and a 6-bit source; growth and clear at capacities 1..65 and after 1018..65530 and 2097146 bits with 12 symbolic bits at the edge; every out-of-range index",
           thorough="histories of up to 6 operations, 12-bit sources; growth at every capacity 1..72 and 512..65536 and up to 8388602 bits; every out-of-range index"),
      outside="longer histories; bitmaps of more than 2097158 bits (thorough: 8388614)",
      reach=[1, 2, 3, 10, 11, 12, 20, 21])
def c02(add, deep):
    for cap in (0, 1, 2, 9, 17):
        add("hist-cap%d" % cap, "h_c02_history", 5 if not deep else 8, cap, 0)
    add("copy3", "h_c02_history", 3, 0, 3)
    add("copy6", "h_c02_history", 2, 0, 6)
    add("copy9", "h_c02_history", 1, 2, 9)
    if deep:
        add("copy3-4", "h_c02_history", 4, 0, 3)
        add("copy5-3", "h_c02_history", 3, 2, 5)
        add("copy8-2", "h_c02_history", 2, 0, 8)
        add("copy17", "h_c02_history", 1, 0, 17)
    for cap in (1, 2, 7, 8, 9, 16, 63, 64, 65) if not deep else range(1, 73):
        for pat in (0, 1, 2):
            add("grow%d-%d" % (cap, pat), "h_c02_growth", cap, max(cap - 4, 0), 12, pat)
    for cap, fill in ((0, 1018), (0, 8186), (0, 16378), (0, 65530)) if not deep else ((0, 1018), (0, 8186), (0, 16378), (0, 32762), (4096, 4090), (65536, 65530)):
        for pat in (0, 1, 2):
            add("grow-%d-%d-%d" % (cap, fill, pat), "h_c02_growth", cap, fill, 12, pat)
    for n in (2097146,) if not deep else (131066, 262138, 524282, 1048570, 2097146, 4194298, 8388602):
        add("big%d" % n, "h_c02_large", n, 12)
    for n in (0, 1, 7, 8, 9, 16) if not deep else range(0, 34):
        for c in (0, 1):
            add("end%d-%d" % (n, c), "h_c02_end", n, c)
    for n in (0, 3, 5) if not deep else (0, 3, 5, 8, 9):
        add("copyend%d" % n, "h_c02_copy_end", n)


@prop("C03",
      dict(quick="histories of up to 4 operations with symbolic values for i32, i64, u64 and f64, nullable and not, copying symbolic ranges of a 3-row source; reuse after 1000 rows (i32: 66000)",
           thorough="histories of up to 6 operations, 4-row sources; reuse after 10000 rows"),
      outside="longer histories", reach=[1, 2, 3, 4, 5, 6, 7])
def c03(add, deep):
    for t in range(4):
        for n in (0, 1):
            add("hist%d-%d" % (t, n), "h_c03_history", t, 6 if deep else 5, n, 0)
            add("copy%d-%d" % (t, n), "h_c03_history", t, 4 if deep else 3, n, 3)
            if deep:
                add("copy4-%d-%d" % (t, n), "h_c03_history", t, 3, n, 4)
            add("mixed%d-%d" % (t, n), "h_c03_mixed", t, n)
        for n in (5, 8, 1000) if not deep else (5, 8, 63, 64, 65, 1000, 1024, 10000):
            for p in (0, 1):
                add("reuse%d-%d-%d" % (t, n, p), "h_c03_reuse", t, n, p)
    add("big-reuse", "h_c03_reuse", 0, 66000, 1)
    # around 2^8 and 2^16 nulls
    add("count", "h_c03_reuse", 1, 254, 0)
    add("big-count", "h_c03_reuse", 1, 65534, 0)
    for t, m in ((0, 70), (1, 130)) if not deep else ((0, 70), (1, 130), (2, 260), (3, 70)):
        for n in (0, 1):
            add("bulk%d-%d-%d" % (t, m, n), "h_c03_bulk", t, m, n)


@prop("C04",
      dict(quick="histories of up to 4 operations with symbolic bytes and item lengths 0..2, nullable and not, copying symbolic ranges of a 3-row source; reuse after 1000 and 66000 rows; items of 300 and 70000 bytes with symbolic bytes at their ends",
           thorough="histories of up to 5 operations with item lengths 0..3, 4-row sources; reuse after 5000 rows"),
      outside="longer histories; more than 2^32 data bytes (offsets are 32 bit)", reach=[1, 2, 3, 4, 5, 6, 7])
def c04(add, deep):
    for n in (0, 1):
        add("hist-%d" % n, "h_c04_history", 5 if deep else 4, n, 0, 2)
        add("copy-%d" % n, "h_c04_history", 2, n, 3, 2)
        add("copy3-%d" % n, "h_c04_history", 3, n, 2, 1)
        add("mixed-%d" % n, "h_c04_mixed", n)
        if deep:
            add("copy4-%d" % n, "h_c04_history", 2, n, 4, 2)
            add("hist3-%d" % n, "h_c04_history", 4, n, 0, 3)
    for n in (5, 8, 1000) if not deep else (5, 8, 63, 64, 65, 1000, 1024, 5000):
        for p in (0, 1):
            add("reuse-%d-%d" % (n, p), "h_c04_reuse", n, p)
    add("big-reuse", "h_c04_reuse", 66000, 1)
    # around 2^8 and 2^16 nulls
    add("count", "h_c04_reuse", 254, 0)
    add("big-count", "h_c04_reuse", 65535, 0)
    for m in (70, 130) if not deep else (70, 130, 260):
        for n in (0, 1):
            add("bulk%d-%d" % (m, n), "h_c04_bulk", m, n)
    for n in (300, 70000):
        for nl in (0, 1):
            add("%s%d-%d" % ("big" if n > 9999 else "long", n, nl), "h_c04_long", n, nl)


@prop("C05",
      dict(quick="histories of up to 6 operations with symbolic values, nullable and not; reuse after up to 1024 rows and of 66000 rows, ending in symbolic rows",
           thorough="histories of up to 9 operations; reuse after up to 20000 rows"),
      outside="longer histories", reach=[1, 2, 3, 4, 5])
def c05(add, deep):
    for n in (0, 1):
        for k in (6,) if not deep else (6, 9):
            add("hist%d-%d" % (k, n), "h_c05_history", k, n)
        for before in (0, 5, 8, 40, 1000, 1024) if not deep else (0, 1, 5, 7, 8, 9, 40, 1000, 1024, 1025, 20000):
            for after in (0, 5, 8, 30) if not deep else (0, 5, 7, 8, 9, 30, 1023, 1024):
                for p in range(3):
                    add("reuse%d-%d-%d-%d" % (before, after, p, n), "h_c05_reuse", before, after, p, n)
        for p in range(3):
            add("big%d-%d" % (p, n), "h_c05_reuse", 9, 66000, p, n)
    # around 2^8 and 2^16 nulls
    add("count", "h_c05_reuse", 9, 254, 1, 1)
    add("big-count", "h_c05_reuse", 9, 65534, 1, 1)


@prop("C06",
      dict(quick="all bit sequences of 0..26 bits (encoded bytes); 0..12 bits, and up to 5 runs of 4 or 8 equal bits, through the repository's decoder; up to 3 byte segments (runs of 0x00/0xff/0x55, literals) of 1..4 or 10 bytes with a symbolic tail; runs and literals of 62..66, 127..129, 8191, 8192, 65536, 66000 and 270000 bytes; a cleared and reused encoder; all row ranges of 9-bit bitmaps",
           thorough="0..42 bits; 0..16 bits and 12 runs decoded; 4 segments; row ranges of 14-bit bitmaps"),
      outside="longer sequences of unconstrained bits", reach=[1, 2, 3, 4, 5])
def c06(add, deep):
    for n in list(range(0, 27)) if not deep else list(range(0, 43)):
        add("bits%d" % n, "h_c06_bits", n, 0)
    for d in range(1, 5):
        for n in (0, 3, 17, 25) if not deep else (0, 3, 8, 17, 25, 33, 40):
            add("reuse%d-%d" % (d, n), "h_c06_bits", n, d)
    for n in (0, 1, 5, 8, 9, 10) if not deep else range(0, 15):
        add("dec%d" % n, "h_c06_decode", n, 0, 1)
    for n, r in ((5, 4), (6, 8), (4, 24)) if not deep else ((5, 4), (9, 8), (9, 4), (6, 24), (6, 40), (10, 16)):
        add("runs%d-%d" % (n, r), "h_c06_decode", n, 2, r)
    add("seg2", "h_c06_segments", 2, 3, 10)
    add("seg3", "h_c06_segments", 3, 0, 6)
    if deep:
        add("seg2-9", "h_c06_segments", 2, 9, 70)
        add("seg4", "h_c06_segments", 4, 0, 6)
    for n in (66000, 65536, 270000) if not deep else (66000, 65535, 65536, 65537, 262143, 262144, 1100000):
        for k in (0, 1):
            add("big%d-%d" % (n, k), "h_c06_long", n, k, 3)
    for n in (62, 63, 64, 65, 66, 127, 128, 129) + ((8190, 8191, 8192, 8193) if deep else (8191, 8192)):
        for k in range(4) if n < 8000 or deep else (0, 1):
            add("long%d-%d" % (n, k), "h_c06_long", n, k, 3)
    for n, b in ((7, 0), (9, 1)) if not deep else ((7, 0), (9, 3), (12, 5), (14, 0)):
        add("from%d-%d" % (n, b), "h_c06_from", n, b)


@prop("C07",
      dict(quick="all sequences of 2 frames of 0..2 bytes with 1 unconstrained bit per byte at each position pair, 1 frame with every byte value, padded headers; zero runs of any length up to 2^29 before a literal or run; runs and literals of 63..300 and 66000 bytes",
           thorough="3 frames; 2 frames with 3 unconstrained bits per byte; runs and literals of up to 300000 bytes"),
      outside="more frames; bitmaps of 2^32 bits or more; malformed encodings (the decoder documents none)", reach=[1, 2, 3])
def c07(add, deep):
    add("one-any", "h_c07_frames", 1, 8, 0, 1, 0)
    for place in range(0, 8):
        add("two-%d" % place, "h_c07_frames", 2, 1, place, 2 if not deep else 3, 0)
        if deep:
            add("three-%d" % place, "h_c07_frames", 3, 1, place, 2, 0)
    for place in (0, 3, 5) if deep else ():
        add("two3-%d" % place, "h_c07_frames", 2, 3, place, 2, 0)
    add("three-const", "h_c07_frames", 3, 0, 0, 1, 0)
    for pad in (1, 2):
        add("pad%d" % pad, "h_c07_frames", 2, 1, 7, 1, pad)
    for parts in (1, 2):
        for pad in (0, 1):
            add("skip%d-%d" % (parts, pad), "h_c07_skip", parts, pad, 1)
    if deep:
        add("skip2-any", "h_c07_skip", 2, 0, 0)
    for n in (63, 64, 128, 129, 300, 66000) if not deep else (62, 63, 64, 65, 127, 128, 129, 300, 8191, 8192, 8193, 20000, 66000, 300000):
        for lit in (0, 1):
            for v in range(3):
                add("%s%d-%d-%d" % ("big" if n > 9999 else "long", n, lit, v), "h_c07_long", n, lit, v)


@prop("C08",
      dict(quick="all pairs of lists of 0..4 lengths of every bit width up to 32; lists of 5..513 lengths (every packing-group boundary) with 4 symbolic entries each at widths 1..32; lists of up to 1030 lengths that differ in one entry at any place, and of 66000; reuse of one encoder",
           thorough="all pairs of lists of 0..8 lengths; lists of up to 600 with 7 symbolic entries; of up to 4100 differing in any one entry"),
      outside="longer lists; entries outside the symbolic positions of large lists follow a fixed pattern", reach=[1, 2, 3, 4])
def c08(add, deep):
    for n in range(0, 5 if not deep else 9):
        if n == 0:
            add("small0", "h_c08_small", 0, 0, 0)
        elif not deep:
            add("small%d" % n, "h_c08_small", n, 0, 32)
        else:
            for w in range(0, 33, 4):
                add("small%d-%d" % (n, w), "h_c08_small", n, w, min(w + 3, 32))
    for n in (5, 8, 31, 32, 33, 63, 64, 127, 128, 129, 130, 160, 255, 256, 257, 260, 513) if not deep else list(range(5, 140, 3)) + [127, 129, 130, 160, 200, 255, 256, 257, 260, 300, 384, 385, 511, 512, 513, 600]:
        for w in (1, 3, 7, 8, 17, 32) if not deep else (1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32):
            for base in (0, 3) if n < 100 or deep else (3,):
                add("large%d-%d-%d" % (n, w, base), "h_c08_large", n, 4 if not deep else 7, w, base)
    for n in (9, 33, 129, 200, 260) if not deep else (9, 33, 64, 127, 128, 129, 130, 160, 200, 255, 256, 257, 260, 384, 400, 512, 520):
        for w in (1, 7, 17, 31, 32) if not deep else range(1, 33):
            add("any%d-%d" % (n, w), "h_c08_any", n, w)
    for n in (1030,) if not deep else (1030, 4100):
        for w in (1, 12, 32):
            add("any%d-%d" % (n, w), "h_c08_any", n, w)
    for w in (2, 9):
        add("big66000-%d" % w, "h_c08_large", 66000, 4, w, 3)
    for a, b in ((0, 1), (1, 0), (3, 2), (128, 2), (2, 130), (129, 5), (5, 5), (130, 130)):
        add("reuse%d-%d" % (a, b), "h_c08_reuse", a, b)


FILES[30] = ["col.rs"]
SYM = 1 << 25  # block size: a symbolic number, 1..2^31


def columns(add, h, deep, types, cut=False):
    """rows x buffers x block sizes for the column encoders; cut: only multi-buffer jobs"""
    for t in types:
        w = (4, 8, 8, 8)[t]
        for nl in (0, 1):
            def j(name, bs, n, bufs, pre=0, pat=0, every=0, reuse=0):
                add("%s-t%d-n%d" % (name, t, nl), h, t, bs, nl, n, bufs, 0, pre, pat, every, reuse)

            full = t == 0 or deep
            for n in (0, 1, 2, 3):
                j("rows%d" % n, SYM, n, 2 if n < 2 else 3)
            j("rows4", SYM, 4, 3)
            if full:
                j("rows4-4", SYM, 4, 4, reuse=1)
                j("rows6", SYM, 6, 2)
                j("rows3-5", SYM, 3, 5, reuse=1)
            if deep:
                j("rows5-4", SYM, 5, 4)
                j("rows8", SYM, 8, 2)
                j("rows10", SYM, 10, 1 if not cut else 2)
            for pat in range(6) if nl else (0,):
                for bs, pre, every in ((100, 70, 0), (100, 70, 9), (257, 130, 30), (1000, 300, 300)) + (((4096, 1030, 0), (64, 1030, 1024)) if full else ()) + (((100000, 8200, 0), (100000, 66000, 0)) if t == 1 else ()):
                    if deep or full or pat in (1, 2, 5):
                        j("%s%d-%d-%d-p%d" % ("big" if pre > 9999 else "pre", pre, every, bs, pat), bs, 2, 2, pre, pat, every, int(every > 0))
            if t == 1:
                for bs, pre in ((8, 66000), (1 << 22, 300000)):
                    j("big%d-%d" % (pre, bs), bs, 1, 2 if cut else 1, pre, 2 * nl, 0)
            if deep and nl:
                for pat in range(6):
                    j("pre8200-100-p%d" % pat, 100, 2, 2, 8200, pat, 4000, 1)
                    j("big16500-p%d" % pat, 1 << 20, 2, 2, 16500, pat, 1000, 0)


def bin_columns(add, h, deep):
    for nl in (0, 1):
        def j(name, bs, n, bufs, mx, pre=0, pat=0, every=0, reuse=0):
            add("%s-n%d" % (name, nl), h, 4, bs, nl, n, bufs, mx, pre, pat, every, reuse)

        j("rows0", SYM, 0, 3, 0)
        j("rows1", SYM, 1, 3, 4)
        j("rows2", SYM, 2, 3, 3)
        j("rows3", SYM, 3, 3, 2)
        j("rows3-4", SYM, 3, 4, 1, reuse=1)
        j("rows4", SYM, 4, 2, 2)
        j("rows5", SYM, 5, 2, 1)
        j("rows5e", SYM, 4, 3, 1, reuse=1)
        if deep:
            j("rows3-9", SYM, 3, 3, 3)
            j("rows4-3", SYM, 4, 3, 2)
            j("rows6", SYM, 6, 3, 1)
            j("rows5-2", SYM, 5, 2, 2)
            j("rows8", SYM, 8, 2, 1)
        for pat in range(6) if nl else (0,):
            for bs, pre, every in ((20, 70, 0), (20, 70, 9), (257, 140, 30), (300, 140, 0), (500, 300, 300), (1000, 600, 128)):
                j("pre%d-%d-%d-p%d" % (pre, every, bs, pat), bs, 1, 2, 2, pre, pat, every, int(every > 0))
            if pat in (0, 2, 5):
                for bs, pre, every in ((1000, 6, 0), (100000, 9, 0), (1 << 18, 10, 3)) if pat != 2 or deep else ((1000, 6, 4),):
                    j("big%d-%d-%d-p%d" % (pre, every, bs, pat), bs, 1, 2, 1, pre, 10 + pat, every, int(every > 0))
            if pat in (0, 1, 5) or deep:
                j("pre1030-p%d" % pat, 100, 1, 2, 2, 1030, pat, 0)
            if pat in (0, 2):
                j("big66000-p%d" % pat, 100000, 1, 2, 2, 66000, pat, 0)
            if pat == 2 * nl:
                j("big66000-3-p%d" % pat, 3, 1, 1, 1, 66000, pat, 0)
                j("big300000-p%d" % pat, 1 << 20, 1, 1, 1, 300000, pat, 0)
            if deep:
                j("pre8200-p%d" % pat, 1 << 20, 1, 2, 2, 8200, pat, 0)
                j("pre8200-100-p%d" % pat, 100, 1, 2, 2, 8200, pat, 4000, 1)


COL_Q = "every sequence of up to 4 rows (i32: 6) in up to 3 buffers (up to 5 for 3 rows) cut anywhere, empty buffers included, with symbolic values and nulls, for every block size from 1 to 2^31 - 1 bytes (one symbolic number); 2 symbolic rows after 70..1030 (i64: 66000, 300000) patterned ones in six null patterns, split regularly or not, block sizes 64..100000 (i64: 8 and 2^22 too); buffers new or one buffer cleared and reused"
COL_T = "up to 5 rows in 4 buffers, 8 in 2, 10 in 1, for all four types; after up to 16500 patterned rows"
BIN_Q = "every sequence of up to 3 rows with items of 0..3 symbolic bytes in up to 3 buffers, 4 rows of 0..2 bytes in 2, 5 rows of 0..1 bytes in 2, cut anywhere, empty buffers included, for every block size from 1 to 2^31 - 1 bytes (one symbolic number); a symbolic row after 70..1030 patterned ones in six null patterns, split regularly or not, block sizes 20..1000, after 66000 and 300000 patterned rows, block sizes 3..2^20, and after up to 10 items of up to 65536 bytes, block sizes to 2^18"
BIN_T = "3 rows of 0..3 bytes and 4 of 0..2 in 3 buffers, 8 of 0..1 in 2; after up to 8200 patterned rows"
COL_OUT = "longer sequences of unconstrained rows; block size 0 (no call site uses it)"


@prop("C09", dict(quick=COL_Q, thorough=COL_T), outside=COL_OUT, reach=[1, 2, 3])
def c09(add, deep):
    columns(add, "h_c09", deep, range(4))


@prop("C10", dict(quick=BIN_Q, thorough=BIN_T), outside=COL_OUT, reach=[1, 2, 3])
def c10(add, deep):
    bin_columns(add, "h_c10", deep)


@prop("C11", dict(quick=COL_Q + "; " + BIN_Q + " (numeric: i32 and i64); all row counts (32 bits, symbolic) already written before up to 3 rows in 2 buffers", thorough=COL_T + "; " + BIN_T), outside=COL_OUT, reach=[1, 2], far_reach=[3, 4])
def c11(add, deep):
    columns(add, "h_c11", deep, (0, 1))
    bin_columns(add, "h_c11", deep)
    for t in (0, 4):
        for nl in (0, 1):
            for n, bufs in ((1, 1), (2, 2), (3, 1)) + (((3, 2), (4, 2)) if deep else ()):
                add("far%d-%d-t%d-n%d" % (n, bufs, t, nl), "h_c11_far", t, SYM, nl, n, bufs, 2 if n < 3 else 1, 0, 0, 0, 0)
            if nl:
                for pat in (1, 2):
                    add("farpre-p%d-t%d" % (pat, t), "h_c11_far", t, 100, nl, 1, 2, 1, 300, pat, 0, 0)


@prop("C12", dict(quick=COL_Q + "; " + BIN_Q + " (numeric: i32 and i64)", thorough=COL_T + "; " + BIN_T), outside=COL_OUT, reach=[1, 2])
def c12(add, deep):
    columns(add, "h_c12", deep, (0, 1))
    bin_columns(add, "h_c12", deep)


@prop("C13", dict(quick=COL_Q + "; " + BIN_Q + " (numeric: i32 and i64)", thorough=COL_T + "; " + BIN_T), outside=COL_OUT, reach=[1])
def c13(add, deep):
    columns(add, "h_c13", deep, (0, 1), cut=True)
    bin_columns(add, "h_c13", deep)


@prop("C26", dict(quick="every type; up to 2 rows of the column in 2 buffers, or 70 patterned ones, then a buffer of the other nullability of 0..2 symbolic rows, or 70 patterned ones; any block size from 1 to 2^31",
                  thorough="up to 3 rows of the column and 3 of the other buffer; up to 1030 patterned ones"),
      outside="longer sequences of unconstrained rows", reach=[1, 2, 3, 4])
def c26(add, deep):
    for t in range(5):
        for nl in (0, 1):
            def j(name, bs, n, other, pre=0, pat=0, opre=0, every=0):
                add("%s-t%d-n%d" % (name, t, nl), "h_c26", t, bs, nl, n, 2, 1, pre, pat, every, 0, other, opre)

            for n in range(3 if not deep else 4):
                for other in range(3 if not deep else 4):
                    j("rows%d-%d" % (n, other), SYM, n, other)
            for pat in (0, 1, 2) if nl == 0 else (0, 2, 5):
                for bs in (1, 100, 1 << 20):
                    j("pre%d-%d" % (pat, bs), bs, 0, 1, 70, pat, 0)
                    j("other%d-%d" % (pat, bs), bs, 1, 0, 0, pat, 70)
                    j("both%d-%d" % (pat, bs), bs, 0, 1, 70, pat, 70, 20)
            if deep:
                j("long", 1 << 20, 1, 1, 1030, 2, 1030)


FILES[31] = ["seg.rs"]
FILES[34] = ["c14_seg.rs"]
FS = [
    "tokio is replaced by a model of it: tokio's own fs::File code (buffering, one operation in flight, errors reported by a later call) over a modelled blocking pool and a modelled file system; operations of the pool run in any order the scheduler variable allows, and in the read jobs any of them may run between two system calls of another",
]


@prop("C14", dict(quick="encoders: every subset of failing block writes for up to 4 rows in 3 buffers, for every block size, and 1..3 rows after 70 patterned ones; segments of up to 2 columns and 2 buffers, items of up to 20000 bytes, with one failing, short or interrupted write, sync or open at any place (2 for the smallest), operations run late or at once",
                  thorough="5 rows in 4 buffers; segments with up to 3 faults, all schedules"),
      files=["c14_enc.rs"], outside="more faults; failures of close(2), which the standard library ignores", reach=[1, 2, 3] + [(34, i) for i in range(1, 6)], assume=FS)
def c14(add, deep):
    for t in range(5):
        for nl in (0, 1):
            def j(name, n, bufs, mx, pre=0, pat=0, bs=SYM):
                add("%s-t%d-n%d" % (name, t, nl), "h_c14_enc", t, bs, nl, n, bufs, mx, pre, pat, 0, 1, 5)

            j("rows2", 2, 2, 2)
            j("rows3", 3, 2 if t == 4 else 3, 1)
            if t in (0, 4):
                j("rows4", 4, 2, 1)
            j("pre70", 1, 2, 1, 70, 2, 64)
            if deep:
                j("rows4-3", 4, 3, 2)
                if t != 4:
                    j("rows5", 5, 4, 0)
    def s(name, *p):
        add("seg-" + name, "h_c14_seg", *p)

    for cols, bufs, size in ((0, 0, 0), (1, 1, 3), (1, 2, 70), (2, 1, 70), (1, 1, 20000)):
        n = "%d-%d-%d" % (cols, bufs, size)
        s(n, cols, bufs, size, 0, 1, 15)
        if deep or size < 100:
            s(n + "-early", cols, bufs, size, 2, 1, 7)
        if deep or size < 100:
            s(n + "-two", cols, bufs, size, 0, 2, 15)
        if deep:
            s(n + "-three", cols, bufs, size, 0, 3, 15)
            if size < 1000 and cols < 2:
                s(n + "-early2", cols, bufs, size, 2, 2, 15)


@prop("C15", dict(quick="up to 3 columns of up to 3 blocks of 0..3 symbolic bytes with symbolic row ids; blocks of 16371..33000 bytes (the file buffer holds 16384) with symbolic bytes at their ends and at the buffer limit; up to 2 short or interrupted writes anywhere; operations run late or at once; any position below 2^63 before the blocks; 300, 2000 and 66000 blocks of which any one is symbolic",
                  thorough="4 columns of 3 blocks, 5 blocks of 0..3 bytes; up to 3 short or interrupted writes"),
      outside="more or other large blocks; failing writes (C14)", reach=[1, 2, 3, 5], far_reach=[4], assume=FS)
def c15(add0, deep):
    def add(name, h, *p):
        add0(name, h, *(list(p) + [0] * (7 - len(p))))

    for cols, blocks, mx in ((1, 1, 3), (1, 3, 3), (2, 2, 3), (3, 1, 2), (2, 3, 1), (3, 0, 0)) + (((1, 5, 3), (4, 3, 1), (3, 2, 2)) if deep else ()):
        n = "%d-%d-%d" % (cols, blocks, mx)
        add("seq" + n, "h_c15", cols, blocks, mx, 0, 0, 0)
        if cols * blocks < 5:
            add("soft" + n, "h_c15", cols, blocks, mx, 0, 0, 1)
        if cols * blocks < 4:
            add("early" + n, "h_c15", cols, blocks, mx if deep else 1, 0, 2, 0)
            add("soft2" + n, "h_c15", cols, blocks, 1, 0, 0, 2)
            if deep:
                add("soft3" + n, "h_c15", cols, blocks, 1, 0, 0, 3)
    for big in (16371, 16384, 17000, 33000):
        add("big%d" % big, "h_c15", 1, 2, 1, big, 0, 0)
        add("bigsoft%d" % big, "h_c15", 1, 1, 1, big, 0, 1)
    add("big3", "h_c15", 1, 3, 1, 17000, 0, 0)
    for n, mx in ((300, 9), (300, 130), (2000, 3), (66000, 1)) + (((5000, 40), (200000, 1)) if deep else ()):
        add("bigmany%d-%d" % (n, mx), "h_c15_many", n, mx, 0)
    for old in (1, 14, 100):
        add("stale%d" % old, "h_c15", 1, 2, 1, 0, 0, 0, old)
    for bits in (33, 48, 63) if not deep else (17, 32, 33, 34, 48, 63):
        add("far%d" % bits, "h_c15_far", 3, 2, bits)
    if deep:
        for big in (16370, 16372, 32768, 40000, 70000):
            add("big%d" % big, "h_c15", 1, 2, 1, big, 0, 0)
        add("big-early", "h_c15", 1, 2, 1, 17000, 2, 0)
        add("big-soft2", "h_c15", 1, 1, 1, 33000, 0, 2)


@prop("C16", dict(quick="symbolic segment id, shard, row count, and names of the database and table (up to 2 symbolic characters, or 130, or 20000 partly symbolic); 0..3 columns named from a list (empty, non-ASCII, 140-byte names, names that differ in case or spaces), 10 and 40 columns, columns begun and abandoned, a name of 20000 bytes, every column type, index type, accepted encoding and nullability; 0..2 buffers each; metadata at any position below 2^63; short and interrupted writes, operations run late or at once",
                  thorough="names of up to 6 symbolic characters; 3 columns with any attributes"),
      outside="symbolic column names (they are keys of a hash map)", reach=[1, 2, 3], far_reach=[4], assume=FS + ["the hash maps of the metadata use fixed keys"])
def c16(add, deep):
    def s(name, cols, rows, vary, ln, first, sched=0, soft=0, stale=0, gone=0):
        add(name, "h_c16", cols, rows, vary, ln, first, sched, soft, stale, gone)

    s("none", 0, 0, 9, 2, 0)
    for bits in (33, 63) if not deep else (17, 32, 33, 48, 63):
        add("far%d" % bits, "h_c16_far", bits)
    for first in range(10):
        if first < 5:
            s("types%d" % first, 1, first % 2, 0, 0, first)
        s("two%d" % first, 2, 1, 9, 0, first)
    s("all", 10, 1, 9, 0, 0)
    s("gone", 2, 1, 9, 0, 0, 0, 0, 0, 1)
    s("gone2", 2, 0, 2, 0, 3, 0, 0, 0, 2)
    s("index", 1, 2, 1, 1, 1)
    s("attr", 1, 2, 2, 1, 1)
    s("attr2", 2, 1, 2, 0, 2)
    s("three", 3, 1, 9, 130, 0)
    s("soft", 1, 1, 9, 1, 4, 0, 1)
    s("early", 1, 0, 9, 0, 4, 2, 0)
    s("stale", 1, 1, 9, 0, 3, 0, 0, 1)
    s("biglong", 1, 1, 9, 20000, 0)
    s("bigname", 2, 1, 9, 0, 20000)
    s("many40", 40, 0, 9, 0, 0)
    s("many9", 9, 2, 9, 1, 3)
    if deep:
        s("names", 0, 0, 9, 6, 0)
        s("types2", 2, 0, 0, 0, 0)
        s("attr3", 3, 0, 2, 1, 3)
        s("five", 5, 1, 9, 3, 0)
        s("soft2", 1, 1, 9, 0, 2, 0, 2)
        s("early2", 1, 1, 9, 0, 1, 2, 0)


@prop("C17", "every segment id, and every pair of different ids (all 256 bits symbolic); ten directories: absolute, relative, empty, the root, with trailing slash, dots, spaces and other scripts", outside="other directories; concurrent creation of segments", reach=[1, 2, 3], assume=FS)
def c17(add, deep):
    for d in range(10):
        add("one%d" % d, "h_c17", 0, 0, 0, d)
        add("pair%d" % d, "h_c17", 1, 0, 16, d)


@prop("C18", dict(quick="files of 0..6 symbolic bytes, of 70 and 300 bytes, and of 8193 and 70000 bytes with ranges between powers of two, every range up to 3 bytes beyond the end, up to 2 reads, up to 2 failing, short or interrupted reads; ranges at every 64-bit position, of up to 3 bytes and of 2^47, 2^50 and 2^62 bytes; blocks of 0..3 bytes written by the writer and read back; two reads at once by a reader and its clone, in any order and with either running between system calls of the other; reads and batches given up after any progress, followed by a read",
                  thorough="files of up to 9 bytes, 3 faults, 2 reads with every range"),
      outside="longer files with every range; ranges whose end lies before their start; files that change while open", reach=list(range(1, 13)), assume=FS)
def c18(add, deep):
    for n in range(0, 7 if not deep else 10):
        add("any%d" % n, "h_c18", n, 1, 0, 0, 3, 0)
        add("fault%d" % n, "h_c18", n, 1, 1, 0, 2, 0)
        if n < 5 or deep:
            add("fault2-%d" % n, "h_c18", n, 1, 2, 2, 1, 1)
        if n < 4 or deep and n < 6:
            add("twice%d" % n, "h_c18", n, 2, 1, 0, 1, 1)
        if deep and n < 5:
            add("fault3-%d" % n, "h_c18", n, 1, 3, 2, 1, 1)
    add("any70", "h_c18", 70, 1, 0, 0, 2, 0)
    for n in (0, 1, 9, 70, 300):
        add("far%d" % n, "h_c18_far", n, 4)
    for n, k in ((0, 47), (4, 47), (4, 50), (4, 62)):
        add("huge%d-%d" % (n, k), "h_c18_huge", n, k, 0)
    for n in (8193, 70000) if not deep else (257, 4097, 8193, 70000, 300000):
        add("long%d" % n, "h_c18_long", n, 0)
        add("longfault%d" % n, "h_c18_long", n, 1)
    for k in (0, 1, 2):
        add("open%d" % k, "h_c18_open", k)
    for n in (3, 5) if deep else (3,):
        for sched in (0, 2, 3):
            for batch in (0, 1):
                add("drop%d-%d-%d" % (n, sched, batch), "h_c18_drop", n, sched, batch, 0)
                if sched != 3:
                    add("dropfault%d-%d-%d" % (n, sched, batch), "h_c18_drop", n, sched, batch, 1)
    for sched in (0, 2):
        add("written%d" % sched, "h_c18_written", 2 if sched else 3, 3, sched)
    if deep:
        add("written4", "h_c18_written", 4, 3, 0)
    for n in (1, 3, 12000) if not deep else (1, 2, 3, 4, 5, 300, 12000, 300000):
        for sched in (2, 3):
            add("both%d-%d" % (n, sched), "h_c18_two", n, sched, 0)
            add("bothfault%d-%d" % (n, sched), "h_c18_two", n, sched, 1 if n in (3, 4, 5) or not deep else 2)


@prop("C19", dict(quick="up to 300 requests, one of which fails; up to 5 requests, every order of completion of those in flight, one running between system calls of the other included; every subset of up to 2 failing, short or interrupted reads; requests inside the file, overlapping, empty and beyond its end; tags of every kind with symbolic row ids",
                  thorough="up to 1100 requests, one of which fails; up to 8 requests, 4 faults"),
      outside="more requests", reach=[1, 2, 3], assume=FS)
def c19(add, deep):
    for n in range(0, 6 if not deep else 9):
        for sched in (0, 2, 3):
            if sched == 0 or n < 5 or sched == 3 and deep or deep and n < 7:
                add("none%d-%d" % (n, sched), "h_c19", n, 0, sched, 0, 0)
                add("fail%d-%d" % (n, sched), "h_c19", n, 1, sched, 0, 0)
        add("soft%d" % n, "h_c19", n, 2, 3 if n < 5 else 1, 0, 0)
        if n < 4:
            add("range%d" % n, "h_c19", n, 1, 1, 1, 0)
            add("tags%d" % n, "h_c19", n, 1, 1, 0, 1)
            if deep:
                add("all%d" % n, "h_c19", n, 2, 2, 1, 1)
        if deep and n < 6:
            add("soft4-%d" % n, "h_c19", n, 4, 1, 0, 0)
    for n in (40, 130, 300) if not deep else (40, 130, 300, 1100):
        add("long%d" % n, "h_c19_long", n, 0, 0)
        add("longfail%d" % n, "h_c19_long", n, 1, 0)
    add("longsched", "h_c19_long", 9, 0, 1)


@prop("C20", "every column type, encoding and nullability, up to 3 symbolic rows in 2 buffers, for every block size; for an accepted encoding other than the plain one, that different rows give different blocks",
      outside="that the blocks of an encoding other than the plain one can be decoded in practice", reach=[1, 2])
def c20(add, deep):
    for t in range(5):
        for nl in (0, 1):
            for e in range(5):
                add("t%d-n%d-e%d" % (t, nl, e), "h_c20", t, SYM if e == 0 else 4, nl, 3 if e == 0 else 2, 2, 2, 0, 0, 0, 0, e)


@prop("C21", dict(quick="segments of up to 2 columns and 2 buffers, items of 0..3 bytes and long ones of 150 or 17000 bytes; a crash after any number of file operations (symbolic), any pair of byte positions (symbolic); up to 2 short, interrupted or failing writes and syncs; operations run late or at once",
                  thorough="up to 3 faults, 3 columns, all schedules"),
      outside="loss of file names by a crash (the directory is not synced); storage that reorders synced writes", reach=[1, 2, 3], assume=FS)
def c21(add, deep):
    def s(name, *p):
        add(name, "h_c21", *p)

    s("empty", 0, 0, 0, 0, 0, 2, 1)
    s("one", 1, 1, 3, 0, 0, 0, 0)
    s("one-soft", 1, 2, 2, 0, 0, 2, 0)
    s("one-fail", 1, 1, 1, 150, 0, 2, 1)
    s("one-early", 1, 1, 2, 0, 2, 0, 0)
    s("two", 2, 1, 1, 17000, 0, 1, 1)
    s("order", 1, 1, 1, 0, 1, 1, 1)
    s("early-fail", 1, 1, 0, 0, 2, 1, 1)
    if deep:
        s("two-soft", 2, 2, 1, 0, 0, 2, 0)
        s("three", 3, 1, 1, 0, 0, 1, 1)
        s("fail3", 1, 1, 0, 150, 0, 3, 1)
        s("early-long", 1, 1, 0, 17000, 2, 0, 0)
        s("early-two", 2, 1, 0, 0, 2, 0, 0)
        s("early-soft", 1, 1, 0, 0, 2, 2, 0)


@prop("C25", dict(quick="up to 2 columns of up to 3 symbolic items of 0..2 bytes and nulls, cut anywhere into up to 3 buffers, after 0..200, 2500 and 3000 patterned items (block limits included) and before one of 130..20000 or 70000 bytes; columns begun and abandoned before others; reads one by one and as a batch; short and interrupted writes and reads; operations in any order",
                  thorough="3 columns, up to 4 symbolic rows of 0..3 bytes, 600 patterned rows, 2 short or interrupted calls"),
      outside="failing calls (C14, C18)", reach=[1, 2, 3, 4], assume=FS)
def c25(add, deep):
    def s(name, cols, nl, n, bufs, mx, pre=0, pat=0, every=0, reuse=0, sched=0, soft=0, batch=0, big=0, gone=0):
        add(name, "h_c25", cols, 0, nl, n, bufs, mx, pre, pat, every, reuse, sched, soft, batch, big, gone)

    s("none", 0, 0, 0, 1, 0)
    for nl in (0, 1):
        s("one-%d" % nl, 1, nl, 3, 3, 2, batch=nl)
        s("edge-%d" % nl, 1, nl, 2, 2, 3, 79, 0, batch=1 - nl)
        for pat in range(6) if nl else (0,):
            s("pre%d-%d" % (pat, nl), 1, nl, 1, 2, 2, 200, pat, 30 if pat % 2 else 0, pat % 2, 1, 0, 1, 200 if pat % 3 else 0)
        s("two-%d" % nl, 2, nl, 1, 2, 2, 0, 0, reuse=1)
        s("long-%d" % nl, 1, nl, 0, 1, 0, 90, 5, 30, 1, 3, 0, 1, 20000)
        s("soft-%d" % nl, 2, nl, 1, 1, 1, 30, 5, 0, 1, 0, 1, 1, 150)
        for gone in (1, 2):
            s("gone%d-%d" % (gone, nl), 1 if gone == 1 else 2, nl, 1, 1, 1, 0, 0, 0, 0, 2 if gone == 1 else 0, 0, 1, 0, gone)
    s("early", 1, 0, 1, 1, 0, 0, 5, 0, 1, 2, 0, 1, 130)
    s("biglong", 2, 0, 0, 1, 0, 2500, 3, 1250, 0, 1, 0, 0, 70000)
    s("bigeach", 1, 1, 1, 1, 1, 3000, 3, 0, 0, 0, 0, 0, 0)
    if deep:
        for nl in (0, 1):
            s("rows4-%d" % nl, 1, nl, 4, 3, 3, batch=nl)
            s("edge2-%d" % nl, 2, nl, 2, 2, 3, 79, 0, batch=1 - nl)
            s("three-%d" % nl, 3, nl, 1, 2, 2, 70, 2, 9, 1, 1, 0, 1)
            s("pre600-%d" % nl, 1, nl, 2, 2, 2, 600, 3, 128, 1, 1, 0, 1, 140)
            s("soft2-%d" % nl, 1, nl, 1, 1, 1, 30, 5, 0, 1, 0, 2, 1, 150)
            s("early2-%d" % nl, 1, nl, 1, 1, 0, 60, 5, 0, 1, 2, 0, 1, 140)


@prop("C27", dict(quick="up to 3 columns, any of them with an index, of up to 3 buffers of up to 2 symbolic rows, also after items of 20000 bytes; one failing call of an index; indexes of 0..2 symbolic bytes and of 20000 more; short and interrupted writes",
                  thorough="4 buffers, 3 rows; two failing calls of an index"),
      outside="real indexes (none exists at this commit: a recording one is installed)", reach=[1, 2, 3], assume=FS + ["the hash maps of the metadata use fixed keys"])
def c27(add, deep):
    def j(name, cols, bufs, rows, has, fail=0, item=0, faults=0, size=0):
        add(name, "h_c27", cols, bufs, rows, has, fail, item, faults, size)

    for has in range(4):
        j("two%d" % has, 2, 1, 1, has)
        j("two-fail%d" % has, 2, 2, 0, has, 1)
    for bufs, rows in ((0, 0), (1, 2), (2, 1), (3, 1)) + (((4, 1), (2, 2), (1, 3)) if deep else ()):
        j("one%d-%d" % (bufs, rows), 1, bufs, rows, 1)
        j("one-fail%d-%d" % (bufs, rows), 1, bufs, min(rows, 1), 1, 1)
    for has in (5, 7):
        j("three%d" % has, 3, 1, 0, has)
    j("item", 1, 2, 1, 1, 0, 20000)
    j("item2", 2, 1, 1, 3, 0, 130000)
    j("size", 2, 1, 0, 3, 0, 0, 0, 20000)
    j("soft", 1, 1, 0, 1, 0, 0, 1)
    if deep:
        j("fail2", 2, 2, 1, 3, 2)
        j("soft2", 2, 1, 0, 3, 0, 0, 1)
        j("soft-size", 1, 1, 0, 1, 0, 0, 2, 20000)


FILES[35] = ["c28_seg.rs"]


@prop("C28", dict(quick="two column encoders of the same or different types, up to 3 symbolic rows in up to 3 buffers each, after 0 or 70 patterned rows, any block size from 1 to 2^31, their calls interleaved in any order, a third one of patterned rows between them; two segments with up to 3 buffers of up to 2 rows each, calls (of creation, too) in any order or awaited together, operations of the pool in any order, short and interrupted writes",
                  thorough="up to 4 rows, 4 buffers"),
      outside="four or more columns, or three or more segments, at once", reach=[1, 2, 3, (35, 1), (35, 2), (35, 3), (35, 4)], files=["c28_enc.rs"], assume=FS)
def c28(add, deep):
    for t in range(5):
        for nl in (0, 1):
            def j(name, bs, n, bufs, mx=1, pre=0, pat=0, every=0, pre2=0, nl2=None, pre3=0):
                add("%s-t%d-n%d" % (name, t, nl), "h_c28_enc", t, bs, nl, n, bufs, mx, pre, pat, every, 0, 0, pre2, nl if nl2 is None else nl2, pre3)

            j("rows1", SYM, 1, 2)
            j("rows2", SYM, 2, 1, 1 if t < 4 else 0, nl2=1 - nl)
            j("rows2-2", SYM, 2, 2, 0)
            j("pre", 100, 1, 2, 1, 70, 2, 30, 40, 1)
            j("pre2", 64, 1, 1, 1, 70, 5, 24, 70)
            j("third", 50, 1, 1, 1, 30, 5, 9, 20, None, 40)
            j("third2", SYM, 1, 1, 0, 0, 0, 0, 0, 1 - nl, 12)
            if deep:
                j("rows3", SYM, 3, 2, 0)
                j("rows4", SYM, 4, 1, 0)
                j("pre300", 100, 2, 2, 1, 300, 3, 70, 250, 1)

    def s(name, *p):
        add("seg-" + name, "h_c28_seg", *p)

    for nl in (0, 3, 1):
        s("one%d" % nl, 1, 2, 70, 0, 0, 0, nl, 0, 0)
        s("two%d" % nl, 2, 1, 70, 0, 1, 0, nl, 0, 0)
        s("join%d" % nl, 2, 1, 100, 0, 1, 1, nl, 0, 0)
        if deep:
            s("new-nested%d" % nl, 1, 1, 20, 3, 0, 0, nl, 0, 4)
    for sched in (0, 1):
        s("new%d" % sched, 1, 1, 20, sched, 0, 1, 0, 0, 4)
    s("three", 3, 1, 50, 0, 0, 0, 0, 0, 0)
    for part in (1, 2, 3):
        for sched in (1, 2) if not deep else (1, 2, 3):
            s("part%d-%d" % (part, sched), 1, 1, (150, 3, 3)[part - 1], sched, 0, 1, 0, 0, part)
        s("soft%d" % part, 1, 1, (150, 3, 3)[part - 1], 0, 0, 1, 0, 1, part)
    s("long", 1, 1, 17000, 1, 1, 1, 0, 0, 1)
    if deep:
        s("four", 4, 1, 130, 0, 1, 0, 1, 0, 0)
        for part in (1, 2, 3):
            s("soft2-%d" % part, 1, 1, (150, 3, 3)[part - 1], 1, 0, 1, 0, 2, part)
