"""Jobs (harness entry and bounds) of each property, per tier.

A job is (entry, [parameters]); its inputs are symbolic inside the engine, the parameters are the bounds.
"""
import itertools
import random

ALL_DEPTHS = list(range(256))


def shape(*pairs):
    """Key shape: number of keys, then (parent, shared prefix length) of each further key."""
    p = [len(pairs) + 1]
    for a, c in pairs:
        p += [a, c]
    return p


ONE = shape()


def two(c):
    return shape((0, c))


# Three keys: the third leaves key `a` at depth d.
THREE = [
    shape((0, 0), (0, 1)),
    shape((0, 0), (1, 1)),
    shape((0, 5), (0, 2)),
    shape((0, 2), (1, 5)),
    shape((0, 7), (0, 8)),
    shape((0, 16), (1, 17)),
    shape((0, 30), (0, 33)),
    shape((0, 0), (1, 15)),
    shape((0, 20), (0, 0)),
]
# With branches far from the root; the first key is a fixed one.
DEEP = [
    shape((0, 127), (0, 129)),
    shape((0, 0), (1, 255)),
    shape((0, 255), (0, 0)),
    shape((0, 254), (1, 255)),
]
FOUR = [
    shape((0, 0), (0, 1), (1, 1)),
    shape((0, 3), (0, 9), (1, 5)),
    shape((0, 1), (0, 2), (0, 3)),
    shape((0, 3), (0, 2), (0, 1)),
    shape((0, 0), (1, 20), (0, 7)),
    shape((0, 4), (1, 5), (0, 5)),
]
FIVE = [
    shape((0, 0), (0, 1), (1, 1), (3, 2)),
    shape((0, 4), (0, 3), (0, 2), (0, 1)),
    shape((0, 8), (1, 16), (2, 24), (0, 3)),
]


def fixed(s, f=3):
    """The shape with a concrete first key (1: zeros, 2: ones, else pseudo-random)."""
    return [s[0] + 1000 * f] + s[1:]


def sub(e, p):
    """In place of a key's parent: a whole subtree of unknown entries, its top e levels below where it leaves the key."""
    return p + 1000 * e


# Shapes in which some of the "keys" are whole unknown subtrees.
OPAQUE = [
    shape((sub(1, 0), 0)),
    shape((sub(1, 0), 6)),
    shape((sub(3, 0), 2)),
    shape((sub(1, 0), 0), (0, 1)),
    shape((sub(1, 0), 0), (0, 1), (sub(1, 0), 2)),
    shape((0, 0), (sub(2, 1), 1)),
    shape((sub(1, 0), 5), (sub(4, 0), 2)),
    shape((sub(1, 0), 9), (0, 8), (sub(1, 0), 7)),
]
OPAQUE_T = OPAQUE + [
    shape((sub(1, 0), 0), (sub(1, 0), 2), (0, 1), (0, 5)),
    shape((0, 20), (0, 10), (sub(1, 0), 15)),
    shape((sub(1, 0), 40)),
    shape((sub(9, 0), 30), (0, 35)),
    shape((sub(1, 0), 3), (sub(1, 0), 1), (sub(2, 0), 2)),
    shape((0, 6), (sub(1, 1), 8), (sub(1, 0), 7)),
]


def chain(*depths):
    """One key beside a chain of unknown subtrees, in order."""
    return [len(depths) + 1] + [x for d in depths for x in (sub(1, 0), d)]


DEPTHS_Q = [0, 1, 2, 3, 7, 8, 9, 15, 16, 31, 32, 63, 64, 127, 128, 191, 254, 255]
DEPTHS_M = [0, 1, 2, 5, 7, 8, 15, 31, 63, 127]
DEPTHS_T = sorted(set([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 31, 32, 33, 47, 48, 62, 63, 64, 65, 100, 127,
                       128, 129, 160, 191, 192, 200, 223, 247, 248, 253, 254, 255]))
# Leaving each other near the end of the keys (byte and word boundaries from either side).
FAR = [191, 192, 223, 224, 240, 247, 248, 251, 254, 255]
FAR_Q = [192, 248, 255]
DEEP_RECS = [0, 1, 2, 100, 1000, 1001, 1002, 1003]
LENS = [2, 31, 32, 33, 63, 64, 65, 128]


def bases(q, r):
    """Leaf counts around which counts are taken."""
    big = (1 << 62) - 1
    b = [1 << 31, (1 << 32) - 1, (1 << 32) + 5, 1 << 33, 1 << 61, big - 7, 0x2AAAAAAAAAAAAAAA, 0x1555555555555555, (1 << 61) + (1 << 30) + 1,
         300, 1000, 4099, 65535, (1 << 16) + 9, (1 << 20) - 5, (1 << 40) + (1 << 20)]
    for k in range(8, 62):
        b += [1 << k, (1 << k) - 1] + ([3 << k] if k < 61 else [])
    if q:
        b += [r.randrange(1, 1 << r.randrange(8, 63)) for _ in range(24)]
    else:
        b += [(1 << k) - 3 for k in range(8, 63)] + [5 << k for k in range(6, 60)] + [(1 << k) + (1 << k // 2) for k in range(9, 62)] + \
            [r.randrange(1, 1 << r.randrange(8, 63)) for _ in range(120)]
    b = list(dict.fromkeys(b))
    return b


def virtual(q, r, add, entry, extra, some=1):
    """Jobs at large leaf counts, indices at either end, the middle and at subtree boundaries."""
    w = 2 if q else 3
    for x, n in enumerate(bases(q, r)):
        if x >= 16 and x % some:
            continue
        for mode in (0, 1, 2, 3, 4) if x < 16 or not q else (x % 5, (x + 2) % 5):
            add(entry, n, 0, 0 if n & 255 == 255 else w, mode, 0, 0, w, extra)


def rnd_shape(r, m, top=256):
    """A random shape of m keys: a key may leave another at any depth where that one has not branched yet."""
    pairs, l = [], [[256]]
    for j in range(1, m):
        while True:
            p = r.randrange(j)
            c = r.choice([r.randrange(top), r.randrange(10), top - 1 - r.randrange(4)])
            if c not in l[p]:
                break
        row = [c if q == p else min(l[p][q], c) for q in range(j)]
        for q in range(j):
            l[q].append(row[q])
        l.append(row + [256])
        pairs.append((p, c))
    return shape(*pairs)


def jobs(prop, tier, seed):
    """The jobs of a property; also text stating the bounds."""
    q = tier == "quick"
    r = random.Random(seed)
    J = []

    def add(entry, *params, split=()):
        """A job; `split`: choices (tag, number of values) each value of which becomes a job of its own."""
        p = [x if isinstance(x, str) else int(x) for p in params for x in (p if isinstance(p, list) else [p])]
        for c in itertools.product(*[[(t, v) for v in range(k)] for t, k in split]):
            J.append((entry, p + ["@%d:%d" % x for x in c]))

    sh3 = THREE[:7] if q else THREE + [rnd_shape(r, 3, 60) for _ in range(6)]
    sh4 = FOUR[:3] if q else FOUR + [rnd_shape(r, 4, 30) for _ in range(3)]
    opq = OPAQUE if q else OPAQUE_T
    dm = DEPTHS_M if q else DEPTHS_T

    if prop == "B01":
        for n in list(range(0, 70)) + [127, 128, 129] if q else list(range(0, 260)) + [511, 512, 513, 1000]:
            add("h_b01", n, 1)
        for n in [1, 2, 3, 4, 5, 7, 8, 9, 15, 16] if q else range(1, 34):
            for p in [0, 2, 3, 4 + 31, 4 + 32, 4 + 33, 4 + 63, 4 + 64, 4 + 65, 100000]:
                add("h_b01", n, p)
        for l in [127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]:
            for n in (1, 3) if q else (1, 2, 3, 5):
                add("h_b01", n, 4 + l)
        for n in [1, 2, 3] if q else [1, 2, 3, 4, 5]:
            add("h_b01_len", n, [4, 0, 1, 32, 64])
        add("h_b01_len", 2, [8, 0, 1, 2, 31, 32, 33, 64, 65])
        if not q:
            add("h_b01_len", 3, [8, 0, 1, 2, 31, 32, 33, 64, 65])
            add("h_b01_len", 2, [24] + list(range(12)) + [31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 127, 128])
        text = ("leaf counts 0-69, 127-129" if q else "leaf counts 0-259, 511-513, 1000") + \
            "; leaf lengths 0 to 65537 bytes in fixed patterns and every combination of a few lengths for small counts; all leaf bytes symbolic"
    elif prop == "B02":
        for n in list(range(1, 35)) + [63, 64, 65] if q else list(range(1, 67)) + [99, 100, 127, 128, 129]:
            add("h_b02", n, 1, 0)
        for n in list(range(1, 14)) + [16] if q else list(range(1, 18)) + [31, 32, 33, 64]:
            add("h_b02", n, 0, 1)
        for n in list(range(1, 20)) + [31, 32, 33, 63, 64, 65] if q else range(1, 100):
            add("h_b10", n, 0, 0, 0, 0, 0, 64, 0)
        text = ("leaf counts 1-34, 63-65" if q else "leaf counts 1-66, 99, 100, 127-129") + " with every index, a symbolic index for " + \
            ("counts up to 13 and 16" if q else "counts up to 17, 31-33 and 64") + "; all leaf bytes symbolic; with stored nodes as symbolic " \
            "values an unconstrained 64-bit index for counts " + ("up to 19, 31-33, 63-65" if q else "up to 99")
    elif prop == "B03":
        for n in list(range(0, 67)) if q else list(range(0, 131)):
            add("h_b03", n, 1)
        for n in [1 << k for k in range(6, 62, 11)] + [(1 << 62) - 1, 0x2AAAAAAAAAAAAAAA] + ([] if q else [r.randrange(1, 1 << 62) for _ in range(40)]):
            add("h_b10", n, 0, 1, 0, 0, 0, 1, 0)  # first leaves
            add("h_b10", n, 0, 1, 4, 0, 0, 2, 0)  # last leaf and beyond
        text = ("leaf counts 0-66" if q else "leaf counts 0-130") + "; the index is one unconstrained 64-bit variable; larger trees around the end"
    elif prop == "B04":
        for n in list(range(0, 20)) + [24, 31] if q else range(0, 41):
            add("h_b04", n, 5 if q else 9, 1, 0, n)
        for n in (32, 33, 63, 64, 65) if q else (63, 64, 65, 100, 127, 128, 129):
            add("h_b04", n, 3, 0, n - 3, n)
        text = ("leaf counts up to 19, 24, 31 with every k and 5 further pushes, 32, 33, 63-65 with the last 4" if q else
                "leaf counts up to 40 with every k and 9 further pushes, 63-65, 100, 127-129 with 3") + "; all leaf bytes symbolic"
        virtual(q, r, add, "h_b10", [1])
    elif prop == "B05":
        for n in list(range(0, 50)) + [63, 64, 65] if q else list(range(0, 100)) + [127, 128, 129, 200, 255, 256, 257]:
            add("h_b05", n, 1, 1 if n < 30 else 0)
        virtual(q, r, add, "h_b10", [1])
        text = ("leaf counts 0-49, 63-65" if q else "leaf counts 0-99, 127-129, 200, 255-257") + \
            "; all leaf bytes symbolic; records read and written by a push and the reads of a load and of proofs at counts up to 2^62-1"
    elif prop == "B06":
        for n in list(range(1, 14)) + [16, 21, 32, 33] if q else list(range(1, 50)) + [63, 64, 65]:
            for k in range(0, n + 1):
                add("h_b06_load", n, k, 0)
        for n in list(range(1, 14)) if q else range(1, 24):
            add("h_b06_prove", n, 0, 0, n - 1, 0)
            add("h_b06_prove", n, 0, 0, n - 1, 1)
        for n in (16, 21) if q else (31, 32, 33, 45, 64, 65):
            for i in (0, n // 2, n - 1):
                add("h_b06_prove", n, 0, i, i, 1)
        virtual(q, r, add, "h_b06_virt", [])
        text = ("leaf counts up to 13, 16, 21" if q else "leaf counts up to 33 (load), 23 and 31-33, 45, 64, 65 (prove)") + \
            ", every loaded count and index, presence of every record symbolic; counts up to 2^62-1 with any one record missing"
    elif prop == "B07":
        for n in list(range(1, 34)) if q else range(1, 66):
            add("h_b07", n, 1, 1)
        for n in range(2, 9) if q else range(2, 18):
            add("h_b07", n, 1, 2)
        for n in (2, 4) if q else (2, 3, 4, 5, 6, 7, 8):
            add("h_b07", n, 0, 3)
        for n in bases(q, r):
            add("h_b07_virt", n, 0, 0 if n & 255 == 255 else 2, 1)
            add("h_b07_virt", n, 0, 0, 1 if n & 255 == 255 else 2)
        text = ("up to 33 leaves" if q else "up to 65 leaves") + \
            ", any storage operation of any push failing (symbolic 64-bit operation index), up to 3 failures in a row; " \
            "one push to trees of up to 2^62-1 leaves likewise"
    elif prop == "B08":
        for n in list(range(0, 40)) + [63, 64, 65] if q else list(range(0, 100)) + [127, 128, 129]:
            add("h_b08", n, 1)
        for n in (1, 2, 3, 5, 8):
            for p in (0, 2, 3, 4 + 32, 4 + 33, 4 + 64, 4 + 65, 4 + 1024, 4 + 1025, 4 + 4097, 100000):
                add("h_b08", n, p)
        text = ("leaf counts 0-39, 63-65" if q else "leaf counts 0-99, 127-129") + "; leaf lengths up to 4097; leaf bytes and proof index symbolic"
    elif prop == "B09":
        lens = [3, 0, 1, 64]
        for a in range(0, 4 if q else 6):
            for b in range(a, 5 if q else 6):
                if a + b > 8:
                    continue
                add("h_b09", a, b, lens if a + b <= 6 else [2, 1, 64])
        add("h_b09", 1, 2, [4, 0, 32, 33, 64])
        add("h_b09", 2, 2, [4, 0, 32, 33, 64])
        add("h_b09", 1, 1, [12, 0, 1, 2, 31, 32, 33, 55, 63, 64, 65, 66, 128])
        add("h_b09", 1, 2, [6, 0, 1, 32, 63, 64, 65])
        add("h_b09", 1, 3, [4, 0, 32, 64, 65])
        for n in [5, 6, 7, 8, 9, 16] if q else range(5, 34):
            add("h_b09", n, n, [1, 2])
            add("h_b09", n, n + 1, [1, 64])
            add("h_b09", n, n, [1, 64])
        for n in [1, 2, 3] if q else [1, 2, 3, 4, 5]:
            for l in (127, 128, 1024, 1025):
                add("h_b09", n, n, [1, l])
        text = ("pairs of lists of up to 4 leaves" if q else "pairs of lists of up to 5 leaves") + \
            " with every combination of lengths 0, 1, 64 (and 31-33, 63, 65 for short lists), longer lists with one length; all leaf bytes symbolic"
    elif prop == "B10":
        for n in list(range(1, 34)) + [63, 64, 65] if q else list(range(1, 100)) + [127, 128, 129]:
            add("h_b10", n, 0, 0, 0, 0, 0, 64, 1)
        virtual(q, r, add, "h_b10", [1])
        for k in (31, 32, 61) if q else range(20, 62):
            add("h_b10", 1 << k, max(k - 3, 0), 3, 0, 0, max(k - 3, 0), 3, 0)
        text = "counts %s with an unconstrained 64-bit index; counts up to 2^62-1 in %d windows of up to 16 values, " \
            "indices in windows at both ends, the middle and the subtree boundaries; every stored node is a symbolic value" % (
                "1-33, 63-65" if q else "1-99, 127-129", len(bases(q, random.Random(seed))))
    elif prop == "P01":
        for h in range(65):
            add("h_p01", h)
        add("h_p01_leaf")
        text = "every 64-bit in-order index (one job per height 0-64, the bits above the height unconstrained) and every leaf index below 2^63"
    elif prop == "P02":
        for n in list(range(1, 70)) + [127, 128, 129] if q else list(range(1, 140)) + [255, 256, 257]:
            add("h_p02", n, 0, 0, 0, 0, 64, 0)
        for n in bases(q, r):
            for e in (0, 1):
                add("h_p02", n, 0, 3 if q else 4, 0, 0, 3 if q else 4, e)
            for k in range(n.bit_length() - 4, 4, -9):
                add("h_p02", n, 0, 2, r.randrange(1 << k), k, 3, 0)
        text = "tree sizes %s with an unconstrained leaf index; tree sizes up to 2^62 in %d windows of 4 to 16 values with leaf indices in windows" % (
            "1-69, 127-129" if q else "1-139, 255-257", len(bases(q, random.Random(seed))))
    elif prop == "P03":
        for h in range(0, 64):
            add("h_p03", h, min(h, 9 if q else 11), 0, 64, 0)
        for h in range(1, 11) if q else range(1, 14):
            add("h_p03", h, h, 0, 64, 0)
        for h in (11, 20, 31, 32, 33, 40, 62, 63) if q else range(11, 64):
            for lo in [0, h - 5] if q else list(range(0, h - 5, 7)) + [h - 5]:
                for b in (0, (1 << h) - 1, 0x5A5A5A5A5A5A5A5A & ((1 << h) - 1)):
                    add("h_p03", h, h, lo, 5, b)
        text = "every height 0-63: the first %d steps for an unconstrained leaf; whole paths for every leaf up to height %d, " \
            "for leaves with 5 unconstrained bits above that" % (
                9 if q else 11, 10 if q else 13)
    elif prop == "E01":
        for n in list(range(1, 14)) + [16, 21, 32, 33] if q else list(range(1, 50)) + [63, 64, 65]:
            for k in range(0, n + 1):
                if q and n > 7 and 0 < k < n - 2 and k % 3:
                    continue
                add("h_e01_bin", n, k, 0, 0, k)
        virtual(q, r, add, "h_e01_virt", [], 12 if q else 3)
        for how in (0, 4) if q else (0, 4, 5):
            add("h_e01_sparse", how, 1, 0, ONE)
        for c in (0, 5) if q else (0, 1, 5, 9, 20):
            add("h_e01_sparse", 4, 1, 0, two(c))
        for how in (0, 4) if q else range(6):
            for c in DEPTHS_M if q else DEPTHS_T:
                add("h_e01_sparse", how, 1, 1, two(c))
        for how in (4,) if q else (0, 3, 4, 5):
            for s in sh3:
                add("h_e01_sparse", how, 1, 1, s)
        for s in opq:
            add("h_e01_sparse", 4, 1, 1, s)
        for c in FAR_Q if q else FAR:
            add("h_e01_sparse", 4, 1, 1, fixed(two(c)))
        for n in range(0, 24) if q else range(0, 50):
            add("h_e01_sum", n, 100000, 56)
        text = "binary trees of up to %d leaves with any subset of records absent and any storage operation failing, of up to 2^62-1 leaves with one record " \
            "absent and one failing operation; sparse trees of up to 3 keys in %d shapes and of any size around the key in %d shapes; sum trees of up to %d leaves" % (
                33 if q else 65, len(dm) + len(sh3), len(opq), 24 if q else 50)
    elif prop == "S01":
        for c in DEPTHS_Q if q else ALL_DEPTHS:
            add("h_s01", 2, 1, two(c))
        for c in DEPTHS_M if q else DEPTHS_T:
            add("h_s01", 3, 1, two(c))
        for c in [0, 3, 9] if q else [0, 1, 3, 7, 8, 15, 31, 63]:
            add("h_s01", 4, 2, two(c))
        for s in sh3:
            add("h_s01", 3, 1, s)
        for how in (0, 3, 4) if q else (0, 1, 3, 4, 5):
            for s in sh3[:4] if q else sh3:
                add("h_s01_step", how, 1, 1, s)
        for how in (3, 4):
            for s in sh4:
                add("h_s01_step", how, 1, 1, s)
        for s in FIVE[:1] if q else FIVE:
            add("h_s01_step", 4, 1, 1, s)
        for s in opq:
            for how in (4,) if q else (4, 5):
                add("h_s01_step", how, 1, 1, s)
        for s in DEEP:
            for how in (4,) if q else (0, 3, 4):
                add("h_s01_step", how, 1, 1, fixed(s))
        # a key beside long chains of subtrees
        for d in ([0, 1, 2, 3], [1, 3, 8, 9]) + (() if q else ([0, 10, 20, 30, 40], [0, 1, 2, 3, 4, 5], [3, 4, 5, 14, 15, 16])):
            for p in (1, -1, -2):
                add("h_s01_step", 4, 1, 1, chain(*d), ["@90:%d" % ((1 << len(d) + 1) - 2 + (p == 1) if p != -2 else (1 << len(d)))])
        for dl in LENS:
            add("h_s01", 2, dl, two(0))
            if not q:
                add("h_s01", 2, dl, two(9))
                add("h_s01_step", 4, 1, dl, OPAQUE[3])
        if not q:
            for c in (0, 2, 8):
                add("h_s01", 5, 1, two(c))
            for s in THREE[:5]:
                add("h_s01", 4, 1, s)
        text = ("two keys leaving each other at depths %s, all histories of 2 to 4 updates and deletes" % DEPTHS_Q if q else
                "two keys leaving each other at every depth 0-255, all histories of up to 5 updates and deletes") + \
            "; three keys in %d shapes; one step from any map over 3 to 5 keys in %d shapes; one step in trees of any size around the key's path " \
            "(the subtrees beside the path are unknown) in %d shapes; key bits and data symbolic" % (
                len(sh3), len(sh3) + len(sh4) + len(DEEP), len(opq) + 2)
    elif prop == "S02":
        for how in (0, 2) if q else range(6):
            for c in DEPTHS_M if q else DEPTHS_T:
                add("h_s02", how, 1, two(c), split=[(2, 4)] if c > 100 else [])
            add("h_s02", how, 3, ONE)
        for dl in LENS:
            add("h_s02", 0, dl, two(1))
        for how in (3, 4) if q else (0, 1, 3, 4, 5):
            for s in sh3:
                add("h_s02", how, 1, s)
        for s in opq:
            add("h_s02", 4, 1, s, split=[(2, 4)] if s[0] > 3 else [])
        for s in sh4[:2] if q else sh4:
            add("h_s02", 4, 1, s)
        for s in DEEP[:1] if q else DEEP:
            add("h_s02", 4, 1, fixed(s), split=[(2, 4)])
        for c in FAR_Q if q else FAR:
            for how in (0, 4) if q else range(6):
                add("h_s02", how, 1, fixed(two(c)), split=[(2, 4)])
        text = "up to 4 keys in %d shapes, and trees of any size around the key in %d shapes; any map over them, any key" % (
            len(dm) + len(sh3) + len(sh4), len(opq))
    elif prop == "S03":
        for how in (0, 3) if q else range(6):
            add("h_s03", how, 1, ONE)
            for c in DEPTHS_Q if q else DEPTHS_T:
                add("h_s03", how, 1, two(c))
        for how in (0, 3, 4) if q else range(6):
            for s in sh3:
                add("h_s03", how, 1, s)
        for s in opq:
            for how in (4, 5):
                add("h_s03", how, 1, s)
        for s in sh4:
            add("h_s03", 4, 1, s)
        for s in DEEP:
            add("h_s03", 4, 1, fixed(s))
        text = "up to 4 keys in %d shapes, and trees of any size around the key in %d shapes; any map over them, deleting any key that is absent" % (
            (len(DEPTHS_Q) if q else len(DEPTHS_T)) + len(sh3) + len(sh4) + len(DEEP), len(opq))
    elif prop == "S04":
        add("h_s04", 0, 2, 1, ONE)
        for c in dm:
            add("h_s04", 1, 1, 1, two(c))
            add("h_s04", 2, 1, 1, two(c))
            add("h_s04_step", 3, 1, 1, two(c))
        for c in [0, 2, 8] if q else [0, 1, 2, 7, 8, 16, 31]:
            add("h_s04", 2, 2, 1, two(c))
            add("h_s04_step", 0, 3, 1, two(c))
        for s in sh3:
            add("h_s04_step", 3, 1, 1, s)
            add("h_s04", 2, 1, 1, s)
        for s in opq:
            add("h_s04_step", 4, 1, 1, s)
        for how in (3,) if q else (0, 3, 5):
            for s in sh4:
                add("h_s04_step", how, 1, 1, s)
        for c in FAR:
            add("h_s04_step", 4, 1, 1, fixed(two(c)))
        if not q:
            for s in opq[:8]:
                add("h_s04_step", 4, 2, 1, s)
            for s in THREE[:5]:
                add("h_s04", 3, 1, 1, s)
            for s in DEEP:
                add("h_s04_step", 4, 1, 1, fixed(s))
        for dl in LENS:
            add("h_s04", 1, 1, dl, two(0))
        text = "up to 3 operations, reload, up to 3 more; up to 4 keys in %d shapes; trees of any size around the key in %d shapes" % (
            len(dm) + len(sh3) + len(sh4), len(opq))
    elif prop == "S05":
        add("h_s05", 0, 3, 1, ONE)
        for c in dm:
            add("h_s05", 0, 1, 1, two(c))
            add("h_s05", 5, 1, 1, two(c))
        for c in [0, 3, 8] if q else [0, 1, 3, 7, 8, 16, 31]:
            add("h_s05", 0, 2, 1, two(c))
            add("h_s05", 3, 2, 1, two(c))
        for how in (0, 3, 5) if q else range(6):
            for s in sh3:
                add("h_s05", how, 1, 1, s)
        for s in opq:
            for how in (4, 5):
                add("h_s05", how, 1, 1, s)
        for how in (3,) if q else (0, 3, 5):
            for s in sh4:
                add("h_s05", how, 1, 1, s)
        for dl in LENS:
            add("h_s05", 0, 2, dl, two(0))
        for s in DEEP[:2] if q else DEEP:
            add("h_s05", 4, 1, 1, fixed(s))
        for c in FAR:
            for how in (0, 4, 5):
                add("h_s05", how, 1, 1, fixed(two(c)))
        if not q:
            for s in opq[:8]:
                add("h_s05", 5, 2, 1, s)
        text = "any map over up to 4 keys in %d shapes, up to 3 further operations; trees of any size around the key in %d shapes" % (
            len(dm) + len(sh3) + len(sh4), len(opq))
    elif prop == "S06":
        for what in range(7):
            m3 = what in (2, 3)
            if m3:
                for s in THREE[:5] if q else THREE:
                    add("h_s06", 3, 1, what, s)
                if not q:
                    add("h_s06", 4, 1, what, THREE[0])
                    add("h_s06", 3, 1, what, DEEP[1])
            else:
                for c in [0, 1, 5, 8, 31, 64, 255] if q else DEPTHS_T:
                    add("h_s06", 2, 1, what, two(c))
                for c in (1, 7) if q else (1, 2, 7, 8, 16):
                    add("h_s06", 3, 1, what, two(c))
                add("h_s06", 3, 1, what, THREE[1])
                add("h_s06", 2, 32, what, two(0))
                if not q:
                    add("h_s06", 4, 1, what, two(1))
                    add("h_s06", 3, 1, what, THREE[2])
                    add("h_s06", 3, 1, what, THREE[4])
                    add("h_s06", 2, 64, what, two(0))
        text = ("keys that are all zero, all ones, the hash of a leaf, inner node, datum or empty string of the same tree; "
                "2 or 3 keys, all histories of up to %d operations") % (3 if q else 4)
    elif prop == "S07":
        # presence or prefix of every record symbolic at once
        for mode in (0, 1):
            for rel in (0, 1):
                add("h_s07", mode, 1, rel, ONE)
                for c in [0, 3, 7] if q else [0, 1, 2, 3, 4, 5, 6, 7, 8]:
                    add("h_s07", mode, 1, rel, two(c))
                for s in THREE[:2] if q else THREE[:4]:
                    add("h_s07", mode, 1, rel, s)
        # any one record
        for mode in (4, 5):
            for rel in (0, 1):
                for c in [8, 15, 31] if q else [8, 9, 15, 16, 23, 24, 31, 32, 33, 63]:
                    add("h_s07", mode, 1, rel, two(c))
                for s in THREE[2:5] if q else THREE[2:]:
                    add("h_s07", mode, 1, rel, s)
        for mode in (6, 7):
            for s in OPAQUE[:4] if q else OPAQUE_T[:6]:
                add("h_s07", mode, 1, 1, s)
            for c in (64,) if q else (64, 100, 128, 160):
                add("h_s07", mode, 1, 1, fixed(two(c)))
            # far from the root: the records nearest to it and to the leaves, and some between
            for c in FAR_Q if q else FAR:
                for b in DEEP_RECS if q else list(range(0, 16)) + list(range(20, 280, 16)) + [1000 + x for x in range(16)]:
                    add("h_s07", mode, 1, 1 + 10 * (b + 1), fixed(two(c)))
        for c in (0, 7) if q else (0, 1, 7, 8, 15):
            add("h_s07_load", two(c))
        add("h_s07_load", THREE[0])
        if not q:
            add("h_s07_load", THREE[1])
            add("h_s07_load", THREE[2])
        text = "any map over up to 3 keys in %s shapes, presence or prefix byte of every stored record symbolic; further %s shapes with any one " \
            "record absent or malformed; with and without reloading; trees of any size around the key; loading any 32-byte root" % (
                ("6", "6") if q else ("14", "17"))
    elif prop == "S08":
        for how in (0, 5) if q else (0, 2, 3, 5):
            add("h_s08", how, 1, 1, ONE)
            for c in [0, 1, 7, 8, 16] if q else [0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 24, 31, 32, 48, 64]:
                add("h_s08", how, 1, 1, two(c))
        for c in (0,) if q else (0, 1, 2, 7):
            add("h_s08", 0, 1, 2, two(c))
        for s in sh3[:4] if q else THREE[:6]:
            add("h_s08", 4, 1, 1, s)
        for s in opq[:5] if q else opq:
            add("h_s08", 4, 1, 1, s)
        # far from the root: any of four successive storage operations
        for c in FAR_Q if q else FAR:
            for lo in (0, c // 2, c - 2, c + 2, 2 * c - 4, 2 * c) if q else list(range(0, 17, 4)) + list(range(c - 32, c + 17, 4)) + list(range(2 * c - 16, 2 * c + 9, 4)):
                add("h_s08", 4, 1, 10 * (lo + 1) + 1, fixed(two(c)))
        if not q:
            for c in (40, 64, 100):
                add("h_s08", 4, 1, 1, fixed(two(c)))
            add("h_s08", 5, 1, 1, FOUR[0])
            add("h_s08", 4, 1, 2, OPAQUE[0])
        text = "any map over up to %d keys, any operation, any of its storage operations failing (symbolic index), up to 2 failures in a row; " \
            "trees of any size around the key" % (3 if q else 4)
    elif prop == "S09":
        for c in DEPTHS_Q if q else DEPTHS_T:
            add("h_s09", 2, 1, two(c))
        for c in [0, 2, 8, 15] if q else [0, 1, 2, 7, 8, 16, 31]:
            add("h_s09", 3, 1, two(c))
        for s in sh3:
            add("h_s09", 2, 1, s)
        for s in sh3[:2] if q else sh3:
            add("h_s09", 3, 1, s)
        for c in (248,) if q else FAR:
            add("h_s09", 3, 1, fixed(two(c)), split=[(100, 4)])
        for dl in LENS:
            add("h_s09", 2, dl, two(0))
        text = "up to 3 keys in %d shapes, all histories of up to 3 operations" % ((len(DEPTHS_Q) if q else len(DEPTHS_T)) + len(sh3))
    elif prop == "S10":
        for c in FAR:
            for d in FAR:
                add("h_s10", 1, 1, fixed(two(c)), fixed(two(d)))
        for a, b in ((1, 1), (1, 2), (64, 65), (64, 64), (32, 33)):
            add("h_s10", a, b, ONE, ONE)
            add("h_s10", a, b, ONE, two(0))
        add("h_s10", 65, 64, two(2), two(2))
        add("h_s10", 2, 2, two(9), two(9))
        ds = (0, 1, 5, 8, 31) if q else (0, 1, 3, 7, 8, 9, 15, 31, 63, 64, 127, 128, 255)
        for c in ds:
            for d in ds:
                add("h_s10", 1, 1, two(c), two(d))
        for s in THREE[:3] if q else THREE:
            for u in THREE[:3] if q else THREE[:6]:
                add("h_s10", 1, 1, s, u)
        if not q:
            add("h_s10", 1, 1, FOUR[0], FOUR[0])
            add("h_s10", 1, 1, FOUR[1], FOUR[0])
        text = "pairs of maps over up to %d keys each, all key and data bits symbolic" % (3 if q else 4)
    elif prop == "M01":
        for n in list(range(0, 6)) if q else range(0, 8):
            add("h_m01", n, 1, 64)
        for n in list(range(6, 34)) + [63, 64, 65] if q else list(range(6, 100)) + [127, 128, 129]:
            add("h_m01", n, 100000, 56)
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            add("h_m01_len", n, [4, 0, 1, 32, 40])
        for l in (23, 24, 31, 32, 33, 40, 55, 56, 63, 64, 65, 80, 127, 128, 255, 256):
            add("h_m01", 3, 4 + l, 60)
        for l in (1000, 1024, 4096):
            add("h_m01", 1, 4 + l, 60)
        text = ("leaf counts up to 5 with all fees whose sum fits 64 bits; up to 33, 63-65 with fees below 2^56" if q else
                "leaf counts up to 7 with all fees whose sum fits 64 bits; up to 99, 127-129 with fees below 2^56") + "; leaf lengths up to 256 (one leaf: 4096); data bytes symbolic"
    elif prop == "M02":
        for n in range(0, 6) if q else range(0, 8):
            add("h_m02", n, 1, n % 2, 64)
        for n in list(range(6, 34)) + [63, 64, 65] if q else list(range(6, 100)) + [127, 128, 129]:
            add("h_m02", n, 100000, n % 2, 56)
        for n in range(2, 12):
            for e in (0, 1):
                add("h_m02", n, 100000, e, 60)
        text = ("leaf counts up to 5 with all fees whose sum fits 64 bits; up to 33, 63-65 with fees below 2^56" if q else
                "leaf counts up to 7 with all fees whose sum fits 64 bits; up to 99, 127-129 with fees below 2^56") + "; data bytes symbolic"
    elif prop == "M03":
        for n in range(0, 6) if q else range(0, 8):
            add("h_m03", n, 100000, n % 2, 64 if n < 5 else 60)
        for n in range(2, 34) if q else list(range(2, 66)):
            add("h_m03", n, 100000, 1 if n % 3 else 0, 56)
            add("h_m03", n, 100000, 0 if n % 3 else 1, 56)
        for n in (2, 3) if q else (2, 3, 4):
            add("h_m03", n, 0, 1, 60)
        text = "leaf counts up to %d, leaves of distinct lengths (equal lengths, where leaves may coincide, up to %d)" % (33 if q else 65, 3 if q else 4)
    elif prop == "M04":
        for n in range(1, 18) if q else range(1, 34):
            add("h_m04", n, 100000, 1, 56)
        for n in (2, 3, 4, 5) if q else range(2, 10):
            add("h_m04", n, 100000, 2, 56)
        text = "up to %d leaves, any storage operation failing (symbolic index), up to 2 failures" % (17 if q else 33)
    elif prop == "M05":
        for a in range(0, 3):
            for b in range(a, 3):
                add("h_m05", a, b, 64, [4, 0, 1, 2, 64])
                add("h_m05", a, b, 60, [6, 0, 1, 2, 8, 9, 32])
        add("h_m05", 2, 2, 60, [6, 31, 32, 33, 40, 41, 48])
        add("h_m05", 1, 2, 60, [6, 0, 39, 40, 41, 80, 81])
        add("h_m05", 1, 3, 60, [4, 0, 1, 40, 80])
        add("h_m05", 3, 3, 60, [2, 1, 64] if q else [4, 0, 1, 2, 32])
        if not q:
            add("h_m05", 2, 3, 60, [6, 0, 1, 2, 8, 9, 32])
            add("h_m05", 2, 4, 60, [3, 0, 1, 80])
        for n in range(3, 10) if q else range(3, 20):
            add("h_m05", n, n, 56, [0])
        for n in (4, 5) if q else (4, 5, 6, 8):
            add("h_m05", n, n, 56, [1, 2])
        text = "pairs of lists of up to 2 leaves with all fees whose sum fits 64 bits, of up to %d with fees of 60 or 56 bits; " \
            "leaf lengths from 0 to 81 in combinations; all fees and bytes symbolic" % (9 if q else 19)
    elif prop == "K01":
        for n in (1, 2, 3) if q else (1, 2, 3, 4):
            add("h_k01", n)
        text = "every history of up to %d operations through either interface, keys and values symbolic, over an association-list model of the hash table" % (3 if q else 4)
    elif prop == "T01":
        for n in range(1, 34) if q else range(1, 66):
            add("h_t01", n, 0, 0, n - 1)
        for n in range(1, 18) if q else range(1, 34):
            add("h_t01", n, 1, 0, n - 1)
        for n in (63, 64, 65) if q else (66, 99, 100, 127, 128, 129):
            for i in (0, n // 2 - 1, n - 4):
                add("h_t01", n, 0, i, i + 3)
        for b in bases(q, r):
            for fe in (0, 1):
                add("h_t01_large", b, 2 if q else 4, 0, 2 if q else 4, fe, 4 if q else 8)
        text = "leaf counts up to %s, every index and all leaf bytes; leaf counts up to 2^62 in windows" % ("33 and 63-65" if q else "65 and some up to 129")
    elif prop == "T02":
        for n in range(0, 34) if q else range(0, 66):
            add("h_t02", n, 1, 0, max(n - 1, 0))
        for n in (63, 64, 65, 127, 128) if q else (99, 100, 127, 128, 129, 255, 256, 257):
            for i in (0, n // 2 - 2, n - 5):
                add("h_t02", n, 1, i, i + 4)
        for n in (1, 2, 3, 5, 6, 7, 8) if q else range(1, 14):
            add("h_t02_sym", n, 0)
        text = "leaf counts up to %s with every index, up to %d with an unconstrained 64-bit index" % ("33, some up to 128" if q else "65, some up to 257", 8 if q else 13)
    else:
        raise SystemExit("unknown property " + prop)
    J.sort(key=cost, reverse=True)  # long jobs first (the sort is stable)
    return list({(e, tuple(p)): (e, p) for e, p in J}.values()), text


def cost(j):
    return sum(min(x, 300) for x in j[1] if isinstance(x, int))


PROPS = ["B%02d" % i for i in range(1, 11)] + ["P01", "P02", "P03", "E01"] + ["S%02d" % i for i in range(1, 11)] + \
    ["M%02d" % i for i in range(1, 6)] + ["K01", "T01", "T02"]
