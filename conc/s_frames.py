"""native cross-checks: stream frames (C17), hex dumps (C25)"""
import contextlib
import io
import mmap

from suite import suite, check
from cocotbext.axi.axis import AxiStreamFrame
from cocotbext.axi.memory import Memory
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.address_space import MemoryRegion, SparseMemoryRegion
from cocotbext.axi import utils


def rand_side(rng, n, bits=4, scalar=True, short=True):
    k = rng.random()
    if k < 0.2:
        return None
    if scalar and k < 0.45:
        return rng.choice([0, rng.getrandbits(bits), True])
    m = n
    if short and rng.random() < 0.4:
        m = rng.randint(1, n+2)
    m = max(m, 1)
    if rng.random() < 0.3:
        return [rng.getrandbits(bits)]*m
    return [rng.getrandbits(bits) for _ in range(m)]


def norm(v, n, dflt):
    if v is None:
        return [dflt]*n
    if not isinstance(v, list):
        return [v]*n
    return [v[min(i, len(v)-1)] for i in range(n)]


def collapse(v):
    if not v:
        return None
    if all(x == v[0] for x in v):
        return v[0]
    return v


def eq_side(a, b):
    if a is None or b is None:
        return True
    if isinstance(a, list) != isinstance(b, list):
        if isinstance(b, list):
            a, b = b, a
        return all(x == b for x in a)
    return a == b


@suite("C17", "frame copy, normalize, compact, equality", quick=2000, thorough=60000,
       rule="random frames with absent, scalar, short, long and constant side-band lists and random keep lists")
def _(rng):
    n = rng.choice([0, 1, 2, 3, 5, 9, 17])
    wide = rng.random() < 0.3
    d = [rng.randrange(1 << (10 if wide else 8)) for _ in range(n)]
    side = [rand_side(rng, n) for _ in range(3)]
    keep = rand_side(rng, n, 1, scalar=False)
    mk = (lambda x: list(x)) if wide else rng.choice([bytes, bytearray])
    cp = lambda v: list(v) if isinstance(v, list) else v    # noqa
    f = AxiStreamFrame(mk(d), cp(keep), *[cp(x) for x in side])
    want_t = list if wide else bytearray
    check(type(f.tdata) is want_t and list(f.tdata) == d, "data of a new frame")
    check((f.tkeep, f.tid, f.tdest, f.tuser) == (keep, *side), "side-bands of a new frame")
    check(len(f) == n and list(f) == d, "length and iteration")
    if not wide:
        check(bytes(f) == bytes(d), "bytes")
    # copy
    g = AxiStreamFrame(f)
    check(type(g.tdata) is want_t and list(g.tdata) == d and (g.tkeep, g.tid, g.tdest, g.tuser) == (keep, *side), "a copy has the same contents")
    check(g == f, "a copy compares equal")
    g.tdata.append(1)
    for nme in ("tkeep", "tid", "tdest", "tuser"):
        v = getattr(g, nme)
        if isinstance(v, list):
            v.append(99)
    check(list(f.tdata) == d and (f.tkeep, f.tid, f.tdest, f.tuser) == (keep, *side), "a copy is independent")
    # equality
    h = AxiStreamFrame(mk(d), cp(keep), *[cp(x) for x in side])
    for nme, v in zip(("tkeep", "tid", "tdest", "tuser"), (keep, *side)):
        k = rng.random()
        if k < 0.2:
            setattr(h, nme, None)
        elif k < 0.4 and isinstance(v, list) and nme != "tkeep":
            setattr(h, nme, v[0])
        elif k < 0.55:
            w = rand_side(rng, n, 1 if nme == "tkeep" else 4, scalar=nme != "tkeep")
            setattr(h, nme, w)
    if rng.random() < 0.2 and n:
        h.tdata[rng.randrange(n)] ^= 1
    want = list(h.tdata) == d and all(eq_side(getattr(f, x), getattr(h, x)) for x in ("tkeep", "tid", "tdest", "tuser"))
    check((f == h) == want and (h == f) == want, "equality", f, h)
    check((f != h) == (not want), "inequality")
    check((f == 5) is False, "comparison with something else")
    # normalize
    f.normalize()
    ks = norm(keep, n, 1)
    ns = [norm(x, n, 0) for x in side]
    check(list(f.tdata) == d, "normalize keeps the data")
    check(f.tkeep == ks and [f.tid, f.tdest, f.tuser] == ns, "normalized side-bands", side, f)
    if n:
        f.normalize()
        check(f.tkeep == ks and [f.tid, f.tdest, f.tuser] == ns, "normalize twice")
    # compact
    f.compact()
    idx = [i for i in range(n) if ks[i]]
    check(list(f.tdata) == [d[i] for i in idx], "compact keeps the marked bytes", d, ks)
    check(f.tkeep is None, "compact removes keep")
    for got, s in zip((f.tid, f.tdest, f.tuser), ns):
        check(got == collapse([s[i] for i in idx]) and type(got) is type(collapse([s[i] for i in idx])), "compacted side-band", s, ks, got)
    return "%d %s %s" % (n, keep, side)


def oracle(data, start, length, row, prefix, offset):
    stop = len(data) if length is None else min(start+length, len(data))
    out = []
    for k in range(start, stop, row):
        ch = data[k:min(k+row, stop)]
        h = "".join("%02x " % c for c in ch)
        t = "".join(chr(c) if 32 < c < 127 else "." for c in ch)
        out.append("%s%08x: %s %s" % (prefix, k+offset, h.ljust(3*row), t))
    return out


@suite("C25", "hex dumps against an independent formatter", quick=2000, thorough=40000,
       rule="random data, start, length, row size, prefix and offset through the helpers and through every memory and region class")
def _(rng):
    n = rng.choice([0, 1, 15, 16, 17, 40, 100])
    data = bytes(rng.randrange(256) for _ in range(n))
    start = rng.choice([0, 0, rng.randint(0, n+2)])
    length = rng.choice([None, rng.randint(1, n+20), 1, 16])
    row = rng.choice([1, 2, 3, 8, 16, 16, 32, 7])
    prefix = rng.choice(["", "> ", "a:"])
    offset = rng.choice([0, 5, 0x1000, 0xfffffff0, 1 << 40])
    kw = {}
    if start or rng.random() < 0.5:
        kw["start"] = start
    if length is not None:
        kw["length"] = length
    if row != 16 or rng.random() < 0.5:
        kw["row_size"] = row
    if prefix:
        kw["prefix"] = prefix
    if offset:
        kw["offset"] = offset
    want = oracle(data, start, length, row, prefix, offset)
    check(utils.hexdump_lines(data, **kw) == want, "hexdump_lines", kw)
    check(utils.hexdump_str(data, **kw) == "\n".join(want), "hexdump_str", kw)
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        utils.hexdump(data, **kw)
    check(o.getvalue() == "".join(x+"\n" for x in want), "hexdump", kw)
    ch = data[start:start+row]
    check(utils.hexdump_line(ch, offset, row) == "%08x: %s %s" % (offset, "".join("%02x " % c for c in ch).ljust(3*row), "".join(chr(c) if 32 < c < 127 else "." for c in ch)), "hexdump_line")
    size = rng.choice([64, 5000])
    a = rng.choice([0, rng.randrange(0, size)])
    m = rng.randint(1, min(size-a, 50))
    k = rng.randrange(6)
    d = bytes(rng.randrange(256) for _ in range(m))
    if k == 0:
        o_ = Memory(size)
    elif k == 1:
        o_ = Memory(mem=mmap.mmap(-1, size))
    elif k == 2:
        o_ = SparseMemory(size)
    elif k == 3:
        o_ = MemoryRegion(size)
    elif k == 4:
        o_ = SparseMemoryRegion(size)
    else:
        o_ = Memory()
        a += 1 << 40
    if hasattr(o_, "mem") and k != 5:
        o_.mem[a:a+m] = d
    else:
        o_.write(a, d)
    want = oracle(d, 0, None, 16, prefix, a)
    args = (a, m)+((prefix,) if prefix else ())
    check(o_.hexdump_lines(*args) == want, "hexdump_lines of", type(o_).__name__, a, m)
    check(o_.hexdump_str(*args) == "\n".join(want), "hexdump_str of", type(o_).__name__)
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        o_.hexdump(*args)
    check(o.getvalue() == "".join(x+"\n" for x in want), "hexdump of", type(o_).__name__)
    return "%d %s %d" % (n, sorted(kw.items()), k)
