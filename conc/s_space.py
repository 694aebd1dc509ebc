"""native cross-checks: regions, windows, address spaces, allocators, pools (C13..C16)"""
import mmap

from suite import suite, check
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.buddy_allocator import BuddyAllocator
from cocotbext.axi.address_space import (MemoryInterface, Window, WindowPool, Region, MemoryRegion, SparseMemoryRegion,
                                         PeripheralRegion, AddressSpace, Pool)


def run(coro):
    """a coroutine of the memory interfaces never really suspends"""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    finally:
        coro.close()
    raise AssertionError("the coroutine suspended")


class RecRegion(Region):
    """leaf that records every access"""

    def __init__(self, size, rng=None, kind=bytes, **kw):
        super().__init__(size, **kw)
        rng = rng or __import__("random").Random(size)
        self.d = bytearray(rng.randrange(256) for _ in range(size)) if size <= 1 << 16 else None
        self.kind = kind
        self.log = []

    async def _read(self, address, length, **kwargs):
        self.log.append(("r", address, length, kwargs))
        return self.kind(self.d[address:address+length])

    async def _write(self, address, data, **kwargs):
        self.log.append(("w", address, bytes(data), kwargs))
        self.d[address:address+len(data)] = data


class Periph:
    def __init__(self, size, rng, aio):
        self.d = bytearray(rng.randrange(256) for _ in range(size))
        self.log = []
        self.aio = aio

    def read(self, address, length, **kw):
        if self.aio:
            return self.aread(address, length)
        self.log.append(("r", address, length))
        return bytes(self.d[address:address+length])

    def write(self, address, data, **kw):
        if self.aio:
            return self.awrite(address, data)
        self.log.append(("w", address, bytes(data)))
        self.d[address:address+len(data)] = data

    async def aread(self, address, length):
        self.log.append(("r", address, length))
        return bytes(self.d[address:address+length])

    async def awrite(self, address, data):
        self.log.append(("w", address, bytes(data)))
        self.d[address:address+len(data)] = data


def rejected(f, *excs):
    try:
        f()
    except (excs or (Exception,)):
        return True
    return False


@suite("C13", "regions and nested windows against a byte array", quick=3000, thorough=60000,
       rule="random backing store (recording, mmap, bytearray, sparse, peripheral), up to three nested windows, accesses of every width at and around every boundary")
def _(rng):
    size = rng.choice([1, 7, 16, 64, 300, 4096, 4100])
    kind = rng.randrange(6)
    log = None
    if kind == 0:
        root = RecRegion(size, rng, rng.choice([bytes, bytearray, memoryview]))
        ref = bytearray(root.d)
        log = root.log
    elif kind == 1:
        root = MemoryRegion(size)
        ref = bytearray(size)
    elif kind == 2:
        root = MemoryRegion(size, mem=bytearray(size))
        ref = bytearray(size)
    elif kind == 3:
        root = SparseMemoryRegion(size)
        ref = bytearray(size)
    elif kind == 4:
        root = MemoryRegion(size, mem=mmap.mmap(-1, size))
        ref = bytearray(size)
    else:
        p = Periph(size, rng, rng.random() < 0.5)
        root = PeripheralRegion(p, size)
        ref = bytearray(p.d)
        log = p.log
    check(root.size == size and len(root) == size, "size of the region")
    nodes = [(root, 0, size)]
    for _ in range(rng.randint(0, 3)):
        par, base, sz = rng.choice(nodes)
        off = rng.randrange(0, sz)
        n = rng.choice([None, rng.randint(1, sz-off), sz-off, sz-off+1])
        if n is not None and n > sz-off:
            check(rejected(lambda: par.create_window(off, n), ValueError), "a window past the end is refused")
            continue
        if rng.random() < 0.3:
            w = par.create_window_pool(off, n)
            if n is None:
                n = sz-off
        else:
            w = par.create_window(off, n) if n is not None else par.create_window(off)
            n = n or sz-off
        check(w.size == n and len(w) == n and w.offset == off and w.parent is par, "window attributes")
        check(w.base == base+off, "absolute base of a window", w.base, base+off)
        nodes.append((w, base+off, n))
    par, base, sz = nodes[-1]
    for bad in (-1, sz, sz+5):
        check(rejected(lambda: par.create_window(bad, 1), ValueError), "a window at an outside offset is refused", bad)
    hist = []
    for _ in range(rng.randint(2, 10)):
        node, base, sz = rng.choice(nodes)
        order = rng.choice(["little", "big"])
        ws = rng.choice([1, 2, 3, 4, 8, 5])
        f = "word"
        kw = dict(ws=ws)
        if rng.random() < 0.5:
            ws, f = rng.choice([(2, "word"), (4, "dword"), (8, "qword")])
            kw = {}
        if order == "big" or rng.random() < 0.5:
            kw["byteorder"] = order
        op = rng.choice(["rd", "wr", "rd", "wr", "rw", "ww", "rws", "wws", "rb", "wb", "bad", "abs"])
        a = rng.randrange(0, sz)
        n0 = len(log) if log is not None else 0
        want = None
        if op == "rd":
            n = rng.randint(0, sz-a)
            check(bytes(run(node.read(a, n))) == ref[base+a:base+a+n], "read through window", base, a, n)
            want = ("r", base+a, n)
        elif op == "wr":
            d = bytes(rng.randrange(256) for _ in range(rng.randint(0, sz-a)))
            run(node.write(a, d))
            ref[base+a:base+a+len(d)] = d
            want = ("w", base+a, d)
        elif op == "rb":
            check(run(node.read_byte(a)) == ref[base+a], "read_byte")
            want = ("r", base+a, 1)
        elif op == "wb":
            v = rng.randrange(256)
            run(node.write_byte(a, v))
            ref[base+a] = v
            want = ("w", base+a, bytes([v]))
        elif op in ("rw", "rws"):
            c = rng.randint(1, 5) if op == "rws" else 1
            if a+c*ws > sz:
                check(rejected(lambda: run(getattr(node, "read_%ss" % f)(a, c, **kw)), ValueError), "an overlong word read is refused")
            else:
                exp = [int.from_bytes(ref[base+a+k*ws:base+a+k*ws+ws], order) for k in range(c)]
                if op == "rw":
                    check(run(getattr(node, "read_"+f)(a, **kw)) == exp[0], "read_"+f, a, kw)
                else:
                    check(run(getattr(node, "read_%ss" % f)(a, c, **kw)) == exp, "read words", a, kw)
                want = ("r", base+a, c*ws)
        elif op in ("ww", "wws"):
            c = rng.randint(1, 5) if op == "wws" else 1
            words = [rng.getrandbits(8*ws) for _ in range(c)]
            d = b"".join(w.to_bytes(ws, order) for w in words)
            go = (lambda: run(getattr(node, "write_"+f)(a, words[0], **kw))) if op == "ww" else (lambda: run(getattr(node, "write_%ss" % f)(a, words, **kw)))
            if a+c*ws > sz:
                check(rejected(go, ValueError), "an overlong word write is refused")
            else:
                go()
                ref[base+a:base+a+len(d)] = d
                want = ("w", base+a, d)
        elif op == "abs":
            check(node.get_absolute_address(a) == base+a, "absolute address")
        else:
            b = rng.choice([-1, -5, sz, sz+3])
            check(rejected(lambda: run(node.read(b, 1)), ValueError), "read at a bad address is refused", b)
            check(rejected(lambda: run(node.write(b, b"\x99\x98")), ValueError), "write at a bad address is refused", b)
            check(rejected(lambda: run(node.read(a, sz-a+1)), ValueError), "read past the end is refused", a)
            check(rejected(lambda: run(node.write(a, bytes(x ^ 0xff for x in ref[base+a:base+sz])+b"\x55")), ValueError), "write past the end is refused", a)
            check(rejected(lambda: run(node.read(a, -1)), ValueError), "negative length is refused", a)
        if log is not None:
            new = log[n0:]
            if want is None:
                check(not new, "a refused access reached the backing store", op, new)
            else:
                check(len(new) == 1 and tuple(new[0][:3]) == want, "exactly one access reaches the backing store", op, new, want)
        hist.append((op, a))
    check(bytes(run(root.read(0, size))) == ref, "final contents")
    return "%d %d %s" % (kind, size, hist[:5])


@suite("C14", "address space against a map of bytes", quick=3000, thorough=60000,
       rule="up to six regions registered at random (abutting, overlapping, translated, untranslated), spans across and beside them")
def _(rng):
    S = rng.choice([64, 200, 1000])
    sp = AddressSpace(S) if rng.random() < 0.9 else AddressSpace()
    amap = {}
    regs = []
    for _ in range(rng.randint(1, 6)):
        n = rng.choice([1, 3, 8, 16, 30])
        cand = [0, rng.randrange(0, S)]
        for (b, z, o, r) in regs:
            cand += [b+z, b-n, b+z-1, b-n+1, b, b+z+1]
        base = rng.choice(cand)
        if base < 0 or base+n > S:
            continue
        off = rng.choice([0, 0, 0, None, 5])
        rsize = {0: n, None: base+n, 5: n+5}[off]
        if rng.random() < 0.2:
            p = Periph(rsize, rng, rng.random() < 0.5)
            reg = PeripheralRegion(p, rsize)
            d, log = p.d, p.log
        else:
            reg = RecRegion(rsize, rng, rng.choice([bytes, bytearray]))
            d, log = reg.d, reg.log
        clash = any(base+k in amap for k in range(n))
        args = dict(offset=off) if off != 0 or rng.random() < 0.5 else {}
        go = lambda: sp.register_region(reg, base, *( [n] if (off != 0 or rng.random() < 0.5) else []), **args)     # noqa
        before = list(sp.regions)
        if clash:
            check(rejected(go, ValueError), "an overlapping region is refused", base, n)
            check(sp.regions == before, "a refused registration leaves the map unchanged")
            continue
        go()
        for k in range(n):
            amap[base+k] = (d, log, k+off if off is not None else base+k)
        regs.append((base, n, off, reg))
        check(reg.parent is sp, "the parent of a registered region")
        check(reg.base == (base if off == 0 else None), "the base of a registered region", reg.base, base, off)
    logs = []
    for v in amap.values():
        if not any(v[1] is x for x in logs):
            logs.append(v[1])
    hist = []
    for _ in range(rng.randint(2, 8)):
        if regs and rng.random() < 0.8:
            b, z, o, r = rng.choice(regs)
            a = max(0, min(S-1, b+rng.randint(-2, z)))
        else:
            a = rng.randrange(0, S)
        n = rng.choice([1, 2, rng.randint(1, 20), rng.randint(1, 90)])
        for l in logs:
            del l[:]
        ok = all(a+k in amap for k in range(n))
        # expected accesses: maximal runs inside one region
        exp = []
        for k in range(n):
            if a+k not in amap:
                break
            d, log, off = amap[a+k]
            if exp and exp[-1][0] is log and exp[-1][1]+exp[-1][2] == off:
                exp[-1][2] += 1
            else:
                exp.append([log, off, 1])
        if rng.random() < 0.5:
            if ok:
                want = bytes(amap[a+k][0][amap[a+k][2]] for k in range(n))
                got = run(sp.read(a, n))
                check(got == want, "read of a span", a, n)
                for l in logs:
                    check([tuple(x[:3]) for x in l] == [("r", o, c) for (g, o, c) in exp if g is l], "accesses of a read", a, n, l)
            else:
                check(rejected(lambda: run(sp.read(a, n))), "a read of unmapped addresses is refused", a, n)
        else:
            data = bytes(rng.randrange(256) for _ in range(n))
            if ok:
                after = {}
                for k in range(n):
                    after[a+k] = data[k]
                snap = {x: v[0][v[2]] for x, v in amap.items()}
                run(sp.write(a, data))
                # an untranslated region may alias a translated one only through its own store, so check each byte
                for x, v in amap.items():
                    if x in after:
                        check(v[0][v[2]] == after[x], "a written byte reaches its region", x)
                    else:
                        check(v[0][v[2]] == snap[x], "no other byte changes", x)
                for l in logs:
                    pos = 0
                    w = []
                    for (g, o, c) in exp:
                        if g is l:
                            w.append(("w", o, data[pos:pos+c]))
                        pos += c
                    check([tuple(x[:3]) for x in l] == w, "accesses of a write", a, n, l)
            else:
                check(rejected(lambda: run(sp.write(a, data))), "a write of unmapped addresses is refused", a, n)
        hist.append((a, n, ok))
    check(rejected(lambda: run(sp.read(-1, 1))), "a negative address is refused")
    check(rejected(lambda: run(sp.read(sp.size, 1))), "an address past the end is refused")
    return "%s %s" % ([(b, z, o) for b, z, o, r in regs], hist[:4])


def buddy_history(rng, size, ma):
    b = BuddyAllocator(size, ma) if ma != 1 or rng.random() < 0.5 else BuddyAllocator(size)
    live = {}
    hist = []
    for _ in range(rng.randint(1, 40)):
        if live and rng.random() < 0.45:
            a = rng.choice(list(live))
            if rng.random() < 0.15:
                bad = rng.choice([a+1, a-1, -1, size, size+4])
                if bad not in live:
                    check(rejected(lambda: b.free(bad)), "free of an unknown address is refused", bad)
                    continue
            b.free(a)
            del live[a]
            hist.append(("f", a))
            check(rejected(lambda: b.free(a)), "a second free is refused")
        else:
            n = rng.choice([1, 2, 3, rng.randint(1, size), rng.randint(1, max(1, size//4)), 0, size+1, -1])
            if n < 1 or n > size:
                check(rejected(lambda: b.alloc(n)), "an impossible size is refused", n)
                continue
            try:
                a = b.alloc(n)
            except Exception:
                if not live:
                    check(False, "an allocation from an empty allocator failed", size, ma, n)
                continue
            blk = 1 << (max(n, ma)-1).bit_length()
            check(0 <= a and a+n <= size, "a block lies inside the range", size, a, n)
            check(a % blk == 0, "a block is aligned to its size", a, blk)
            for x, (m, _b) in live.items():
                check(a+blk <= x or x+_b <= a, "blocks overlap", a, blk, x, _b)
            live[a] = (n, blk)
            hist.append(("a", a, n))
    return b, live, hist


@suite("C15", "buddy allocator histories", quick=3000, thorough=60000,
       rule="random alloc/free histories on every size 1..70 and minimum block sizes, then free everything in random order and re-allocate")
def _(rng):
    size = rng.choice([rng.randint(1, 70), 64, 128, 100, 1000])
    ma = rng.choice([1, 1, 1, 2, 3, 4, 8, 16])
    if ma > size:
        ma = 1
    b, live, hist = buddy_history(rng, size, ma)
    ks = list(live)
    rng.shuffle(ks)
    # freeing one block makes that much available again
    if ks:
        a = ks.pop()
        n = live.pop(a)[0]
        b.free(a)
        x = b.alloc(n)
        b.free(x)
    for a in ks:
        b.free(a)
    check(b.alloc(size) == 0, "after freeing everything the whole range is available", size)
    b.free(0)
    n = rng.randint(1, max(1, size//3))
    blk = 1 << (max(n, ma)-1).bit_length()
    got = set()
    while True:
        try:
            got.add(b.alloc(n))
        except Exception:
            break
    check(len(got) == (size-n)//blk+1, "the whole range can be allocated in small blocks", size, n, blk, len(got))
    return "%d %d %s" % (size, ma, hist[:6])


@suite("C16", "pools", quick=2500, thorough=40000,
       rule="random window pools, address pools and nested pools; every allocation is written and read back through itself and through the parent")
def _(rng):
    S = rng.choice([64, 100, 256, 1000])
    hist = []
    if rng.random() < 0.5:
        root = RecRegion(S, rng)
        off = rng.choice([0, rng.randrange(0, S)])
        n = rng.choice([None, rng.randint(1, S-off)])
        pool = root.create_window_pool(off, n)
        n = n if n is not None else S-off
        check(pool.size == n, "pool size")
        live = []
        for _ in range(rng.randint(1, 8)):
            z = rng.choice([1, 2, 5, rng.randint(1, n), 0, n+1])
            try:
                w = pool.alloc_window(z)
            except Exception:
                check(z < 1 or live or z > n, "an allocation from an empty pool failed", n, z)
                continue
            check(1 <= z <= n, "an impossible size was allocated", z)
            check(w.size >= z and w.offset >= 0 and w.offset+w.size <= n, "a window lies inside the pool", w.offset, w.size, n)
            for v in live:
                check(w.offset+w.size <= v.offset or v.offset+v.size <= w.offset, "windows overlap")
            live.append(w)
            d = bytes(rng.randrange(256) for _ in range(w.size))
            ref = bytearray(root.d)
            run(w.write(0, d))
            p = off+w.offset
            ref[p:p+len(d)] = d
            check(root.d == ref, "a window reaches exactly its part of the parent")
            check(bytes(run(w.read(0, w.size))) == d, "read back")
            check(w.base == p, "absolute base", w.base, p)
            check(rejected(lambda: run(w.write(0, d+b"\0"))), "access past a window is refused")
            hist.append((w.offset, z))
        return "w %d %d %s" % (S, n, hist)
    sp = AddressSpace(S)
    base = rng.choice([0, rng.randrange(0, S)])
    n = rng.choice([None, rng.randint(1, S-base)])
    pool = sp.create_pool(base, n) if rng.random() < 0.8 or base else sp.create_pool(size=n)
    n = n if n is not None else S-base
    check(pool.size == n and pool.base == base, "pool size and base", pool.base, base)
    live = []
    before = list(sp.regions)
    check(rejected(lambda: sp.create_pool(max(0, base-1), 2 if base else n)), "a pool over a registered pool is refused")
    check(sp.regions == before, "map unchanged")
    for _ in range(rng.randint(1, 8)):
        z = rng.choice([1, 2, 5, rng.randint(1, n), 0, n+1])
        snap = (list(pool.regions), [list(x) for x in pool.allocator.free_lists], dict(pool.allocator.allocations))
        try:
            r = pool.alloc_region(z) if rng.random() < 0.6 else pool.alloc_region(z, rng.choice([MemoryRegion, SparseMemoryRegion]))
        except Exception:
            check(z < 1 or live or z > n, "an allocation from an empty pool failed", n, z)
            check(snap == (list(pool.regions), [list(x) for x in pool.allocator.free_lists], dict(pool.allocator.allocations)),
                  "a failed allocation leaves the pool unchanged")
            continue
        check(1 <= z <= n, "an impossible size was allocated", z)
        check(r.size >= z, "size")
        o = r.base - 0
        # get_absolute_address of the pool already adds the pool's base
        o = r.base-pool.base
        check(r.parent is pool and 0 <= o and o+z <= n, "a region lies inside the pool", o, z, n)
        for (o2, z2, _r) in live:
            check(o+z <= o2 or o2+z2 <= o, "regions overlap", o, z, o2, z2)
        live.append((o, z, r))
        d = bytes(rng.randrange(256) for _ in range(z))
        others = [bytes(run(x.read(0, zz))) for _o, zz, x in live[:-1]]
        if rng.random() < 0.5:
            run(sp.write(base+o, d))
        else:
            run(pool.write(o, d))
        check(bytes(run(r.read(0, z))) == d, "an access through the parent reaches the region")
        check([bytes(run(x.read(0, zz))) for _o, zz, x in live[:-1]] == others, "no other region changes")
        d2 = bytes(rng.randrange(256) for _ in range(z))
        run(r.write(0, d2))
        check(run(sp.read(base+o, z)) == d2, "an access through the region is visible in the parent")
        hist.append((o, z))
    return "p %d %d %s" % (S, n, hist)
