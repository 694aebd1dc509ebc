"""native cross-checks of the memory models (C11, C12, C25)"""
import io
import contextlib
import mmap

from suite import suite, check
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.memory import Memory


def edge_addr(rng, size):
    c = rng.random()
    if c < 0.5:
        a = rng.choice([0, 4096, 8192, 12288, size])+rng.randint(-9, 9)
    else:
        a = rng.randrange(0, size)
    return a


@suite("C11", "sparse memory against a flat array", quick=3000, thorough=60000,
       rule="random histories of reads, writes, index and slice accesses, clears on sizes around page multiples; a case is non-trivial when it stored data across a page boundary or was rejected")
def _(rng):
    size = rng.choice([1, 100, 4095, 4096, 4097, 8192, 10000, 13000, 20480])
    m = SparseMemory(size)
    ref = bytearray(size)
    check(len(m) == size, "len")
    log = []
    for _ in range(rng.randint(1, 14)):
        op = rng.choice(["w", "w", "w", "r", "r", "i", "s", "gi", "gs", "c", "bad"])
        a = max(0, min(size-1, edge_addr(rng, size)))
        n = rng.choice([0, 1, 2, 7, 64, 4096, 4097, rng.randrange(0, 9000)])
        n = min(n, size-a)
        d = bytes(rng.randrange(256) for _ in range(n))
        if op == "w":
            m.write(a, rng.choice([bytes, bytearray, list, memoryview])(d))
            ref[a:a+n] = d
        elif op == "r":
            r = m.read(a, n)
            check(isinstance(r, bytes) and r == ref[a:a+n], "read", a, n)
        elif op == "i":
            v = rng.randrange(256)
            m[a] = v
            ref[a] = v
        elif op == "gi":
            check(m[a] == ref[a], "index", a)
        elif op == "s":
            m[a:a+n] = d
            ref[a:a+n] = d
        elif op == "gs":
            check(m[a:a+n] == ref[a:a+n], "slice", a, n)
        elif op == "c":
            if rng.random() < 0.3:
                m.clear()
                ref = bytearray(size)
        else:
            k = rng.randrange(6)
            try:
                if k == 0:
                    m.read(-1-rng.randrange(5), rng.randrange(3, 10))
                elif k == 1:
                    m.read(size, 1)
                elif k == 2:
                    m.write(a, bytes(b ^ 0x55 for b in ref[a:])+b"\xaa")
                elif k == 3:
                    m.read(a, size-a+1)
                elif k == 4:
                    m.write(-1-rng.randrange(5), b"\x11"*8)
                else:
                    m.read(a, -1-rng.randrange(3))
            except (ValueError, IndexError):
                pass
            else:
                check(False, "out-of-range access was accepted", k, a)
        log.append((op, a, n))
    check(m.read(0, size) == ref, "final contents")
    return "%d %s" % (size, log[:6])


@suite("C12", "memory word accessors against a byte array", quick=3000, thorough=60000,
       rule="random byte/word/array accesses of every width and byte order on sparse, mmap and bytearray stores")
def _(rng):
    size = rng.choice([16, 64, 300, 4096, 5000, 9000])
    kind = rng.randrange(4)
    if kind == 0:
        m = Memory(size)
    elif kind == 1:
        m = Memory(mem=mmap.mmap(-1, size))
    elif kind == 2:
        m = Memory(size, bytearray(size))
    else:
        m = Memory(mem=SparseMemory(size))
    check(m.size == size, "size")
    ref = bytearray(size)
    log = []
    for _ in range(rng.randint(2, 12)):
        order = rng.choice(["little", "big"])
        ws = rng.choice([1, 2, 3, 4, 5, 8, 16])
        cnt = rng.randint(0, min(9, size//ws))
        if rng.random() < 0.5:
            ws, f = rng.choice([(2, "word"), (4, "dword"), (8, "qword")])
            cnt = min(cnt, size//ws)
            kw = {}
        else:
            f = "word"
            kw = dict(ws=ws)
        if order == "big" or rng.random() < 0.5:
            kw["byteorder"] = order
        a = rng.randint(0, size-max(1, ws*max(cnt, 1)))
        op = rng.choice(["w", "r", "ws", "rs", "b", "rb", "raw", "rraw"])
        words = [rng.getrandbits(8*ws) for _ in range(cnt)]
        if op == "ws":
            getattr(m, "write_%ss" % f)(a, words, **kw)
            b = b"".join(w.to_bytes(ws, order) for w in words)
            ref[a:a+len(b)] = b
        elif op == "w":
            w = rng.getrandbits(8*ws)
            getattr(m, "write_%s" % f)(a, w, **kw)
            ref[a:a+ws] = w.to_bytes(ws, order)
        elif op == "r":
            check(getattr(m, "read_%s" % f)(a, **kw) == int.from_bytes(ref[a:a+ws], order), "read_"+f, a, kw)
        elif op == "rs":
            check(getattr(m, "read_%ss" % f)(a, cnt, **kw) ==
                  [int.from_bytes(ref[a+k*ws:a+k*ws+ws], order) for k in range(cnt)], "read words", f, a, kw)
        elif op == "b":
            v = rng.randrange(256)
            m.write_byte(a, v)
            ref[a] = v
        elif op == "rb":
            check(m.read_byte(a) == ref[a], "read_byte")
        elif op == "raw":
            d = bytes(rng.randrange(256) for _ in range(rng.randint(0, size-a)))
            m.write(a, d)
            ref[a:a+len(d)] = d
        else:
            n = rng.randint(0, size-a)
            check(bytes(m.read(a, n)) == ref[a:a+n], "read")
        log.append((op, a, f, ws))
    if size:
        check(bytes(m.read(0, size)) == ref, "final contents")
    return "%d %d %s" % (kind, size, log[:5])


@suite("C12", "default RAM model", quick=20, thorough=100, rule="default constructor arguments, far addresses")
def _(rng):
    kind = rng.randrange(4)
    if kind == 3:
        given = rng.choice([SparseMemory(2**64), SparseMemory(2**66), SparseMemory(0), bytearray(0), bytearray(64)])
        m = Memory(mem=given)
        check(m.mem is given, "the given store is used")
        check(m.size == (given.size if isinstance(given, SparseMemory) else len(given)), "size of the given store")
        return "given %r" % m.size
    m = Memory()
    a = rng.choice([0, 2**32, 2**64-64, rng.randrange(2**63, 2**64-64)])
    d = bytes(rng.randrange(256) for _ in range(16))
    m.write(a, d)
    check(bytes(m.read(a, 16)) == d, "default memory")
    m.write_qword(a, 0x1122334455667788)
    check(m.read_qword(a) == 0x1122334455667788, "qword")
    check(m.size == 2**64, "default size")
    return a
