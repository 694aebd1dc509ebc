"""C11 (sparse memory) and C12 (RAM models): contracts of the synchronous memory classes"""
from engine import *        # noqa
import engine as E
from unit import unit
from contracts import *       # noqa
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.memory import Memory


def page_size():
    """the representation's page size, read off the real object"""
    m = SparseMemory(1 << 20)
    m.write(0, b"\x01")
    (k, v), = m.segs.items()
    return len(v)


PS = page_size()


class SegMap(Contract):
    """dict page base -> bytearray of PS bytes.

    Abstract view: flat(a) = segs[a - a%PS][a%PS], 0 where the page is absent.  The byte at the arbitrary
    address A is tracked through writes; all other bytes keep the values they had at the start (they are
    only read by code whose result is compared with flat at start)."""

    def __init__(self, ctx, A):
        self.ctx = ctx
        self.A = A
        self.serial = ctx.new_serial()
        self.label = ctx.new_label("segs")
        ctx.objects[self.label] = self
        if ctx.mode == "conc":
            self.d = {}
            return
        self.F = z3.Function(ctx.fresh_name("flat"), z3.IntSort(), z3.IntSort())
        self.seen = []
        self.absent = []
        self.present = ctx.fresh_bool("page_present")
        self.cell = ctx.fresh_int("cell", 0, 255)
        ctx.assume(Implies(Not(self.present), self.cell == 0))
        self.wrote = False
        self.base = A-mod(A, PS)
        ctx.axiom(zb(SInt(self.F(zi(A))) == self.cell))

    # state for the loop rule
    def get_state(self, k):
        return getattr(self, k)

    def set_state(self, k, v):
        setattr(self, k, v)

    def flat0(self, a):
        """contents at the start of the unit"""
        if self.ctx.mode == "conc":
            b = self.start.get(a-a % PS)
            return b[a % PS] if b is not None else 0
        e = self.F(zi(a))
        v = SInt(e, 8)
        ctx = self.ctx
        ctx.axiom(z3.And(e >= 0, e < 256))
        self.seen.append(a)
        for k in self.absent:
            ctx.axiom(zb(Implies(And(a >= k, a < k+PS), v == 0)))
        return v

    def now(self):
        """tracked byte in the current state"""
        if self.ctx.mode == "conc":
            A = self.A
            b = self.d.get(A-A % PS)
            return b.at(A % PS) if b is not None else 0
        return ite(self.present, self.cell, 0)

    def pool(self):
        return dict(cell=self.now())

    def snapshot(self):
        if self.ctx.mode == "conc":
            self.start = {k: list(v.items) for k, v in self.d.items()}

    # dict interface
    def _block(self, k, own):
        ctx = self.ctx
        if own:
            s = SSeq("bytearray", n=PS, f=lambda j: ite(self.wrote, ite(k+j == self.A, self.cell, self.flat0(k+j)),
                                                        self.flat0(k+j)), elem_bits=8)
            cell = self.cell
            s.f = lambda j: ite(k+j == self.A, cell, self.flat0(k+j))
        else:
            s = SSeq("bytearray", n=PS, f=lambda j: self.flat0(k+j), elem_bits=8)
        s.label = ctx.new_label("page")
        ctx.objects[s.label] = s
        if own:
            s.hook = lambda: self._sync(s)
        return s

    def _sync(self, s):
        ctx = self.ctx
        ctx.note_write(self, "cell")
        ctx.note_write(self, "present")
        self.cell = ite(self.A-self.base < s.n, s.at(self.A-self.base), 0)
        self.present = True

    def _own(self, k):
        return truth(self.ctx, k == self.base)

    def getitem(self, k):
        ctx = self.ctx
        if ctx.mode == "conc":
            if k not in self.d:
                raise PyExc(KeyError(k))
            return self.d[k]
        if self._own(k):
            if truth(ctx, self.present):
                return self._block(k, True)
        elif ctx.choice(2, "page present") == 0:
            return self._block(k, False)
        self.absent.append(k)
        for a in self.seen:
            ctx.axiom(zb(Implies(And(a >= k, a < k+PS), SInt(self.F(zi(a))) == 0)))
        raise PyExc(KeyError("page"))

    def get(self, k, default=None):
        try:
            return self.getitem(k)
        except PyExc:
            return default

    def contains(self, k):
        try:
            self.getitem(k)
            return True
        except PyExc:
            return False

    def setitem(self, k, v):
        ctx = self.ctx
        if ctx.mode == "conc":
            self.d[k] = v
            return
        ctx.prove(v.n == PS, "pages have the page size")
        if self._own(k):
            self._sync(v)
            v.hook = lambda: self._sync(v)

    def setdefault(self, k, v=None):
        try:
            return self.getitem(k)
        except PyExc:
            self.setitem(k, v)
            return v

    def clear(self):
        ctx = self.ctx
        if ctx.mode == "conc":
            self.d.clear()
            return
        ctx.note_write(self, "present")
        self.present = False
        self.cell = 0

    def pop(self, k, *d):
        raise Unsupported("pop of a page")


def setup(ctx):
    if ctx.mode == "conc":
        size = ctx.fresh_int("size", 1, sample=lambda r: r.choice([1, 5, 4096, 4097, 9000, 20000]))
        A = ctx.fresh_int("A", 0, sample=lambda r: r.randrange(0, size))
    else:
        size = ctx.fresh_int("size", 1)
        A = ctx.fresh_int("A", 0)
        ctx.assume(A < size)
    segs = SegMap(ctx, A)
    if ctx.mode == "conc":
        for k in range(0, size, PS):
            if ctx.rng.random() < 0.6:
                segs.d[k] = SSeq("bytearray", items=[ctx.rng.randrange(256) for _ in range(PS)])
                segs.d[k].label = "page%d" % k
        segs.snapshot()
    mem = ctx.new_obj(SparseMemory)
    mem.fields.update(size=size, segs=segs)
    ctx.ghost.A = A
    return mem, segs, size, A


def addr_len(ctx, size):
    if ctx.mode == "conc":
        r = ctx.rng
        a = ctx.fresh_int("address", sample=lambda r: r.choice([0, r.randrange(0, size), r.randrange(0, size), -1, size, size+3]))
        n = ctx.fresh_int("length", sample=lambda r: r.choice([0, 1, r.randrange(0, 9000), max(size-a, 0), max(size-a, 0)+1]))
        return a, n
    return ctx.fresh_int("address"), ctx.fresh_int("length")


@unit("C11", "SparseMemory.read", moduli=(PS,), samples=60, covers=("raise",))
def _(ctx):
    mem, segs, size, A = setup(ctx)
    a, n = addr_len(ctx, size)
    ctx.refs["flat"] = SSeq("bytes", n=n, f=lambda i: segs.flat0(a+i), elem_bits=8)
    ok = And(a >= 0, a < size, n >= 0, a+n <= size)
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, mem, "read"), [a, n], {}), ok)
    ctx.prove(segs.now() == segs.flat0(A), "read changes nothing")
    if exc:
        return
    ctx.prove(isinstance(r, SSeq) and r.is_bytes, "read returns bytes")
    ctx.prove(r.n == n, "read returns length bytes")
    if ctx.mode == "conc":
        for i in range(n):
            ctx.prove(r.at(i) == segs.flat0(a+i), "byte i of a read is the byte at address+i")
    else:
        i = ctx.skolem("i", 0, None)
        ctx.assume(i < n)
        ctx.prove(r.at(i) == segs.flat0(a+i), "byte i of a read is the byte at address+i")


@unit("C11", "SparseMemory.write", moduli=(PS,), samples=60, covers=("raise",))
def _(ctx):
    mem, segs, size, A = setup(ctx)
    a, n = addr_len(ctx, size)
    ctx.assume(n >= 0)
    data = ctx.fresh_bytes("data", n)
    data0 = data.copy("bytes")
    old = segs.flat0(A)
    ctx.ghost.cell_old = old
    inr = And(a <= A, A < a+n)
    new = (data0.at(A-a) if truth(ctx, inr) else 0) if ctx.mode == "conc" else data0.at(A-a)
    ctx.ghost.cell_new = new
    ctx.extra_pool["G:cell"] = segs.now
    ok = And(a >= 0, a < size, a+n <= size)
    ctx.run.track = ("G:cell", "G:cell_new", "G:cell_old", "G:A")
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, mem, "write"), [a, data], {}), ok)
    if exc:
        ctx.prove(segs.now() == old, "a rejected write changes nothing")
        return
    if ctx.mode == "conc":
        for k, blk in segs.d.items():
            for j in range(blk.n):
                v = blk.at(j)
                x = k+j
                if a <= x < a+n:
                    ctx.prove(v == data0.at(x-a), "a written byte holds the data")
                else:
                    ctx.prove(v == segs.flat0(x), "a byte outside the range is unchanged")
    if truth(ctx, inr):
        ctx.prove(segs.now() == new, "a written byte holds the data")
    else:
        ctx.prove(segs.now() == old, "a byte outside the range is unchanged")


@unit("C11", "SparseMemory.__init__/clear/__len__", samples=10)
def _(ctx):
    size = ctx.fresh_int("size", 1, 1 << 66)
    m = E.call(ctx, SparseMemory, [size], {})
    segs = getattr_(ctx, m, "segs")
    ctx.prove(isinstance(segs, E.SDict) and len(segs.items_) == 0, "a new memory has no pages, so every byte is zero")
    ctx.prove(getattr_(ctx, m, "size") == size, "size is the declared size")
    mem, segs, size, A = setup(ctx)
    E.call(ctx, getattr_(ctx, mem, "clear"), [], {})
    ctx.prove(segs.now() == 0, "clear zeroes every byte")


@unit("C11", "SparseMemory.__getitem__/__setitem__", samples=40)
def _(ctx):
    mem, segs, size, A = setup(ctx)
    calls = []

    def h_read(self, address, length, **kw):
        calls.append(("r", address, length))
        return SSeq("bytes", n=length, f=lambda i: segs.flat0(address+i), elem_bits=8)

    def h_write(self, address, data, **kw):
        calls.append(("w", address, as_seq(ctx, data)))
    ctx.handlers[SparseMemory.read] = h_read
    ctx.handlers[SparseMemory.write] = h_write
    which = ctx.choice(4)
    a, n = addr_len(ctx, size)
    if which == 0:
        r = E.getitem(ctx, mem, a)
        ctx.prove(len(calls) == 1 and calls[0][0] == "r", "one read")
        ctx.prove(And(calls[0][1] == a, calls[0][2] == 1), "an index reads that byte")
        ctx.prove(r == segs.flat0(a), "an index returns that byte")
    elif which == 1:
        v = ctx.fresh_int("v", 0, 255)
        E.setitem(ctx, mem, a, v)
        ctx.prove(len(calls) == 1 and calls[0][0] == "w", "one write")
        ctx.prove(And(calls[0][1] == a, calls[0][2].n == 1), "an index writes that byte")
        ctx.prove(calls[0][2].at(0) == v, "an index writes the value")
    else:
        ctx.assume(And(a >= 0, a < size, n >= 0, a+n <= size))
        if which == 2:
            r = E.getitem(ctx, mem, slice(a, a+n))
            ctx.prove(len(calls) == 1 and calls[0][0] == "r", "one read")
            ctx.prove(And(calls[0][1] == a, calls[0][2] == n), "a slice reads its range")
            ctx.prove(r.n == n, "a slice has its length")
        else:
            m = ctx.fresh_int("m", 0, sample=lambda r: r.choice([n, n, n+1, 0]))
            data = ctx.fresh_bytes("data", m)
            exc, r = expect(ctx, lambda: E.setitem(ctx, mem, slice(a, a+n), data), m == n, (IndexError,), "slice assignment of another length")
            if exc:
                ctx.prove(not calls, "a rejected slice assignment writes nothing")
                return
            ctx.prove(len(calls) == 1 and calls[0][0] == "w", "one write")
            ctx.prove(And(calls[0][1] == a, calls[0][2].n == n), "a slice writes its range")
            i = ctx.skolem("i", 0, None)
            if i is not None:
                ctx.assume(i < n)
                ctx.prove(calls[0][2].at(i) == data.at(i), "a slice writes the data")


# ---------------------------------------------------------------------------------------------------------------
# C12


def setup_mem(ctx, sizes=(1, 5, 64, 300)):
    if ctx.mode == "conc":
        size = ctx.fresh_int("size", 1, sample=lambda r: r.choice(sizes))
        A = ctx.fresh_int("A", 0, sample=lambda r: r.randrange(0, size))
    else:
        size = ctx.fresh_int("size", 1)
        A = ctx.fresh_int("A", 0)
        ctx.assume(A < size)
    fm = FlatMem(ctx, size, A)
    mem = ctx.new_obj(Memory)
    mem.fields.update(size=size, mem=fm)
    return mem, fm, size, A


def in_range(ctx, size, name="address", step=1):
    if ctx.mode == "conc":
        a = ctx.fresh_int(name, sample=lambda r: r.randrange(0, size+1))
        n = ctx.fresh_int("count", sample=lambda r: r.randrange(0, (size-a)//step+1))
        return a, n
    a = ctx.fresh_int(name, 0)
    n = ctx.fresh_int("count", 0)
    ctx.assume(a+n*step <= size)
    return a, n


@unit("C12", "Memory.read/write", samples=40)
def _(ctx):
    mem, fm, size, A = setup_mem(ctx)
    a, n = in_range(ctx, size)
    if ctx.choice(2):
        r = E.call(ctx, getattr_(ctx, mem, "read"), [a, n], {})
        ctx.prove(r.n == n, "read returns length bytes")
        forall(ctx, n, lambda i: r.at(i) == fm.at0(a+i), "read returns the stored bytes")
        ctx.prove(fm.now() == fm.at0(A), "read changes nothing")
    else:
        data = ctx.fresh_bytes("data", n)
        E.call(ctx, getattr_(ctx, mem, "write"), [a, data], {})
        if truth(ctx, And(a <= A, A < a+n)):
            ctx.prove(fm.now() == data.at(A-a), "written bytes are stored")
        else:
            ctx.prove(fm.now() == fm.at0(A), "other bytes are unchanged")


def word_bytes(B, ws, order):
    """byte sequence of consecutive words"""
    if order == "little":
        return lambda i: B(i)
    return lambda i: B((i//ws)*ws+(ws-1-i % ws))


@unit("C12", "Memory.write_words and wrappers", quick=[dict(ws=w, order=o) for w in (1, 2, 4, 8, 3) for o in ("little", "big")],
      thorough=[dict(ws=w, order=o) for w in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32) for o in ("little", "big")], samples=30,
      bounded="word size is one of the listed values")
def _(ctx, ws, order):
    mem, fm, size, A = setup_mem(ctx)
    a, n = in_range(ctx, size, step=ws)
    B = ctx.fresh_bytes("bytes", n*ws)
    if ctx.mode == "conc":
        words = SSeq("list", items=[int.from_bytes(bytes(B.items[k*ws:(k+1)*ws]), "little") for k in range(n)])
    else:
        words = SSeq("list", n=n, f=lambda i: Wide(8, ws, lambda j: B.at(i*ws+j)))
    names = [("write_words", dict(ws=ws))]
    if ws == 2:
        names.append(("write_words", {}))
    if ws == 4:
        names.append(("write_dwords", {}))
    if ws == 8:
        names.append(("write_qwords", {}))
    single = [("write_word", dict(ws=ws))] + {1: [("write_byte", None)], 2: [("write_word", {})], 4: [("write_dword", {})],
                                              8: [("write_qword", {})]}.get(ws, [])
    k = ctx.choice(len(names)+len(single))
    exp = word_bytes(B.at, ws, order)
    ctx.refs["exp"] = SSeq("bytes", n=n*ws, f=exp, elem_bits=8)
    if k < len(names):
        f, kw = names[k]
        kw = dict(kw)
        if order != "little" or ctx.choice(2):
            kw["byteorder"] = order
        E.call(ctx, getattr_(ctx, mem, f), [a, words], kw)
    else:
        f, kw = single[k-len(names)]
        ctx.assume(n == 1)
        w = words.at(0)
        if kw is None:
            if order != "little":
                raise PathEnd("no byte order")
            kw = {}
        else:
            kw = dict(kw)
            if order != "little" or ctx.choice(2):
                kw["byteorder"] = order
        E.call(ctx, getattr_(ctx, mem, f), [a, w], kw)
    if truth(ctx, And(a <= A, A < a+n*ws)):
        ctx.prove(fm.now() == exp(A-a), "written words are stored in the requested byte order")
    else:
        ctx.prove(fm.now() == fm.at0(A), "other bytes are unchanged")


@unit("C12", "Memory.read_words and wrappers", quick=[dict(ws=w, order=o) for w in (1, 2, 4, 8, 3) for o in ("little", "big")],
      thorough=[dict(ws=w, order=o) for w in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32) for o in ("little", "big")], samples=30,
      bounded="word size is one of the listed values")
def _(ctx, ws, order):
    mem, fm, size, A = setup_mem(ctx)
    a, n = in_range(ctx, size, step=ws)
    exp = word_bytes(lambda i: fm.at0(a+i), ws, order)
    names = [("read_words", dict(ws=ws))]
    if ws == 2:
        names.append(("read_words", {}))
    if ws == 4:
        names.append(("read_dwords", {}))
    if ws == 8:
        names.append(("read_qwords", {}))
    single = [("read_word", dict(ws=ws))] + {1: [("read_byte", None)], 2: [("read_word", {})], 4: [("read_dword", {})],
                                             8: [("read_qword", {})]}.get(ws, [])
    k = ctx.choice(len(names)+len(single))

    def word(i):
        if ctx.mode == "conc":
            return int.from_bytes(bytes(exp(i*ws+j) for j in range(ws)), "little")
        if ws <= 1:
            return exp(i)
        return Wide(8, ws, lambda j: exp(i*ws+j))
    ctx.refs["exp"] = SSeq("list", n=n, f=word)
    ctx.prove(fm.now() == fm.at0(A), "read changes nothing")
    if k < len(names):
        f, kw = names[k]
        kw = dict(kw)
        if order != "little" or ctx.choice(2):
            kw["byteorder"] = order
        r = E.call(ctx, getattr_(ctx, mem, f), [a, n], kw)
        ctx.prove(r.n == n, "as many words as requested")
        forall(ctx, n, lambda i: r.at(i) == word(i), "read words have the requested byte order")
    else:
        f, kw = single[k-len(names)]
        ctx.assume(n == 1)
        if kw is None:
            if order != "little":
                raise PathEnd("no byte order")
            kw = {}
        else:
            kw = dict(kw)
            if order != "little" or ctx.choice(2):
                kw["byteorder"] = order
        r = E.call(ctx, getattr_(ctx, mem, f), [a], kw)
        ctx.prove(r == word(0), "a read word has the requested byte order")


@unit("C12", "Memory.__init__", samples=12)
def _(ctx):
    which = ctx.choice(4)
    if which == 3:
        size = ctx.fresh_int("size", 0, 1 << 66)
        sp = E.call(ctx, SparseMemory, [size], {})
        m = E.call(ctx, Memory, [] if ctx.choice(2) else [ctx.fresh_int("other", 0)], dict(mem=sp))
        ctx.prove(getattr_(ctx, m, "mem") is sp, "the given store is used")
        ctx.prove(getattr_(ctx, m, "size") == size, "size of the given store")
    elif which == 0:
        m = E.call(ctx, Memory, [], {})
        ctx.prove(getattr_(ctx, m, "size") == 2**64, "default size")
        sm = getattr_(ctx, m, "mem")
        ctx.prove(isinstance(sm, Obj) and sm.cls is SparseMemory and truth(ctx, getattr_(ctx, sm, "size") == 2**64), "default store")
    elif which == 1:
        size = ctx.fresh_int("size", 1, 1 << 66)
        m = E.call(ctx, Memory, [size], {})
        ctx.prove(getattr_(ctx, m, "size") == size, "requested size")
    else:
        size = ctx.fresh_int("size", 0, 1 << 20, sample=lambda r: r.randrange(0, 200))
        fm = FlatMem(ctx, size, 0)
        m = E.call(ctx, Memory, [], dict(mem=fm))
        ctx.prove(getattr_(ctx, m, "size") == size, "size of the given store")
        ctx.prove(getattr_(ctx, m, "mem") is fm, "the given store is used")


from cocotbext.axi.axi_ram import AxiRamWrite, AxiRamRead          # noqa
from cocotbext.axi.axil_ram import AxiLiteRamWrite, AxiLiteRamRead  # noqa
from cocotbext.axi.apb import ApbRam                                # noqa


@unit("C12", "bus RAM accessors", quick=[dict(cls=c, op=o) for c, o in
                                         (("AxiRamWrite", "w"), ("AxiRamRead", "r"), ("AxiLiteRamWrite", "w"),
                                          ("AxiLiteRamRead", "r"), ("ApbRam", "w"), ("ApbRam", "r"))], samples=30,
      bounded="memory sizes 1..16, 100, 4096, 65536, 2**32, 2**64 (the divisor must be a constant for the solver)")
def _(ctx, cls, op):
    sizes = list(range(1, 17))+[100, 4096, 1 << 16, 1 << 32, 1 << 64]
    k = ctx.choice(len(sizes))
    size = sizes[k]
    C = globals()[cls]
    o = ctx.new_obj(C)
    o.fields.update(size=size, mem=None)
    calls = []
    ctx.handlers[Memory.read] = lambda s, a, n: calls.append((a, n)) or SSeq("bytes", n=n, f=lambda i: 7, elem_bits=8)
    ctx.handlers[Memory.write] = lambda s, a, d: calls.append((a, d))
    a = ctx.fresh_int("address", 0, sample=lambda r: r.randrange(0, 3*size))
    n = ctx.fresh_int("n", 1, sample=lambda r: r.randrange(1, 9))
    data = ctx.fresh_bytes("data", n)
    if op == "r":
        r = E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_read"), [a, n], {}))
        ctx.prove(len(calls) == 1, "one access")
        ctx.prove(calls[0][1] == n, "same length")
        ctx.prove(r.n == n, "the bytes read are returned")
    else:
        E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_write"), [a, data], {}))
        ctx.prove(len(calls) == 1, "one access")
        d = as_seq(ctx, calls[0][1])
        ctx.prove(d.n == n, "same length")
        forall(ctx, n, lambda i: d.at(i) == data.at(i), "same data")
    ctx.prove(calls[0][0] == a % size, "addresses wrap modulo the size")
