"""C13 (windows, regions), C14 (address space), C15 (buddy allocator), C16 (pools): contracts of the memory interfaces"""
import inspect
import mmap

from engine import *        # noqa
import engine as E
from unit import unit
from contracts import *       # noqa
from cocotbext.axi.sparse_memory import SparseMemory
from cocotbext.axi.buddy_allocator import BuddyAllocator
from cocotbext.axi import address_space as AS
from cocotbext.axi.address_space import (MemoryInterface, Window, WindowPool, Region, MemoryRegion, SparseMemoryRegion,
                                         PeripheralRegion, AddressSpace, Pool)


class MemIf(Contract):
    """any memory interface (parent of a window, region of an address space): records the accesses made to it, stores
    nothing outside its size; a read returns an arbitrary function of the address"""

    def __init__(self, ctx, size=None, base=0, kind="bytes", log=None, name="parent", checked=True):
        self.ctx = ctx
        self.size = size
        self.base = base
        self.kind = kind
        self.name = name
        self.checked = checked
        self.log = log if log is not None else []
        self.serial = ctx.new_serial()
        self.label = ctx.new_label(name)
        ctx.objects[self.label] = self
        if ctx.mode == "conc":
            sd = ctx.rng.randrange(1 << 30)
            self.F = lambda a: ((a*2654435761+sd) >> 7) & 255
        else:
            self.F = ctx._fn(z3.Function(ctx.fresh_name("stored"), z3.IntSort(), z3.IntSort()), 8)

    def length(self):
        return self.size

    def bytes_(self, a, n, kind=None):
        k = kind or self.kind
        if self.ctx.mode == "conc":
            return E.relabel(self.ctx, SSeq(k, items=[self.F(a+i) for i in range(n)]))
        return E.relabel(self.ctx, SSeq(k, n=n, f=lambda i: self.F(a+i), elem_bits=8))

    def read(self, address, length, **kw):
        def go():
            self.log.append(("r", self, address, length, kw))
            return self.bytes_(address, length)
        return Aw(go, "read")

    def write(self, address, data, **kw):
        def go():
            self.log.append(("w", self, address, as_seq(self.ctx, data).copy("bytes"), kw))
        return Aw(go, "write")

    def get_absolute_address(self, a):
        return a+self.base


KINDS = ("bytes", "bytearray", "memoryview")


def acc_args(ctx, size, step=1):
    if ctx.mode == "conc":
        a = ctx.fresh_int("address", sample=lambda r: r.choice([0, r.randrange(0, size), -1, size, size+2, max(0, size-step)]))
        n = ctx.fresh_int("length", sample=lambda r: r.choice([0, 1, 3, max(0, size-a), max(0, (size-a)//step), max(0, size-a)//step+1]))
        return a, n
    return ctx.fresh_int("address"), ctx.fresh_int("length")


def window(ctx, cls=Window, name=""):
    if ctx.mode == "conc":
        size = ctx.fresh_int("size"+name, 1, sample=lambda r: r.choice([1, 5, 16, 100]))
    else:
        size = ctx.fresh_int("size"+name, 1)
    off = ctx.fresh_int("offset"+name, 0)
    base = ctx.fresh_int("base"+name, 0)
    p = MemIf(ctx, kind=KINDS[ctx.choice(3)])
    w = ctx.new_obj(cls)
    w.fields.update(_parent=p, _size=size, _base=base, _offset=off, window_type=Window, window_pool_type=WindowPool)
    return w, p, size, off, base


@unit("C13", "Window.read/write", samples=60, covers=("raise",))
def _(ctx):
    w, p, size, off, base = window(ctx)
    a, n = acc_args(ctx, size)
    ok = And(a >= 0, a < size, n >= 0, a+n <= size)
    if ctx.choice(2):
        exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, w, "read"), [a, n], {})), ok)
        if exc:
            ctx.prove(not p.log, "a rejected access does not reach the parent")
            return
        ctx.prove(len(p.log) == 1, "one parent access")
        _k, _p, pa, pn, kw = p.log[0]
        ctx.prove(_k == "r", "a read reads")
        ctx.prove(And(pa == a+off, pn == n), "a read reaches base plus offset with its length")
        ctx.prove(r.n == n, "length of the data")
        forall(ctx, n, lambda i: r.at(i) == p.F(a+off+i), "data unchanged")
    else:
        ctx.assume(n >= 0)
        data = ctx.fresh_bytes("data", n)
        exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, w, "write"), [a, data], {})), ok)
        if exc:
            ctx.prove(not p.log, "a rejected access does not reach the parent")
            return
        ctx.prove(len(p.log) == 1, "one parent access")
        _k, _p, pa, d, kw = p.log[0]
        ctx.prove(_k == "w", "a write writes")
        ctx.prove(pa == a+off, "a write reaches base plus offset")
        ctx.prove(d.n == n, "length of the data")
        forall(ctx, n, lambda i: d.at(i) == data.at(i), "data unchanged")


@unit("C13", "Window.get_parent_address/get_absolute_address/size/base/len", samples=30)
def _(ctx):
    w, p, size, off, base = window(ctx)
    a, n = acc_args(ctx, size)
    ok = And(a >= 0, a < size)
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, w, "get_parent_address"), [a], {}), ok)
    if not exc:
        ctx.prove(r == a+off, "parent address")
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, w, "get_absolute_address"), [a], {}), ok)
    if not exc:
        ctx.prove(r == a+base, "absolute address")
    ctx.prove(And(getattr_(ctx, w, "size") == size, getattr_(ctx, w, "base") == base, getattr_(ctx, w, "offset") == off), "attributes")
    if truth(ctx, size < 1 << 63):      # len() of a larger object is an OverflowError in Python
        ctx.prove(E._len(ctx, w) == size, "length")
    ctx.prove(getattr_(ctx, w, "parent") is p, "parent")
    w.fields["_base"] = None
    ctx.prove(E.call(ctx, getattr_(ctx, w, "get_absolute_address"), [a], {}) is None, "no absolute address without a base")


def rec_window(ctx, size):
    """a memory interface whose _read/_write are replaced by the contract of a leaf"""
    p = MemIf(ctx, kind=KINDS[ctx.choice(3)])
    w = ctx.new_obj(MemoryInterface)
    w.fields.update(_parent=None, _size=size, _base=0, window_type=Window, window_pool_type=WindowPool)
    ctx.handlers[MemoryInterface._read] = lambda s, a, n, **kw: p.read(a, n, **kw)
    ctx.handlers[MemoryInterface._write] = lambda s, a, d, **kw: p.write(a, d, **kw)
    return w, p


def word_bytes(B, ws, order):
    if order == "little":
        return lambda i: B(i)
    return lambda i: B((i//ws)*ws+(ws-1-i % ws))


WS_Q = [dict(ws=w, order=o) for w in (1, 2, 4, 8, 3) for o in ("little", "big")]
WS_T = [dict(ws=w, order=o) for w in (1, 2, 3, 4, 5, 6, 7, 8, 16, 32) for o in ("little", "big")]


def sym_size(ctx, sizes=(1, 5, 64, 100)):
    if ctx.mode == "conc":
        return ctx.fresh_int("size", 1, sample=lambda r: r.choice(sizes))
    return ctx.fresh_int("size", 1)


@unit(("C13", "C24"), "MemoryInterface.write_words and wrappers", quick=WS_Q, thorough=WS_T, samples=40,
      bounded="word size is one of the listed values", covers=("raise",))
def _(ctx, ws, order):
    size = sym_size(ctx)
    w, p = rec_window(ctx, size)
    a, n = acc_args(ctx, size, ws)
    ctx.assume(n >= 0)
    names = [("write_words", dict(ws=ws), 0)]
    names += {2: [("write_words", {}, 0), ("write_word", {}, 1)], 4: [("write_dwords", {}, 0), ("write_dword", {}, 1)],
              8: [("write_qwords", {}, 0), ("write_qword", {}, 1)], 1: [("write_byte", None, 1)]}.get(ws, [])
    names.append(("write_word", dict(ws=ws), 1))
    f, kw, single = names[ctx.choice(len(names))]
    if kw is None and order != "little":
        raise PathEnd("no byte order")
    if single:
        if ctx.mode == "conc":
            n = 1
        else:
            ctx.assume(n == 1)
    B = ctx.fresh_bytes("bytes", n*ws)
    if ctx.mode == "conc":
        words = SSeq("list", items=[int.from_bytes(bytes(B.items[k*ws:(k+1)*ws]), "little") for k in range(n)])
    else:
        words = SSeq("list", n=n, f=lambda i: Wide(8, ws, lambda j: B.at(i*ws+j)))
    exp = word_bytes(B.at, ws, order)
    ctx.refs["exp"] = SSeq("bytes", n=n*ws, f=exp, elem_bits=8)
    ok = And(a >= 0, a < size, a+n*ws <= size)
    kw = dict(kw or {})
    if order != "little" or f != "write_byte" and ctx.choice(2):
        kw["byteorder"] = order
    kw["tag"] = 5
    arg = words.at(0) if single else words
    exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, w, f), [a, arg], kw)), ok)
    if exc:
        ctx.prove(not p.log, "a rejected access does nothing")
        return
    ctx.prove(len(p.log) == 1 and p.log[0][0] == "w", "one access")
    _k, _p, pa, d, kws = p.log[0]
    ctx.prove(pa == a, "address")
    ctx.prove(d.n == n*ws, "length")
    ctx.prove(kws == dict(tag=5), "extra arguments are passed on")
    forall(ctx, n*ws, lambda i: d.at(i) == exp(i), "words are written in the requested byte order")


@unit(("C13", "C24"), "MemoryInterface.read_words and wrappers", quick=WS_Q, thorough=WS_T, samples=40,
      bounded="word size is one of the listed values", covers=("raise",))
def _(ctx, ws, order):
    size = sym_size(ctx)
    w, p = rec_window(ctx, size)
    a, n = acc_args(ctx, size, ws)
    ctx.assume(n >= 0)
    names = [("read_words", dict(ws=ws), 0)]
    names += {2: [("read_words", {}, 0), ("read_word", {}, 1)], 4: [("read_dwords", {}, 0), ("read_dword", {}, 1)],
              8: [("read_qwords", {}, 0), ("read_qword", {}, 1)], 1: [("read_byte", None, 1)]}.get(ws, [])
    names.append(("read_word", dict(ws=ws), 1))
    f, kw, single = names[ctx.choice(len(names))]
    if kw is None and order != "little":
        raise PathEnd("no byte order")
    if single:
        if ctx.mode == "conc":
            n = 1
        else:
            ctx.assume(n == 1)
    exp = word_bytes(lambda i: p.F(a+i), ws, order)

    def word(i):
        if ctx.mode == "conc":
            return int.from_bytes(bytes(exp(i*ws+j) for j in range(ws)), "little")
        if ws <= 1:
            return exp(i)
        return Wide(8, ws, lambda j: exp(i*ws+j))
    ctx.refs["exp"] = SSeq("list", n=n, f=word)
    ok = And(a >= 0, a < size, a+n*ws <= size)
    kw = dict(kw or {})
    if order != "little" or f != "read_byte" and ctx.choice(2):
        kw["byteorder"] = order
    kw["tag"] = 5
    exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, w, f), [a]+([] if single else [n]), kw)), ok)
    if exc:
        ctx.prove(not p.log, "a rejected access does nothing")
        return
    ctx.prove(len(p.log) == 1 and p.log[0][0] == "r", "one access")
    _k, _p, pa, pn, kws = p.log[0]
    ctx.prove(And(pa == a, pn == n*ws), "address and length")
    ctx.prove(kws == dict(tag=5), "extra arguments are passed on")
    if single:
        ctx.prove(r == word(0), "the word read, in the requested byte order")
    else:
        ctx.prove(r.n == n, "as many words as requested")
        forall(ctx, n, lambda i: r.at(i) == word(i), "the words read, in the requested byte order")


@unit(("C13", "C16"), "MemoryInterface.create_window", samples=60, covers=("raise",))
def _(ctx):
    w, p, size, off, base = window(ctx)
    a, n = acc_args(ctx, size)
    cls = (Window, WindowPool)[ctx.choice(2)]
    none = ctx.choice(3)
    kw = {}
    if none == 0:
        args = [a, n]
    elif none == 1:
        args = [a]
    else:
        args = [a, None]
    if cls is WindowPool:
        args = [a, n] if none == 0 else [a, None]
        args.append(WindowPool)
        h = []
        ctx.handlers[BuddyAllocator] = lambda s, *r: h.append(s) or Opaque("allocator")
    elif none == 0 and ctx.choice(2):
        w.fields["window_type"] = None
    whole = True if none else n <= 0
    eff = ite(whole, size-a, n)
    ok = And(a >= 0, a < size, eff >= 0, a+eff <= size)
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, w, "create_window"), args, {}), ok)
    if exc:
        return
    ctx.prove(isinstance(r, Obj) and r.cls is cls, "type of the window")
    ctx.prove(getattr_(ctx, r, "size") == eff, "a window has the requested size (or the rest)")
    ctx.prove(getattr_(ctx, r, "offset") == a, "a window starts at the requested offset")
    ctx.prove(getattr_(ctx, r, "parent") is w, "the parent of a window")
    ctx.prove(getattr_(ctx, r, "base") == base+a, "absolute base of a window")
    if cls is WindowPool:
        ctx.prove(len(h) == 1, "a pool has one allocator")
        ctx.prove(h[0] == eff, "the allocator manages exactly the pool")


@unit(("C13", "C16"), "MemoryInterface.create_window_pool", samples=60, covers=("raise",))
def _(ctx):
    w, p, size, off, base = window(ctx)
    a, n = acc_args(ctx, size)
    h = []
    ctx.handlers[BuddyAllocator] = lambda s, *r: h.append(s) or Opaque("allocator")
    which = ctx.choice(4)
    wt = None
    kw = {}
    if which == 0:
        args, ea, en = [a, n], a, n
    elif which == 1:
        args, ea, en = [a], a, size-a
    elif which == 2:
        args, ea, en = [], 0, size
    else:
        args, ea, en = [], 0, n
        kw["size"] = n
        kw["window_type"] = wt = WindowPool
    ok = And(ea >= 0, ea < size, en >= 0, ea+en <= size)
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, w, "create_window_pool"), args, kw), ok)
    if exc:
        return
    ctx.prove(isinstance(r, Obj) and r.cls is WindowPool, "type of the pool")
    ctx.prove(And(getattr_(ctx, r, "size") == en, getattr_(ctx, r, "offset") == ea, getattr_(ctx, r, "base") == base+ea), "extent of the pool")
    ctx.prove(getattr_(ctx, r, "parent") is w, "the parent of a pool")
    ctx.prove(len(h) == 1, "a pool has one allocator")
    ctx.prove(h[0] == en, "the allocator manages exactly the pool")
    ctx.prove(getattr_(ctx, r, "window_type") is (wt or Window), "type of its windows")


@unit("C13", "MemoryRegion._read/_write/items", samples=50)
def _(ctx):
    size = sym_size(ctx)
    A = ctx.fresh_int("A", 0, sample=lambda r: r.randrange(0, size))
    ctx.assume(A < size)
    fm = FlatMem(ctx, size, A, rkind=("bytes", "bytearray")[ctx.choice(2)])
    mk = []

    def h_mmap(fd, n, *a, **k):
        mk.append((fd, n))
        return fm
    ctx.handlers[mmap.mmap] = h_mmap
    if ctx.choice(2):
        m = E.call(ctx, MemoryRegion, [size], {})
        ctx.prove(len(mk) == 1 and mk[0][0] == -1, "the default store is an anonymous map")
        ctx.prove(mk[0][1] == size, "the store has the size of the region")
    else:
        m = E.call(ctx, MemoryRegion, [size], dict(mem=fm))
        ctx.prove(not mk, "no second store")
    ctx.prove(getattr_(ctx, m, "size") == size, "size")
    ctx.prove(getattr_(ctx, m, "mem") is fm, "the store is the given one")
    if ctx.mode == "conc":
        a = ctx.fresh_int("address", sample=lambda r: r.randrange(0, size))
        n = ctx.fresh_int("length", sample=lambda r: r.randrange(0, size-a+1))
    else:
        a = ctx.fresh_int("address", 0)
        n = ctx.fresh_int("length", 0)
        ctx.assume(And(a < size, a+n <= size))
    which = ctx.choice(4)
    if which == 0:
        r = E.await_(ctx, E.call(ctx, getattr_(ctx, m, "read"), [a, n], dict(tag=1)))
        ctx.prove(r.n == n, "length")
        forall(ctx, n, lambda i: r.at(i) == fm.at0(a+i), "stored bytes")
        ctx.prove(fm.now() == fm.at0(A), "a read changes nothing")
        return
    if which == 1:
        ctx.prove(E.getitem(ctx, m, a) == fm.at0(a), "index")
        r = E.getitem(ctx, m, slice(a, a+n))
        ctx.prove(r.n == n, "slice length")
        forall(ctx, n, lambda i: r.at(i) == fm.at0(a+i), "stored bytes")
        return
    data = ctx.fresh_bytes("data", n, kind=("bytes", "bytearray")[ctx.choice(2)])
    if which == 2:
        E.await_(ctx, E.call(ctx, getattr_(ctx, m, "write"), [a, data], dict(tag=1)))
    else:
        E.setitem(ctx, m, slice(a, a+n), data)
    if truth(ctx, And(a <= A, A < a+n)):
        ctx.prove(fm.now() == data.at(A-a), "written bytes are stored")
    else:
        ctx.prove(fm.now() == fm.at0(A), "other bytes are unchanged")


@unit("C13", "SparseMemoryRegion", samples=40)
def _(ctx):
    size = sym_size(ctx)
    log = []
    made = []

    class SM(Contract):
        def __init__(self):
            self.p = MemIf(ctx)

        def read(self, a, n):
            log.append(("r", a, n))
            return self.p.bytes_(a, n)

        def write(self, a, d):
            log.append(("w", a, d))

        def getitem(self, k):
            log.append(("gi", k))
            return self.p.F(k)

        def setitem(self, k, v):
            log.append(("si", k, v))
    sm = SM()
    ctx.handlers[SparseMemory] = lambda n=0: made.append(n) or sm
    w = ctx.choice(3)
    if w == 0:
        m = E.call(ctx, SparseMemoryRegion, [size], {})
        ctx.prove(len(made) == 1, "one store")
        ctx.prove(made[0] == size, "the store has the size of the region")
    elif w == 1:
        m = E.call(ctx, SparseMemoryRegion, [], {})
        ctx.prove(len(made) == 1 and made[0] == 2**64, "default size")
        size = 2**64
    else:
        m = E.call(ctx, SparseMemoryRegion, [size, sm], {})
        ctx.prove(not made, "no second store")
    ctx.prove(getattr_(ctx, m, "size") == size, "size")
    a = ctx.fresh_int("address", 0, sample=lambda r: r.randrange(0, size))
    n = ctx.fresh_int("length", 0, sample=lambda r: r.randrange(0, min(size-a, 50)+1))
    ctx.assume(And(a < size, a+n <= size))
    which = ctx.choice(4)
    if which == 0:
        r = E.await_(ctx, E.call(ctx, getattr_(ctx, m, "read"), [a, n], dict(tag=1)))
        ctx.prove(len(log) == 1 and log[0][0] == "r", "one read")
        ctx.prove(And(log[0][1] == a, log[0][2] == n, r.n == n), "the same access")
        forall(ctx, n, lambda i: r.at(i) == sm.p.F(a+i), "stored bytes")
    elif which == 1:
        data = ctx.fresh_bytes("data", n)
        E.await_(ctx, E.call(ctx, getattr_(ctx, m, "write"), [a, data], dict(tag=1)))
        ctx.prove(len(log) == 1 and log[0][0] == "w", "one write")
        d = as_seq(ctx, log[0][2])
        ctx.prove(And(log[0][1] == a, d.n == n), "the same access")
        forall(ctx, n, lambda i: d.at(i) == data.at(i), "the same data")
    elif which == 2:
        ctx.prove(E.getitem(ctx, m, a) == sm.p.F(a), "index")
    else:
        E.setitem(ctx, m, a, n)
        ctx.prove(len(log) == 1 and log[0][0] == "si", "one store")
        ctx.prove(And(log[0][1] == a, log[0][2] == n), "index assignment")


@unit(("C13", "C14"), "PeripheralRegion._read/_write", samples=40)
def _(ctx):
    size = sym_size(ctx)
    aio = ctx.choice(2)
    log = []
    src = MemIf(ctx)

    class Dev(Contract):
        """a device object: its read and write either are coroutines or plain functions"""

        def read(self, a, n, **kw):
            def go():
                log.append(("r", a, n, kw))
                return src.bytes_(a, n)
            return Aw(go) if aio else go()

        def write(self, a, d, **kw):
            def go():
                log.append(("w", a, as_seq(ctx, d).copy("bytes"), kw))
            return Aw(go) if aio else go()
    ctx.handlers[inspect.isawaitable] = lambda x: isinstance(x, (Aw, Coro))
    dev = Dev()
    m = E.call(ctx, PeripheralRegion, [dev, size], {})
    ctx.prove(getattr_(ctx, m, "size") == size, "size")
    a, n = acc_args(ctx, size)
    ctx.assume(n >= 0)
    ok = And(a >= 0, a < size, a+n <= size)
    if ctx.choice(2):
        exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, m, "read"), [a, n], dict(tag=1))), ok)
        if exc:
            ctx.prove(not log, "a rejected access does not reach the device")
            return
        ctx.prove(len(log) == 1 and log[0][0] == "r" and log[0][3] == dict(tag=1), "the device is read once")
        ctx.prove(And(log[0][1] == a, log[0][2] == n, r.n == n), "the same access")
        forall(ctx, n, lambda i: r.at(i) == src.F(a+i), "the device's data")
    else:
        data = ctx.fresh_bytes("data", n)
        exc, r = expect(ctx, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, m, "write"), [a, data], dict(tag=1))), ok)
        if exc:
            ctx.prove(not log, "a rejected access does not reach the device")
            return
        ctx.prove(len(log) == 1 and log[0][0] == "w" and log[0][3] == dict(tag=1), "the device is written once")
        ctx.prove(And(log[0][1] == a, log[0][2].n == n), "the same access")
        forall(ctx, n, lambda i: log[0][2].at(i) == data.at(i), "the same data")


# ---------------------------------------------------------------------------------------------------------------
# C14


class SpanMap:
    """arbitrary sorted list of disjoint regions overlapping a span: what find_regions returns.  V is the byte an
    absolute address maps to."""

    def __init__(self, ctx, a, n):
        self.ctx = ctx
        self.log = []
        self.a, self.n = a, n
        self.cache = {}
        if ctx.mode == "conc":
            r = ctx.rng
            self.regs = []
            pos = a-r.randrange(0, 4)
            while pos < a+n and len(self.regs) < 4:
                z = r.choice([1, 2, 5, 30])
                if pos+z > a and not (not self.regs and pos > a and r.random() < 0.8):
                    self.regs.append((pos, z, r.choice([None, 0, 3])))
                pos += z+(r.randrange(1, 4) if r.random() < 0.2 else 0)
            self.cnt = len(self.regs)
            sd = r.randrange(1 << 30)
            self.V = lambda x: ((x*2654435761+sd) >> 7) & 255
            return
        I = z3.IntSort()
        self.cnt = ctx.fresh_int("nregions", 0)
        self.B = z3.Function(ctx.fresh_name("base"), I, I)
        self.S = z3.Function(ctx.fresh_name("size"), I, I)
        self.O = z3.Function(ctx.fresh_name("off"), I, I)
        self.V = ctx._fn(z3.Function(ctx.fresh_name("V"), I, I), 8)
        k = z3.Int("spanmap_k")
        n1 = zi(smax(n, 1))
        ctx.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(self.cnt)),
                                            z3.And(self.S(k) >= 1, self.B(k) >= 0, self.B(k) < zi(a)+n1, self.B(k)+self.S(k) > zi(a))),
                            patterns=[self.B(k)]))
        ctx.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k+1 < zi(self.cnt)), self.B(k)+self.S(k) <= self.B(k+1)), patterns=[self.B(k)]))

    def lo(self, k):
        return self.regs[k][0] if self.ctx.mode == "conc" else SInt(self.B(zi(k)))

    def hi(self, k):
        return self.regs[k][0]+self.regs[k][1] if self.ctx.mode == "conc" else SInt(self.B(zi(k))+self.S(zi(k)))

    def entry(self, k):
        ctx = self.ctx
        if ctx.mode == "conc":
            b, z, o = self.regs[k]
            return (b, z, o, RegAcc(ctx, self, k, b, z, o))
        key = str(zi(k))
        if key not in self.cache:
            o = None if ctx.choice(2, "untranslated") else SInt(self.O(zi(k)))
            b, z = SInt(self.B(zi(k))), SInt(self.S(zi(k)))
            self.cache[key] = (b, z, o, RegAcc(ctx, self, k, b, z, o))
        return self.cache[key]

    def seq(self):
        if self.ctx.mode == "conc":
            return SSeq("list", items=[self.entry(k) for k in range(self.cnt)])
        return SSeq("list", n=self.cnt, f=self.entry)

    def access(self, k, b, z, o, address, length):
        """routing obligations of one region access; the span is consumed from its start"""
        ctx = self.ctx
        g = ctx.ghost
        ctx.prove(address == (g.next if o is None else g.next-b+o), "a region is accessed at its own offset of the next address")
        ctx.prove(And(g.next >= b, length >= 1, g.next+length <= b+z), "an access stays inside its region")
        ctx.prove(g.next+length <= self.a+self.n, "an access stays inside the span")
        s = g.next
        g.next = g.next+length
        g.k = k
        return s

    def reach(self):
        """where the access of region G:k must have stopped"""
        g = self.ctx.ghost
        if self.ctx.mode == "conc":
            return self.a if g.k < 0 else min(self.hi(g.k), self.a+self.n)
        return ite(g.k < 0, self.a, smin(self.hi(g.k), self.a+self.n))


class RegAcc(Contract):
    """one region of the map"""
    ephemeral = True

    def __init__(self, ctx, m, k, b, z, o):
        self.ctx, self.m, self.k, self.b, self.z, self.o = ctx, m, k, b, z, o

    def read(self, address, length, **kw):
        ctx = self.ctx

        def go():
            ctx.prove(self.m.mode == "r" and kw == dict(tag=5), "a read reads, with the extra arguments")
            s = self.m.access(self.k, self.b, self.z, self.o, address, length)
            if ctx.mode == "conc":
                return E.relabel(ctx, SSeq("bytes", items=[self.m.V(s+i) for i in range(length)]))
            return E.relabel(ctx, SSeq("bytes", n=length, f=lambda i: self.m.V(s+i), elem_bits=8))
        return Aw(go)

    def write(self, address, data, **kw):
        ctx = self.ctx

        def go():
            ctx.prove(self.m.mode == "w" and kw == dict(tag=5), "a write writes, with the extra arguments")
            d = as_seq(ctx, data)
            s = self.m.access(self.k, self.b, self.z, self.o, address, d.n)
            forall(ctx, d.n, lambda i: d.at(i) == self.m.data.at(s-self.m.a+i), "each region gets its own bytes")
        return Aw(go)


def covered(ctx, m, a, n):
    """every byte of the span is mapped (m lists every region overlapping the span)"""
    if ctx.mode == "conc":
        return all(any(b <= a+i < b+z for b, z, o in m.regs) for i in range(max(n, 1)))
    k = z3.Int("cov_k")
    cnt = zi(m.cnt)
    return SBool(z3.And(cnt >= 1, m.B(0) <= zi(a),
                        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k+1 < cnt), m.B(k)+m.S(k) == m.B(k+1)), patterns=[m.B(k)]),
                        m.B(cnt-1)+m.S(cnt-1) >= zi(a)+zi(n)))


def partial(ctx, m, a, n, go):
    """a fully mapped span is not refused (the other direction: accesses stay inside regions and a normal return has
    accessed the whole span)"""
    try:
        return False, go()
    except PyExc as e:
        ctx.prove(Not(covered(ctx, m, a, n)), "a fully mapped span is not refused")
        ctx.cover("raise")
        return True, None


@unit("C14", "AddressSpace.read", samples=80, covers=("raise",))
def _(ctx):
    a = ctx.fresh_int("address", 0, sample=lambda r: r.randrange(0, 100))
    n = ctx.fresh_int("length", 1, sample=lambda r: r.randrange(1, 40))
    m = SpanMap(ctx, a, n)
    m.mode = "r"
    ctx.ghost.next = a
    ctx.ghost.k = -1
    ctx.extra_pool["G:reach"] = m.reach
    ctx.extra_pool["G:end"] = lambda: a+n
    ctx.handlers[AddressSpace.find_regions] = lambda s, x, l=1: (ctx.prove(And(x == a, l == n), "the span is looked up"), m.seq())[1]
    sp = ctx.new_obj(AddressSpace)
    sp.fields.update(_size=1 << 64, _base=0, _parent=None)
    ctx.refs["V"] = SSeq("bytes", n=n, f=lambda i: m.V(a+i), elem_bits=8)
    exc, r = partial(ctx, m, a, n, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, sp, "read"), [a, n], dict(tag=5))))
    if exc:
        return
    ctx.prove(ctx.ghost.next == a+n, "every byte is accessed once, in order")
    ctx.prove(isinstance(r, SSeq) and r.kind == "bytes" and truth(ctx, r.n == n), "the result has the requested length")
    forall(ctx, n, lambda i: r.at(i) == m.V(a+i), "results are joined in address order")


@unit("C14", "AddressSpace.write", samples=80, covers=("raise",))
def _(ctx):
    a = ctx.fresh_int("address", 0, sample=lambda r: r.randrange(0, 100))
    n = ctx.fresh_int("length", 1, sample=lambda r: r.randrange(1, 40))
    m = SpanMap(ctx, a, n)
    m.mode = "w"
    m.data = data = ctx.fresh_bytes("data", n)
    ctx.ghost.next = a
    ctx.ghost.k = -1
    ctx.extra_pool["G:reach"] = m.reach
    ctx.extra_pool["G:end"] = lambda: a+n
    ctx.handlers[AddressSpace.find_regions] = lambda s, x, l=1: (ctx.prove(And(x == a, l == n), "the span is looked up"), m.seq())[1]
    sp = ctx.new_obj(AddressSpace)
    sp.fields.update(_size=1 << 64, _base=0, _parent=None)
    exc, r = partial(ctx, m, a, n, lambda: E.await_(ctx, E.call(ctx, getattr_(ctx, sp, "write"), [a, data], dict(tag=5))))
    if exc:
        return
    ctx.prove(ctx.ghost.next == a+n, "every byte is accessed once, in order")


def disjoint_regions(ctx, k, size):
    regs = []
    pos = 0
    for j in range(k):
        b = ctx.fresh_int("base%d" % j, 0, sample=lambda r: r.randrange(0, 60))
        z = ctx.fresh_int("size%d" % j, 1, sample=lambda r: r.choice([1, 2, 8, 20]))
        t = (None, 0, 5)[ctx.choice(3)] if j == 0 else (0, None)[ctx.choice(2)]
        for (b2, z2, _t, _r) in regs:
            ctx.assume(Or(b+z <= b2, b2+z2 <= b))
        ctx.assume(b+z <= size)
        regs.append((b, z, t, MemIf(ctx, z, name="region%d" % j)))
    return regs


@unit("C14", "AddressSpace.find_regions", quick=[dict(k=k) for k in (0, 1, 2, 3)], thorough=[dict(k=k) for k in (0, 1, 2, 3, 4)], samples=60,
      bounded="at most 3 regions (4 in the thorough tier) registered, with symbolic bases, sizes and span")
def _(ctx, k):
    size = ctx.fresh_int("space", 1, sample=lambda r: 100)
    regs = disjoint_regions(ctx, k, size)
    lst = ctx.seq("list", items=list(regs))
    sp = ctx.new_obj(AddressSpace)
    sp.fields.update(_size=size, _base=0, _parent=None, regions=lst)
    a = ctx.fresh_int("address", sample=lambda r: r.choice([-1, 100, r.randrange(0, 100), r.randrange(0, 60)]))
    n = ctx.fresh_int("length", sample=lambda r: r.choice([-1, 0, 1, 5, 90]))
    dflt = ctx.choice(2)
    if dflt:
        n = 1
    ok = And(a >= 0, a < size, n >= 0)
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, sp, "find_regions"), [a] if dflt else [a, n], {}), ok)
    ctx.prove(len(lst.items) == k and all(x is y for x, y in zip(lst.items, regs)), "looking up changes nothing")
    if exc:
        return
    ctx.prove(isinstance(r, SSeq) and r.items is not None, "a list")
    got = list(r.items)
    n = smax(n, 1)
    for e in regs:
        inside = sum(1 for x in got if x is e or isinstance(x, tuple) and len(x) == 4 and x[3] is e[3] and x[2] is e[2])
        want = And(e[0] < a+n, a < e[0]+e[1])
        ctx.prove(inside <= 1, "a region is listed once")
        ctx.prove(Iff(inside == 1, want), "exactly the regions overlapping the span are found")
    for x in got:
        ctx.prove(any(And(x[0] == e[0], x[1] == e[1]) is True for e in regs if e[3] is x[3]) if ctx.mode == "conc" else
                  Or(*[And(x[0] == e[0], x[1] == e[1]) for e in regs if e[3] is x[3]]), "an entry keeps its base and size")
    for x, y in zip(got, got[1:]):
        ctx.prove(x[0] < y[0], "regions are found in address order")


@unit("C14", "AddressSpace.register_region", quick=[dict(k=k) for k in (0, 1, 2)], thorough=[dict(k=k) for k in (0, 1, 2, 3)], samples=60, covers=("raise",),
      bounded="at most 2 regions (3 in the thorough tier) registered before, with symbolic bases and sizes")
def _(ctx, k):
    size = ctx.fresh_int("space", 1, sample=lambda r: 100)
    regs = disjoint_regions(ctx, k, size)
    lst = ctx.seq("list", items=list(regs))
    sb = ctx.fresh_int("space_base", 0)
    sp = ctx.new_obj(AddressSpace)
    sp.fields.update(_size=size, _base=sb, _parent=None, regions=lst)
    reg = ctx.new_obj(Region)
    rs = ctx.fresh_int("region_size", 1, sample=lambda r: r.choice([1, 3, 10]))
    reg.fields.update(_size=rs, _base=0, _parent=None)
    b = ctx.fresh_int("new_base", sample=lambda r: r.choice([0, 5, -1, 100, r.randrange(0, 90)]))
    args = [reg, b]
    z = rs
    off = 0
    kw = {}
    w = ctx.choice(4)
    if w == 0:
        z = ctx.fresh_int("new_size", 1, sample=lambda r: r.choice([1, 3, 10]))
        args.append(z)
    elif w == 1:
        off = ctx.fresh_int("shift", 0)
        kw["offset"] = off
    elif w == 2:
        off = None
        kw["offset"] = None
    ok = And(b >= 0, b < size)
    for e in regs:
        ok = And(ok, Or(b+z <= e[0], e[0]+e[1] <= b))
    exc, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, sp, "register_region"), args, kw), ok, label="overlapping or outside region")
    cur = getattr_(ctx, sp, "regions")
    ctx.prove(isinstance(cur, SSeq) and cur.items is not None and all(x is y for x, y in zip(cur.items, regs)), "existing regions stay registered")
    if exc:
        ctx.prove(len(cur.items) == k, "a rejected registration leaves the map unchanged")
        ctx.prove(reg.fields["_parent"] is None, "a rejected region is not adopted")
        return
    ctx.prove(len(cur.items) == k+1, "one region is added")
    e = cur.items[k]
    ctx.prove(isinstance(e, tuple) and len(e) == 4 and e[3] is reg, "the region is registered")
    ctx.prove(And(e[0] == b, e[1] == z), "at its base, with its size")
    ctx.prove((e[2] is None) if off is None else And(e[2] is not None, e[2] == off), "with its translation")
    ctx.prove(reg.fields["_parent"] is sp, "the parent of a region")
    nb = reg.fields["_base"]
    if off is None:
        ctx.prove(nb is None, "an untranslated region has no base")
    elif truth(ctx, off == 0):
        ctx.prove(nb is not None and truth(ctx, nb == sb+b), "the absolute base of a region")
    else:
        ctx.prove(nb is None, "a shifted region has no base")


# ---------------------------------------------------------------------------------------------------------------
# C16


@unit("C16", "WindowPool.__init__/alloc_window", samples=60, covers=("raise",))
def _(ctx):
    size = sym_size(ctx)
    off = ctx.fresh_int("offset", 0)
    base = ctx.fresh_int("base", 0)
    par = MemIf(ctx)
    made = []

    class Alloc(Contract):
        """contract of BuddyAllocator.alloc (C15): a block inside the range, at least as large, free until now"""

        def alloc(self, n):
            calls.append(n)
            if truth(ctx, Or(n < 1, n > size)):
                raise PyExc(ValueError("size out of range"))
            if ctx.choice(3) == 0:
                raise PyExc(Exception("out of memory"))
            a = ctx.fresh_int("block", 0, sample=lambda r: r.randrange(0, size-n+1))
            ctx.assume(a+n <= size)
            blocks.append(a)
            return a
    calls, blocks = [], []
    al = Alloc()
    ctx.handlers[BuddyAllocator] = lambda *a: made.append(a) or al
    pool = E.call(ctx, WindowPool, [par, off, size], dict(base=base))
    ctx.prove(len(made) == 1 and len(made[0]) == 1, "one allocator")
    ctx.prove(made[0][0] == size, "the allocator manages exactly the pool")
    ctx.prove(And(getattr_(ctx, pool, "size") == size, getattr_(ctx, pool, "offset") == off, getattr_(ctx, pool, "base") == base), "extent")
    n = ctx.fresh_int("n", sample=lambda r: r.choice([0, 1, size, size+1, r.randrange(1, size+1)]))
    wt = (None, Window, WindowPool)[ctx.choice(3)]
    try:
        w = E.call(ctx, getattr_(ctx, pool, "alloc_window"), [n] if wt is None else [n, wt], {})
    except PyExc as e:
        ctx.cover("raise")
        ctx.prove(not blocks, "an allocation fails only when the allocator refuses")
        return
    ctx.prove(len(calls) == 1 and len(blocks) == 1, "one block per window")
    ctx.prove(calls[0] >= n, "the block is at least as large as the window")
    ctx.prove(isinstance(w, Obj) and w.cls is (wt or Window), "type of the window")
    ctx.prove(And(getattr_(ctx, w, "offset") == blocks[0], getattr_(ctx, w, "size") == n), "the window is the allocated block")
    ctx.prove(getattr_(ctx, w, "parent") is pool, "the parent of a window")
    ctx.prove(getattr_(ctx, w, "base") == base+blocks[0], "the absolute base of a window")


@unit("C16", "Pool.__init__/alloc_region", samples=60, covers=("raise",))
def _(ctx):
    size = sym_size(ctx)
    base = ctx.fresh_int("base", 0)
    par = MemIf(ctx)
    calls, blocks, made, regd = [], [], [], []

    class Alloc(Contract):
        def alloc(self, n):
            calls.append(n)
            if truth(ctx, Or(n < 1, n > size)):
                raise PyExc(ValueError("size out of range"))
            if ctx.choice(3) == 0:
                raise PyExc(Exception("out of memory"))
            a = ctx.fresh_int("block", 0, sample=lambda r: r.randrange(0, size-n+1))
            ctx.assume(a+n <= size)
            blocks.append(a)
            return a
    ctx.handlers[BuddyAllocator] = lambda *a: made.append(a) or Alloc()
    fm = FlatMem(ctx, 1, 0)
    maps = []
    ctx.handlers[mmap.mmap] = lambda fd, n, *a: maps.append(n) or fm
    ctx.handlers[AddressSpace.register_region] = lambda s, *a, **k: regd.append((s, a, k))
    ctx.handlers[SparseMemory] = lambda n=0: maps.append(n) or Opaque("sparse")
    kw = {}
    rt0 = (None, SparseMemoryRegion)[ctx.choice(2)]
    if rt0:
        kw["region_type"] = rt0
    pool = E.call(ctx, Pool, [par, base, size], kw)
    ctx.prove(len(made) == 1 and len(made[0]) == 1, "one allocator")
    ctx.prove(made[0][0] == size, "the allocator manages exactly the pool")
    ctx.prove(And(getattr_(ctx, pool, "size") == size, getattr_(ctx, pool, "base") == base), "extent")
    ctx.prove(getattr_(ctx, pool, "regions").items == [], "a new pool is empty")
    n = ctx.fresh_int("n", sample=lambda r: r.choice([0, 1, size, size+1, r.randrange(1, size+1)]))
    rt = (None, MemoryRegion, SparseMemoryRegion)[ctx.choice(3)]
    try:
        r = E.call(ctx, getattr_(ctx, pool, "alloc_region"), [n] if rt is None else [n, rt], {})
    except PyExc:
        ctx.cover("raise")
        ctx.prove(not blocks and not regd, "an allocation that does not fit leaves the pool unchanged")
        return
    ctx.prove(len(calls) == 1 and len(blocks) == 1, "one block per region")
    ctx.prove(calls[0] >= n, "the block is at least as large as the region")
    ctx.prove(isinstance(r, Obj) and r.cls is (rt or rt0 or MemoryRegion), "type of the region")
    ctx.prove(getattr_(ctx, r, "size") == n, "size of the region")
    ctx.prove(len(regd) == 1 and regd[0][0] is pool and regd[0][1][0] is r, "the region is registered in the pool")
    a, k = regd[0][1], regd[0][2]
    ctx.prove((a[1] if len(a) > 1 else k["base"]) == blocks[0], "the region is registered at its block")
    z = a[2] if len(a) > 2 else k.get("size")
    ctx.prove(z is None or truth(ctx, z == n), "with its size")
    ctx.prove((a[3] if len(a) > 3 else k.get("offset", 0)) == 0, "translated to its own addresses")


@unit("C16", "AddressSpace.create_pool", samples=60, covers=("raise",))
def _(ctx):
    size = sym_size(ctx)
    made, regd = [], []
    ctx.handlers[BuddyAllocator] = lambda *a: made.append(a) or Opaque("allocator")
    clash = ctx.fresh_bool("overlap", 0.3)

    def h_reg(s, region, base, size=None, offset=0):
        if truth(ctx, clash):
            raise PyExc(ValueError("overlaps existing region"))
        regd.append((s, region, base, size, offset))
    ctx.handlers[AddressSpace.register_region] = h_reg
    sp = ctx.new_obj(AddressSpace)
    lst = ctx.seq("list", items=[])
    sp.fields.update(_size=size, _base=0, _parent=None, regions=lst, pool_type=Pool)
    a, n = acc_args(ctx, size)
    w = ctx.choice(3)
    if w == 0:
        args, ea, en = [a, n], a, n
    elif w == 1:
        args, ea, en = [a], a, size-a
    else:
        args, ea, en = [], 0, size
    ok = And(ea >= 0, ea < size, en >= 0, ea+en <= size, Not(clash))
    exc, p = expect(ctx, lambda: E.call(ctx, getattr_(ctx, sp, "create_pool"), args, {}), ok)
    if exc:
        ctx.prove(not regd and lst.items == [], "a rejected pool leaves the map unchanged")
        return
    ctx.prove(isinstance(p, Obj) and p.cls is Pool, "a pool")
    ctx.prove(getattr_(ctx, p, "size") == en, "size of the pool")
    ctx.prove(made and truth(ctx, made[0][0] == en), "the allocator manages exactly the pool")
    ctx.prove(len(regd) == 1 and regd[0][0] is sp and regd[0][1] is p, "the pool is registered")
    ctx.prove(And(regd[0][2] == ea, regd[0][4] == 0), "at its base")
    ctx.prove(regd[0][3] is None or truth(ctx, regd[0][3] == en), "with its size")
