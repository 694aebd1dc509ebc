"""contracts of the dependencies the functions under contract use; each is an assumption named in the evidence
(the real dependency is exercised by the concrete cross-checks)"""
from engine import *        # noqa
import engine as E


def expect(ctx, fn, ok, excs=(ValueError,), label="out-of-range access"):
    """run fn(); it must raise one of excs exactly when not ok.  Returns (raised, value)"""
    try:
        r = fn()
    except PyExc as e:
        k = e.value.cls if isinstance(e.value, Obj) else type(e.value)
        ctx.prove(issubclass(k, excs), "%s raises one of %s, not %s" % (label, [x.__name__ for x in excs], k.__name__))
        ctx.prove(Not(ok), "%s: a valid request is not rejected" % label)
        ctx.cover("raise")
        return True, None
    ctx.prove(ok, "%s raises" % label)
    return False, r


class FlatMem(Contract):
    """slice-addressable byte store of `size` bytes (mmap, bytearray, SparseMemory): contract of their slicing.

    The whole initial contents are an arbitrary function; the byte at the arbitrary address A is tracked through
    writes.  `rkind` is the type a slice read returns."""
    kinds = (object,)

    def __init__(self, ctx, size, A, rkind="bytes", fixed=True, as_type=None):
        self.ctx = ctx
        self.size = size
        self.A = A
        self.rkind = rkind
        self.fixed = fixed
        self.as_type = as_type
        self.serial = ctx.new_serial()
        self.label = ctx.new_label("mem")
        ctx.objects[self.label] = self
        self.writes = 0
        self.log = []
        if ctx.mode == "conc":
            self.d = [ctx.rng.randrange(256) for _ in range(size)]
            self.start = list(self.d)
        else:
            self.F = ctx._fn(z3.Function(ctx.fresh_name("mem"), z3.IntSort(), z3.IntSort()), 8)
            self.cell = self.F(A)
            self.dirty = False

    def isinstance(self, t):
        return self.as_type is not None and issubclass(self.as_type, t)

    def get_state(self, k):
        return getattr(self, k)

    def set_state(self, k, v):
        setattr(self, k, v)

    def at0(self, a):
        if self.ctx.mode == "conc":
            return self.start[a] if 0 <= a < len(self.start) else 0
        return self.F(a)

    def now(self):
        return self.d[self.A] if self.ctx.mode == "conc" else self.cell

    def length(self):
        return self.size

    def getitem(self, k):
        ctx = self.ctx
        if isinstance(k, slice):
            lo, n = norm_slice(ctx, self.size, k)
            if ctx.mode == "conc":
                return E.relabel(ctx, SSeq(self.rkind, items=self.d[lo:lo+n]))
            cell = self.cell
            return E.relabel(ctx, SSeq(self.rkind, n=n, f=lambda i: ite(lo+i == self.A, cell, self.F(lo+i)), elem_bits=8))
        ok = And(k >= 0, k < self.size)
        if not truth(ctx, ok):
            if truth(ctx, And(k < 0, k >= 0-self.size)):
                k = k+self.size
            else:
                raise PyExc(IndexError("index out of range"))
        return self.d[k] if ctx.mode == "conc" else ite(k == self.A, self.cell, self.F(k))

    def setitem(self, k, v):
        ctx = self.ctx
        self.writes += 1
        if isinstance(k, slice):
            lo, n = norm_slice(ctx, self.size, k)
            v = as_seq(ctx, v)
            if not v.is_bytes:
                v = E._mkbytes(ctx, "bytes", v, ())
            if not truth(ctx, v.n == n):
                if self.fixed:
                    raise PyExc(IndexError("slice assignment is wrong size"))
                raise Unsupported("store changes its size")
            src = v.copy("bytes")
        else:
            if not truth(ctx, And(k >= 0, k < self.size)):
                raise PyExc(IndexError("index out of range"))
            lo, n = k, 1
            src = SSeq("bytes", items=[v])
        if ctx.mode == "conc":
            self.d[lo:lo+n] = [src.at(i) for i in range(n)]
            return
        ctx.note_write(self, "cell")
        self.cell = ite(And(lo <= self.A, self.A < lo+n), src.at(self.A-lo), self.cell)


def forall(ctx, n, p, label):
    """p(i) for every 0 <= i < n"""
    if ctx.mode == "conc":
        for i in range(n):
            ctx.prove(p(i), label)
        return
    i = ctx.fresh_int("sk_all", 0)
    if isinstance(n, int) and n <= 0:
        return
    if not ctx.valid(i < n):
        if not ctx.feasible(zb(i < n)):
            return
        # the obligation is stated under the bound, without excluding the rest of the path
        ctx.prove(Implies(And(i >= 0, i < n), p(i)), label)
        return
    ctx.prove(p(i), label)
