"""C15: representation invariant of BuddyAllocator.

The managed range is [0, 2^K), tiled by blocks; every block is in exactly one free list or allocated.  For an arbitrary
address T the invariant is the owner of T: (kind, level) with kind 0 = held by the running operation, 1 = in free list
`level`, 2 = allocated with bucket `level`; its block is the aligned block of that level around T.  Two arbitrary
addresses are followed so that the second invariant, no block is free together with its buddy, can be stated."""
from engine import *        # noqa
import engine as E
from unit import unit
from contracts import *       # noqa
from cocotbext.axi.buddy_allocator import BuddyAllocator


class Track:
    """the owner of an arbitrary address"""

    def __init__(self, st, name):
        ctx = st.ctx
        self.T = ctx.fresh_int(name, 0, (1 << st.K)-1)
        self.kind = ctx.fresh_int(name+"_kind", 1, 2)
        self.lvl = ctx.fresh_int(name+"_lvl", 0, st.K)
        self.kind0, self.lvl0 = self.kind, self.lvl
        self.base = [self.T-self.T % (1 << j) for j in range(st.K+1)]

    def inside(self, x, b):
        return And(x <= self.T, self.T < x+(1 << b))

    def is_(self, kind, b):
        return And(self.kind == kind, self.lvl == b)

    def block(self):
        r = self.base[-1]
        for j in range(len(self.base)-2, -1, -1):
            r = ite(self.lvl == j, self.base[j], r)
        return r


class State:
    def __init__(self, ctx, K):
        self.ctx, self.K = ctx, K
        self.tracks = [Track(self, "T"), Track(self, "U")]

    def legal(self, x, b):
        return And(x >= 0, x+(1 << b) <= (1 << self.K), x % (1 << b) == 0)

    def member(self, x, kind, b, yes=True):
        """knowledge that block (x, b) is (not) owned as `kind`"""
        ctx = self.ctx
        if yes:
            ctx.assume(self.legal(x, b))
        for t in self.tracks:
            i = t.inside(x, b)
            if yes:
                ctx.assume(Implies(i, t.is_(kind, b)))
            else:
                ctx.assume(Not(And(t.is_(kind, b), t.base[b] == x)))

    def take(self, x, b):
        for t in self.tracks:
            i = t.inside(x, b)
            t.kind = ite(i, 0, t.kind)

    def give(self, x, kind, b, what):
        ctx = self.ctx
        ctx.prove(self.legal(x, b), what+" is an aligned block of the range")
        for t in self.tracks:
            i = t.inside(x, b)
            ctx.prove(Implies(i, t.kind == 0), what+" overlaps no other block")
            t.kind = ite(i, kind, t.kind)
            t.lvl = ite(i, b, t.lvl)

    def buddies_ok(self):
        t, u = self.tracks
        c = True
        for j in range(self.K):
            c = And(c, Not(And(t.is_(1, j), u.is_(1, j), t.base[j+1] == u.base[j+1], t.base[j] != u.base[j])))
        return c

    def coherent(self):
        """two addresses of one block have one owner"""
        t, u = self.tracks
        c = True
        for j in range(self.K+1):
            c = And(c, Implies(And(t.lvl == j, t.base[j] == u.base[j]), And(u.lvl == j, u.kind == t.kind)))
            c = And(c, Implies(And(u.lvl == j, t.base[j] == u.base[j]), And(t.lvl == j, u.kind == t.kind)))
        return c


class FreeList(Contract):
    def __init__(self, st, b):
        self.st, self.b, self.ctx = st, b, st.ctx
        self.held = []

    def getmember(self):
        x = self.ctx.fresh_int("free%d" % self.b, 0)
        self.st.member(x, 1, self.b)
        return x

    def comp(self, at, filtered):
        return Filter(self, at)

    def contains(self, x):
        ctx = self.ctx
        if ctx.choice(2, "in free list"):
            self.st.member(x, 1, self.b)
            return True
        self.st.member(x, 1, self.b, False)
        return False

    def remove(self, x):
        ctx = self.ctx
        # list.remove raises for a non-member: membership must follow from what the path established
        ctx.prove(self.known(x), "only a member is removed from a free list")
        self.st.take(x, self.b)

    def known(self, x):
        # x was returned by next() or found by `in`: both are recorded here
        return any(x is y for y in self.members)

    members = ()

    def append(self, x):
        self.st.give(x, 1, self.b, "a freed block")


class Filter(Contract):
    def __init__(self, fl, at):
        self.fl, self.at = fl, at

    def next_(self, *d):
        fl = self.fl
        ctx = fl.ctx
        if ctx.choice(2, "free list has a match"):
            x = fl.getmember()
            ctx.assume(self.at(x, "if"))
            fl.members = fl.members+(x,)
            v = self.at(x, "elt")
            fl.members = fl.members+(v,)
            return v
        for t in fl.st.tracks:
            hit = t.is_(1, fl.b)
            ctx.assume(Not(And(hit, self.at(t.base[fl.b], "if"))))
        if d:
            return d[0]
        raise PyExc(StopIteration())


class Allocs(Contract):
    def __init__(self, st):
        self.st, self.ctx = st, st.ctx
        self.last = None

    def contains(self, a):
        ctx = self.ctx
        for (x, r) in self.log:
            if x is a:
                return r
        if ctx.choice(2, "allocated"):
            b = ctx.choice(self.st.K+1)
            self.st.member(a, 2, b)
            self.b = b
            self.log.append((a, True))
            return True
        for t in self.st.tracks:
            for b in range(self.st.K+1):
                ctx.assume(Not(And(t.is_(2, b), t.base[b] == a)))
        self.log.append((a, False))
        return False

    log = None

    def pop(self, a, *d):
        if not self.contains(a):
            if d:
                return d[0]
            raise PyExc(KeyError("addr"))
        self.log = [(x, r) for x, r in self.log if x is not a]
        self.st.take(a, self.b)
        return self.b

    def getitem(self, a):
        if not self.contains(a):
            raise PyExc(KeyError("addr"))
        return self.b

    def get(self, a, d=None):
        return self.b if self.contains(a) else d

    def setitem(self, a, b):
        ctx = self.ctx
        b = ctx.concretize(b) if isinstance(b, SInt) else b
        ctx.prove(0 <= b <= self.st.K, "a bucket exists")
        self.st.give(a, 2, b, "an allocated block")


def fl_contains(self, x):
    ctx = self.ctx
    if ctx.choice(2, "in free list"):
        self.st.member(x, 1, self.b)
        self.members = self.members+(x,)
        return True
    self.st.member(x, 1, self.b, False)
    return False


FreeList.contains = fl_contains


def make(ctx, K):
    lo = (1 << K-1)+1 if K else 1
    if ctx.mode == "conc":
        size = ctx.fresh_int("size", lo, 1 << K, sample=lambda r: r.randint(lo, 1 << K))
        ma = ctx.fresh_int("min_alloc", 1, size, sample=lambda r: r.choice([1, 1, min(size, 2), min(size, 3), size]))
        real = BuddyAllocator(size, ma)
        live = []
        for _ in range(ctx.rng.randrange(0, 12)):
            try:
                if live and ctx.rng.random() < 0.4:
                    real.free(live.pop(ctx.rng.randrange(len(live))))
                else:
                    live.append(real.alloc(ctx.rng.randint(1, max(1, size//ctx.rng.choice([1, 2, 8])))))
            except Exception:
                pass
        o = ctx.new_obj(BuddyAllocator)
        o.fields.update(size=size, min_alloc=ma, free_lists=ctx.seq("list", items=[ctx.seq("list", items=list(x)) for x in real.free_lists]),
                        allocations=E.SDict(ctx, [[k, v] for k, v in real.allocations.items()]))
        return o, None, size, ma
    size = ctx.fresh_int("size", lo, 1 << K)
    ma = ctx.fresh_int("min_alloc", 1)
    ctx.assume(ma <= size)
    st = State(ctx, K)
    ctx.assume(st.buddies_ok())
    ctx.assume(st.coherent())
    o = ctx.new_obj(BuddyAllocator)
    al = Allocs(st)
    al.log = []
    o.fields.update(size=size, min_alloc=ma, free_lists=SSeq("list", items=[FreeList(st, b) for b in range(K+1)]), allocations=al)
    return o, st, size, ma


def conc_blocks(ctx, o):
    """the tiling, from the real lists"""
    out = {}
    fl = getattr_(ctx, o, "free_lists")
    for b, l in enumerate(fl.items):
        for x in l.items:
            ctx.prove(x not in out, "blocks overlap no other block")
            out[x] = (1, b)
    for k, v in getattr_(ctx, o, "allocations").items_:
        ctx.prove(k not in out, "blocks overlap no other block")
        out[k] = (2, v)
    pos = 0
    top = 1 << (len(fl.items)-1)
    while pos < top:
        ctx.prove(pos in out, "no space is lost")
        k, b = out[pos]
        ctx.prove(pos % (1 << b) == 0, "blocks are aligned")
        if k == 1 and b < len(fl.items)-1:
            ctx.prove(out.get(pos ^ (1 << b)) != (1, b), "no two buddies are both free")
        pos += 1 << b
    ctx.prove(pos == top, "blocks overlap no other block")
    return out


def level_of(ctx, n, K):
    for j in range(K+1):
        if truth(ctx, n <= (1 << j)):
            return j
    return None


KQ = [dict(K=k) for k in range(0, 7)]
KT = [dict(K=k) for k in range(0, 11)]
FQ = [dict(K=k) for k in range(0, 6)]
FT = [dict(K=k) for k in range(0, 8)]


@unit("C15", "BuddyAllocator.alloc", quick=KQ, thorough=KT, samples=60,
      bounded="managed size up to 2**5 (2**7 in the thorough tier); any size below, any state reachable by any history")
def _(ctx, K):
    ctx.unroll_while = 2*K+3
    o, st, size, ma = make(ctx, K)
    n = ctx.fresh_int("n", sample=lambda r: r.choice([0, -1, size, size+1, r.randint(1, size), r.randint(1, size)]))
    before = conc_blocks(ctx, o) if st is None else None
    if st is None:
        # lists are shared: remember their contents
        before = dict(before)
    try:
        r = E.call(ctx, getattr_(ctx, o, "alloc"), [n], {})
    except PyExc as e:
        ctx.cover("raise")
        if st is None:
            ctx.prove(conc_blocks(ctx, o) == before, "a refused allocation changes nothing")
            if 1 <= n <= size:
                ctx.prove(not any(k == 1 and (1 << b) >= max(n, ma) and x+n <= size for x, (k, b) in before.items()), "an allocation that fits is not refused")
            return
        for t in st.tracks:
            ctx.prove(And(t.kind == t.kind0, t.lvl == t.lvl0), "a refused allocation changes nothing")
        if truth(ctx, And(n >= 1, n <= size)):
            j = level_of(ctx, smax(n, ma), K)
            t = st.tracks[0]
            ctx.prove(Not(And(t.kind == 1, t.lvl >= j, t.block()+n <= size)), "an allocation that fits is not refused")
        return
    ctx.cover("alloc")
    ctx.prove(And(n >= 1, n <= size), "an impossible size is refused")
    ctx.prove(And(r >= 0, r+n <= size), "a block lies inside the managed range")
    j = level_of(ctx, smax(n, ma), K)
    ctx.prove(j is not None, "the block size exists")
    ctx.prove(r % (1 << j) == 0, "a block is aligned to its size")
    if st is None:
        after = conc_blocks(ctx, o)
        ctx.prove(after.get(r) == (2, j), "the block is allocated at its size")
        ctx.prove({k: v for k, v in before.items() if v[0] == 2} == {k: v for k, v in after.items() if v[0] == 2 and k != r}, "other allocations are unchanged")
        return
    ctx.prove(st.buddies_ok(), "no two buddies are both free")
    for t in st.tracks:
        ctx.prove(t.kind != 0, "no space is lost")
        ins = t.inside(r, j)
        ctx.prove(Implies(ins, And(t.kind0 == 1, t.is_(2, j))), "the block was free and is allocated at its size")
        ctx.prove(Implies(And(Not(ins), t.kind0 == 2), And(t.kind == 2, t.lvl == t.lvl0)), "other allocations are unchanged")
        ctx.prove(Implies(And(Not(ins), t.kind0 == 1), t.kind == 1), "the rest stays free")


@unit("C15", "BuddyAllocator.free", quick=FQ, thorough=FT, samples=60, covers=("raise",),
      bounded="managed size up to 2**5 (2**7 in the thorough tier); any size below, any state reachable by any history")
def _(ctx, K):
    ctx.unroll_while = 2*K+3
    o, st, size, ma = make(ctx, K)
    if st is None:
        before = dict(conc_blocks(ctx, o))
        live = [x for x, v in before.items() if v[0] == 2]
        a = ctx.fresh_int("addr", sample=lambda r: r.choice(live) if live and r.random() < 0.8 else r.randrange(-1, size+2))
        was = before.get(a, (0, 0))[0] == 2
    else:
        a = ctx.fresh_int("addr")
        was = contains(ctx, o.fields["allocations"], a)
        j = o.fields["allocations"].b if was else None
    try:
        E.call(ctx, getattr_(ctx, o, "free"), [a], {})
    except PyExc as e:
        ctx.cover("raise")
        ctx.prove(not was, "a live block can be freed")
        if st is None:
            ctx.prove(conc_blocks(ctx, o) == before, "a refused free changes nothing")
            return
        for t in st.tracks:
            ctx.prove(And(t.kind == t.kind0, t.lvl == t.lvl0), "a refused free changes nothing")
        return
    ctx.prove(was, "an address that is not a live block is refused")
    if st is None:
        after = conc_blocks(ctx, o)
        ctx.prove({k: v for k, v in before.items() if v[0] == 2 and k != a} == {k: v for k, v in after.items() if v[0] == 2}, "other allocations are unchanged")
        return
    ctx.prove(st.buddies_ok(), "no two buddies are both free")
    for t in st.tracks:
        ctx.prove(t.kind != 0, "no space is lost")
        ins = t.inside(a, j)
        ctx.prove(Implies(Or(ins, t.kind0 == 1), t.kind == 1), "the freed block and all free space are free")
        ctx.prove(Implies(And(Not(ins), t.kind0 == 2), And(t.kind == 2, t.lvl == t.lvl0)), "other allocations are unchanged")


@unit("C15", "BuddyAllocator.__init__", quick=[dict(K=k) for k in range(0, 13)], thorough=[dict(K=k) for k in range(0, 65)], samples=8,
      bounded="managed size up to 2**12 (2**64 in the thorough tier)")
def _(ctx, K):
    lo = (1 << K-1)+1 if K else 1
    size = ctx.fresh_int("size", lo, 1 << K, sample=lambda r: r.randint(lo, 1 << K))
    ma = ctx.fresh_int("ma", 1, sample=lambda r: r.randint(1, 9))
    w = ctx.choice(2)
    o = E.call(ctx, BuddyAllocator, [size, ma] if w else [size], {})
    fl = getattr_(ctx, o, "free_lists")
    ctx.prove(fl.n == K+1, "one free list per block size up to the range")
    for b, l in enumerate(fl.items):
        ctx.prove(list(l.items) == ([0] if b == K else []), "at first the whole range is one free block")
    ctx.prove(E._len(ctx, getattr_(ctx, o, "allocations")) == 0, "nothing is allocated at first")
    ctx.prove(And(getattr_(ctx, o, "size") == size, getattr_(ctx, o, "min_alloc") == (ma if w else 1)), "parameters")
