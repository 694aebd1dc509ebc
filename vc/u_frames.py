"""C17: AXI stream frames"""
from engine import *        # noqa
import engine as E
from cocotb.triggers import Event
from unit import unit
from contracts import *       # noqa
from cocotbext.axi.axis import AxiStreamFrame


def fresh_list(ctx, name, n, bits=8):
    s = ctx.fresh_bytes(name, n, "list", bits)
    return E.relabel(ctx, s)


def side(ctx, name, n, free_len=True):
    """a side-band as a user gives it: missing, one value, or a non-empty list"""
    w = ctx.choice(4)
    if w == 0:
        return None, "none", None
    if w == 1:
        v = ctx.fresh_int(name, 0, 255)
        return v, "int", v
    if w == 2:
        v = ctx.fresh_bool(name)
        return v, "int", v
    m = ctx.fresh_int(name+"_len", 1, sample=lambda r: max(1, r.choice([n, n, r.randint(1, 6)]) if isinstance(n, int) else 1))
    s = fresh_list(ctx, name, m)
    return s, "list", SSeq("tuple", items=list(s.items)) if s.items is not None else SSeq("tuple", n=s._n, f=s.f)


def data(ctx, name="data"):
    n = ctx.fresh_int(name+"_n", 0, sample=lambda r: r.choice([0, 1, 2, 3, 5]))
    w = ctx.choice(3)
    s = ctx.fresh_bytes(name, n, ("bytes", "bytearray", "list")[w])
    if w:
        s = E.relabel(ctx, s)
    return s, n, ("bytes", "bytearray", "list")[w]


def frozen(s):
    return SSeq("tuple", items=list(s.items)) if s.items is not None else SSeq("tuple", n=s._n, f=s.f)


def same_seq(ctx, a, b, label):
    ctx.prove(isinstance(a, SSeq), label+": is a list")
    ctx.prove(a.n == b.n, label+": length")
    forall(ctx, b.n, lambda i: a.at(i) == b.at(i), label+": entries")


def same_side(ctx, got, kind, want, label):
    if kind == "none":
        ctx.prove(got is None, label+": stays missing")
    elif kind == "int":
        ctx.prove(isinstance(got, (int, SInt, SBool)), label+": stays one value")
        ctx.prove(E.equal(ctx, toint(got), toint(want)), label+": value")
        ctx.prove(isinstance(got, (bool, SBool)) == isinstance(want, (bool, SBool)), label+": type")
    else:
        same_seq(ctx, got, want, label)


NAMES = ("tid", "tdest", "tuser")


@unit("C17", "AxiStreamFrame.__init__", samples=60)
def _(ctx):
    d, n, kind = data(ctx)
    d0 = frozen(d)
    kw, want = {}, {}
    one = ctx.choice(4)
    for k, nm in enumerate(("tkeep",)+NAMES):
        if k == one:
            v, kd, ref = side(ctx, nm, n)
            if nm == "tkeep" and kd == "int":
                v, kd, ref = None, "none", None
            kw[nm] = v
        else:
            kd, ref = "none", None
        want[nm] = (kd, ref)
    tc = ctx.choice(2)
    cb = Contract()
    if tc:
        kw["tx_complete"] = cb
    f = E.call(ctx, AxiStreamFrame, [d], kw)
    td = getattr_(ctx, f, "tdata")
    ctx.prove(isinstance(td, SSeq) and td.kind == ("list" if kind == "list" else "bytearray"), "byte data is a bytearray, other data a list")
    same_seq(ctx, td, d0, "data")
    ctx.prove(td is not d, "the frame owns its data")
    for nm in want:
        same_side(ctx, getattr_(ctx, f, nm), want[nm][0], want[nm][1], nm)
    ctx.prove(getattr_(ctx, f, "tx_complete") is (cb if tc else None), "completion notification")
    ctx.prove(getattr_(ctx, f, "sim_time_start") is None and getattr_(ctx, f, "sim_time_end") is None, "no times yet")


def frame(ctx, name="f", sides=None, kinds=("bytearray", "list")):
    o = ctx.new_obj(AxiStreamFrame)
    n = ctx.fresh_int(name+"_n", 0, sample=lambda r: r.choice([0, 1, 2, 3, 5]))
    k = kinds[ctx.choice(len(kinds))]
    d = E.relabel(ctx, ctx.fresh_bytes(name+"_data", n, k))
    want = {}
    o.fields.update(tdata=d, tkeep=None, tid=None, tdest=None, tuser=None, sim_time_start=None, sim_time_end=None, tx_complete=None)
    for nm in sides if sides is not None else ("tkeep",)+NAMES:
        v, kd, ref = side(ctx, name+"_"+nm, n)
        if nm == "tkeep" and kd == "int":
            v, kd, ref = None, "none", None
        o.fields[nm] = v
        want[nm] = (kd, ref)
    for nm in ("tkeep",)+NAMES:
        want.setdefault(nm, ("none", None))
    return o, n, frozen(d), want


@unit("C17", "AxiStreamFrame copy", samples=60)
def _(ctx):
    which = ("tkeep",)+NAMES
    o, n, d0, want = frame(ctx, sides=(which[ctx.choice(4)],))
    t0, t1, cb = Contract(), Contract(), Contract()
    o.fields.update(sim_time_start=t0, sim_time_end=t1, tx_complete=cb)
    new = Contract() if ctx.choice(2) else None
    f = E.call(ctx, AxiStreamFrame, [o]+([None]*4 if new is None and ctx.choice(2) else []), dict(tx_complete=new) if new else {})
    td = getattr_(ctx, f, "tdata")
    ctx.prove(td is not o.fields["tdata"] and td.kind == o.fields["tdata"].kind, "the copy owns its data")
    same_seq(ctx, td, d0, "data")
    for nm in which:
        got = getattr_(ctx, f, nm)
        same_side(ctx, got, want[nm][0], want[nm][1], nm)
        if want[nm][0] == "list":
            ctx.prove(got is not o.fields[nm], "the copy owns its side-bands")
    ctx.prove(getattr_(ctx, f, "sim_time_start") is t0 and getattr_(ctx, f, "sim_time_end") is t1, "times are copied")
    ctx.prove(getattr_(ctx, f, "tx_complete") is (new or cb), "completion notification")


@unit("C17", "AxiStreamFrame.normalize", quick=[dict(nm=x) for x in ("tkeep",)+NAMES], samples=60)
def _(ctx, nm):
    o, n, d0, want = frame(ctx, sides=(nm,))
    E.call(ctx, getattr_(ctx, o, "normalize"), [], {})
    same_seq(ctx, getattr_(ctx, o, "tdata"), d0, "data is unchanged")
    for x in ("tkeep",)+NAMES:
        kd, ref = want[x]
        s = getattr_(ctx, o, x)
        dflt = 1 if x == "tkeep" else 0
        ctx.prove(isinstance(s, SSeq) and s.kind == "list", "a normalized side-band is a list")
        ctx.prove(s.n == n, "one entry per data byte")
        if kd == "none":
            forall(ctx, n, lambda i: s.at(i) == dflt, "a missing side-band gets its default")
        elif kd == "int":
            forall(ctx, n, lambda i: E.equal(ctx, toint(s.at(i)), toint(ref)), "one value is replicated")
        else:
            forall(ctx, n, lambda i: s.at(i) == ref.at(smin(i, ref.n-1)), "a list is cut, or extended with its last value")


def differs(ctx, s):
    if ctx.mode == "conc":
        return any(x != s.items[0] for x in s.items)
    c = z3.Int(ctx.fresh_name("some"))
    return SBool(z3.Exists([c], z3.And(c >= 0, c < zi(s.n), zi(s.at(SInt(c))) != zi(s.at(0)))))


def all_eq(ctx, n, p):
    if ctx.mode == "conc":
        return all(p(i) for i in range(n))
    c = z3.Int(ctx.fresh_name("each"))
    return SBool(z3.ForAll([c], z3.Implies(z3.And(c >= 0, c < zi(n)), zb(p(SInt(c))))))


@unit("C17", "AxiStreamFrame.compact", quick=[dict(keep=k, lists=l, follow=f) for k in (0, 1) for l in range(8) for f in (0, 1)], samples=60)
def _(ctx, keep, lists, follow):
    o = ctx.new_obj(AxiStreamFrame)
    n = ctx.fresh_int("n", 0, sample=lambda r: r.choice([0, 1, 2, 3, 5, 8]))
    d = E.relabel(ctx, ctx.fresh_bytes("data", n, ("bytearray", "list")[ctx.choice(2)]))
    tk = fresh_list(ctx, "keep", n if keep else 0, 1)
    ls = {}
    for k, nm in enumerate(NAMES):
        ls[nm] = fresh_list(ctx, nm, n if lists >> k & 1 else 0, 1)
    o.fields.update(tdata=d, tkeep=tk, tid=ls["tid"], tdest=ls["tdest"], tuser=ls["tuser"], sim_time_start=None, sim_time_end=None, tx_complete=None)
    ref = {k: frozen(v) for k, v in dict(ls, tdata=d).items()}
    tk0 = frozen(tk)
    if ctx.mode == "sym":
        CNT = z3.Function(ctx.fresh_name("kept_from"), z3.IntSort(), z3.IntSort())

        def cnt(j):
            # number of kept bytes at or after j
            ctx.axiom(z3.And(CNT(zi(j)) >= 0, CNT(zi(j)) <= zi(n)-zi(j)))
            ctx.axiom(CNT(zi(j)+1) >= 0)
            ctx.axiom(z3.Implies(zi(j) >= zi(n), CNT(zi(j)) == 0))
            ctx.axiom(z3.Implies(z3.And(zi(j) >= 0, zi(j) < zi(n)), CNT(zi(j)) == CNT(zi(j)+1)+z3.If(zi(tk0.at(j)) != 0, 1, 0)))
            return SInt(CNT(zi(j)))
    else:
        def cnt(j):
            return sum(1 for x in tk0.items[max(j, 0):] if x)
    # an arbitrary kept byte
    T = None
    if follow:
        ctx.assume(n > 0)
        T = ctx.fresh_int("T", 0, sample=lambda r: r.choice([i for i in range(n) if not keep or tk0.at(i)] or [0]))
        ctx.assume(T < n)
        if keep:
            ctx.assume(tk0.at(T) != 0)

    def pos(k):
        if not keep:
            return T
        # counting is monotone
        ctx.axiom(Implies(k <= T, cnt(k) >= cnt(T)))
        return ite(T < k, T, k+cnt(k)-cnt(T))
    if keep:
        ctx.extra_pool["G:bound"] = lambda t: None if t is None else n-t
        ctx.extra_pool["G:len"] = lambda t: None if t is None else (n-t)+cnt(n-t)
        if T is not None:
            def cellp(nm):
                def f(t):
                    if t is None:
                        return None
                    p = pos(n-t)
                    s = o.fields[nm]
                    return s.at(p) if isinstance(s, SSeq) else None
                return f
            for nm in ["tdata"]+[x for i, x in enumerate(NAMES) if lists >> i & 1]:
                ctx.extra_pool["G:cell_"+nm] = cellp(nm)
                setattr(ctx.ghost, "val_"+nm, ref[nm].at(T))
    # keep list: entries before the current position are the original ones
    ctx.refs["keep"] = tk0
    E.call(ctx, getattr_(ctx, o, "compact"), [], {})
    total = cnt(0) if keep else n
    td = getattr_(ctx, o, "tdata")
    ctx.prove(getattr_(ctx, o, "tkeep") is None, "the keep list is removed")
    ctx.prove(td.n == total, "exactly the bytes marked in the keep list stay")
    for i, nm in enumerate(NAMES):
        s = getattr_(ctx, o, nm)
        if lists >> i & 1:
            ctx.prove(total == 0 if s is None else total != 0, "an empty side-band is dropped")
            if isinstance(s, SSeq):
                ctx.prove(differs(ctx, s), "a constant side-band is collapsed")
    if T is None:
        return
    p = (cnt(0)-cnt(T)) if keep else T
    ctx.prove(td.at(p) == ref["tdata"].at(T), "kept bytes stay in order")
    for i, nm in enumerate(NAMES):
        s = getattr_(ctx, o, nm)
        if not lists >> i & 1:
            ctx.prove(s is None, "a missing side-band stays missing")
        elif isinstance(s, SSeq):
            ctx.prove(s.n == total, "a side-band keeps one entry per byte")
            ctx.prove(s.at(p) == ref[nm].at(T), "side-band entries stay with their bytes")
        else:
            ctx.prove(s is not None and truth(ctx, E.equal(ctx, s, ref[nm].at(T))), "a constant side-band is one value")
    ctx.cover("kept")


def sides_agree(ctx, a, b):
    """agreement of two side-bands: (kind, value)"""
    if a[0] == "none" or b[0] == "none":
        return True
    if a[0] == "int" and b[0] == "int":
        return E.equal(ctx, toint(a[1]), toint(b[1]))
    if a[0] == "list" and b[0] == "list":
        return And(a[1].n == b[1].n, all_eq(ctx, a[1].n, lambda i: a[1].at(i) == b[1].at(i)))
    if a[0] == "list":
        a, b = b, a
    return all_eq(ctx, b[1].n, lambda i: E.equal(ctx, toint(a[1]), b[1].at(i)))


@unit("C17", "AxiStreamFrame.__eq__", quick=[dict(nm=x) for x in ("tkeep",)+NAMES], samples=150)
def _(ctx, nm):
    a, n, d0, wa = frame(ctx, "a", sides=(nm,), kinds=("bytearray", "list"))
    if ctx.mode == "conc" and ctx.rng.random() < 0.7:
        # mostly equal frames
        b = ctx.new_obj(AxiStreamFrame)
        b.fields.update(a.fields)
        b.fields["tdata"] = ctx.seq(a.fields["tdata"].kind, items=list(a.fields["tdata"].items))
        wb = dict(wa)
        e0 = d0
        if wa[nm][0] == "int" and ctx.rng.random() < 0.5:
            it = [toint(wa[nm][1])]*ctx.rng.randint(1, 4)
            if ctx.rng.random() < 0.3:
                it[ctx.rng.randrange(len(it))] ^= 1
            b.fields[nm] = ctx.seq("list", items=it)
            wb[nm] = ("list", SSeq("tuple", items=list(it)))
        if ctx.rng.random() < 0.5:
            a, b, wa, wb = b, a, wb, wa
    else:
        b, m, e0, wb = frame(ctx, "b", sides=(nm,), kinds=("bytearray", "list"))
    v = next((toint(w[nm][1]) for w in (wa, wb) if w[nm][0] == "int"), 0)
    ctx.refs["v"] = SSeq("list", n=1 << 60, f=lambda i: v)
    ctx.extra_pool["G:bound"] = lambda t: t
    ctx.quantified = True
    ka, kb = a.fields["tdata"].kind, b.fields["tdata"].kind
    r = E.call(ctx, getattr_(ctx, a, "__eq__"), [b], {})
    data = False if ka != kb else And(d0.n == e0.n, all_eq(ctx, d0.n, lambda i: d0.at(i) == e0.at(i)))
    want = And(data, sides_agree(ctx, wa[nm], wb[nm]))
    if truth(ctx, r):
        ctx.cover("equal")
        ctx.prove(want, "frames that compare equal agree")
    else:
        ctx.cover("differ")
        ctx.prove(Not(want), "frames that agree compare equal")


@unit("C17", "AxiStreamFrame.__eq__ other", samples=4)
def _(ctx):
    a, n, d0, wa = frame(ctx, "a", sides=())
    r = E.call(ctx, getattr_(ctx, a, "__eq__"), [(3, None, SSeq("list", items=[]))[ctx.choice(3)]], {})
    ctx.prove(Not(r), "a frame never equals another kind of object")
