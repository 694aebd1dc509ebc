"""Loop rule with inferred invariants.

A loop whose trip count is not a small constant is cut: state written by the body is replaced by arbitrary
values satisfying the invariant, one arbitrary iteration is executed, and the invariant is re-established.
Invariant candidates come from concrete runs of the same code (affine relations, orderings, element-wise
relations between sequences); the solver keeps the largest inductive subset (Houdini).  A candidate is
never trusted: it is checked on entry and for an arbitrary iteration on every run."""
import ast
import os
import enum
import fractions

import numpy as np
import z3

import engine as E
from engine import *        # noqa
from values import CTX
import values as V

MAXROWS = 300


# ---- kinds --------------------------------------------------------------------------------------

def kind_of(v):
    if isinstance(v, E.Lazy):
        return ("undef",)
    if v is None:
        return ("none",)
    if v is UNDEF:
        return ("undef",)
    if isinstance(v, (bool, SBool)):
        return ("bool",)
    if isinstance(v, enum.Enum) and not isinstance(v, int):
        return ("const", v)
    if isinstance(v, SInt):
        return ("int", v.bits)
    if isinstance(v, Wide):
        return ("wide", v.g, v.lanes)
    if isinstance(v, int):
        if v >= 0 and v.bit_length() <= 128:
            return ("int", v.bit_length())
        if v >= 0:
            return ("int", v.bit_length())
        return ("int", None)
    if isinstance(v, SSeq):
        ek = None
        if v.items is not None:
            for x in v.items:
                k = kind_of(x)
                ek = k if ek is None else join1(ek, k)
        else:
            ek = getattr(v, "elem_kind", None)
            if ek is None:
                if v.elem_bits is not None:
                    ek = ("int", v.elem_bits)
                else:
                    try:
                        ek = kind_of(v.f(SInt(z3.Int("probe!kind"))))
                    except Unsupported:
                        ek = ("int", None)
        if v.is_bytes:
            ek = ("int", 8)
        return ("seq", v.kind, ek)
    if isinstance(v, str) and CTX[0].strings:
        return ("seq", "str", ("int", 21))
    if isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0] in ("intm", "seqm", "dictm")):
        return ("tuple", type(v), tuple(kind_of(x) for x in v))
    if isinstance(v, Obj):
        return ("obj", v)
    if isinstance(v, Contract) and getattr(v, "ephemeral", False):
        return ("stale",)
    if isinstance(v, Contract) and hasattr(v, "vargs"):
        # an immutable value given by numbers
        return ("val", v.vkind(), len(v.vargs()))
    return ("const", v)


def join1(a, b):
    """single joined kind of two kinds of the same family"""
    if a == b:
        return a
    if a[0] == "int" and b[0] == "int":
        return ("int", None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if {a[0], b[0]} == {"int", "bool"}:
        return a if a[0] == "int" else b
    if a[0] == "wide" and b[0] == "int":
        return ("wide", a[1], a[2] if (b[1] is not None and a[2] is not None and b[1] <= a[1]*a[2]) else None)
    if a[0] == "int" and b[0] == "wide":
        return join1(b, a)
    if a[0] == "wide" and b[0] == "wide":
        g = a[1] if a[1] == b[1] else None
        if g is None:
            raise Unsupported("granularity join")
        return ("wide", g, None if a[2] is None or b[2] is None else max(a[2], b[2]))
    if a[0] == "seq" and b[0] == "seq" and a[1] == b[1]:
        if a[2] is None:
            return b
        if b[2] is None:
            return a
        return ("seq", a[1], join1(a[2], b[2]))
    if a[0] == "tuple" and b[0] == "tuple" and a[1] == b[1] and len(a[2]) == len(b[2]):
        return ("tuple", a[1], tuple(join1(x, y) for x, y in zip(a[2], b[2])))
    if a[0] == "const" and b[0] == "const" and a[1] is b[1]:
        return a
    raise Unsupported("join of %r and %r" % (a, b))


def add_kind(kinds, k):
    """kinds: list of kinds of different families; returns True when it changed"""
    for i, o in enumerate(kinds):
        fam = (o[0] if o[0] not in ("int", "wide") or True else o[0])
        try:
            if o[0] == "obj" and k[0] == "obj":
                if o[1] is k[1] or o[1].label == k[1].label:
                    return False
                continue
            j = join1(o, k)
        except Unsupported:
            continue
        if j != o:
            kinds[i] = j
            return True
        return False
    kinds.append(k)
    return True


def fresh_of(ctx, k, name, info=None, desc=None):
    if k[0] == "none":
        return None
    if k[0] == "undef":
        return UNDEF
    if k[0] == "stale":
        return Opaque("value left by an earlier iteration")
    if k[0] == "bool":
        return SBool(z3.Bool(ctx.fresh_name(name)))
    if k[0] == "int":
        x = SInt(z3.Int(ctx.fresh_name(name)), k[1])
        if k[1] is not None and k[1] <= 1100:
            ctx.axiom(z3.And(x.e >= 0, x.e < (1 << max(k[1], 0))))
        return x
    if k[0] == "wide":
        nm = ctx.fresh_name(name)
        F = z3.Function(nm, z3.IntSort(), z3.IntSort())
        base = ctx._fn(F, k[1])
        w = Wide(k[1], k[2], base)
        w.tag = nm
        return w
    if k[0] == "tuple":
        items = [fresh_of(ctx, x, "%s.%d" % (name, i)) for i, x in enumerate(k[2])]
        return k[1](*items) if hasattr(k[1], "_fields") else tuple(items)
    if k[0] == "seq":
        nm = ctx.fresh_name(name)
        n = SInt(z3.Int(nm+".len"))
        ctx.axiom(n.e >= 0)
        s = SSeq(k[1], n=n, f=elem_fn(ctx, k[2] or ("int", None), nm), elem_bits=(k[2] or (0, None))[1] if (k[2] or ("x",))[0] == "int" else None)
        s.elem_kind = k[2]
        for m, (init, step) in ctx.measures.items():
            P = z3.Function(nm+".pre."+m, z3.IntSort(), z3.IntSort())
            s.folds[m] = SInt(P(n.e))
            s.prefix[m] = (lambda i, P=P: SInt(P(zi(i))))
            ctx.axiom(P(z3.IntVal(0)) == zi(init))
        if not s.mutable:
            s.label = None
        return s
    if k[0] == "val":
        return k[1](*[SInt(z3.Int(ctx.fresh_name("%s.%d" % (name, i)))) for i in range(k[2])])
    if k[0] == "obj":
        return k[1]
    if k[0] == "const":
        return k[1]
    raise Unsupported("havoc of %r" % (k,))


def elem_fn(ctx, k, nm):
    I = z3.IntSort()
    if k[0] == "int":
        return ctx._fn(z3.Function(nm, I, I), k[1])
    if k[0] == "bool":
        F = z3.Function(nm, I, z3.BoolSort())
        return lambda i: SBool(F(zi(i)))
    if k[0] == "tuple":
        fs = [elem_fn(ctx, x, "%s.%d" % (nm, j)) for j, x in enumerate(k[2])]
        if hasattr(k[1], "_fields"):
            return lambda i: k[1](*[f(i) for f in fs])
        return lambda i: tuple(f(i) for f in fs)
    if k[0] == "seq" and (k[2] is None or k[2][0] == "int"):
        L = z3.Function(nm+".len", I, I)
        F = z3.Function(nm+".el", I, I, I)

        def f(i):
            ln = L(zi(i))
            ctx.axiom(ln >= 0)

            def g(j):
                a = F(zi(i), zi(j))
                bits = k[2][1] if k[2] else 8
                if bits is not None:
                    ctx.axiom(z3.And(a >= 0, a < 2**bits))
                return SInt(a, bits)
            return SSeq(k[1], n=SInt(ln), f=g, elem_bits=k[2][1] if k[2] else 8)
        return f
    if k[0] == "wide":
        F = z3.Function(nm, I, I, I)

        def fw(i):
            def lane(j):
                a = F(zi(i), zi(j))
                ctx.axiom(z3.And(a >= 0, a < 2**k[1]))
                return SInt(a, k[1])
            return Wide(k[1], k[2], lane)
        return fw
    if k[0] == "none":
        return lambda i: None
    if k[0] == "const":
        return lambda i: k[1]
    raise Unsupported("elements of kind %r" % (k,))


# ---- pool of named quantities at a loop head ---------------------------------------------------------


def put(d, name, v, depth=0):
    if isinstance(v, (bool, SBool, int, SInt)):
        d[name] = toint(v)
        if isinstance(v, int) and not isinstance(v, bool) and v > 1 << 64:
            d["W:"+name] = v
    elif isinstance(v, Wide):
        d["W:"+name] = v
    elif v is None:
        d["none:"+name] = 1
    elif isinstance(v, str):
        if CTX[0].strings:
            d["len:"+name] = len(v)
            d["S:"+name] = SSeq("str", items=[ord(c) for c in v], elem_bits=21)
    elif isinstance(v, SSeq):
        d["len:"+name] = v.n
        d["S:"+name] = v
        for m in CTX[0].measures:
            try:
                d["fold:%s:%s" % (m, name)] = v.fold(m)
            except (Unsupported, PyExc, TypeError, AttributeError, IndexError):
                pass
    elif isinstance(v, tuple) and depth < 2:
        fs = getattr(v, "_fields", None)
        if not (v and isinstance(v[0], str)):
            for i, x in enumerate(v):
                put(d, "%s.%s" % (name, fs[i] if fs else i), x, depth+1)
    elif isinstance(v, Obj) and depth < 1:
        for k, x in v.fields.items():
            if isinstance(x, (bool, SBool, int, SInt, SSeq, tuple)) or x is None or isinstance(x, Contract) and hasattr(x, "vargs"):
                put(d, "%s.%s" % (name, k), x, depth+1)
    elif isinstance(v, Contract) and hasattr(v, "pool"):
        for k, x in v.pool().items():
            put(d, "%s.%s" % (name, k), x, 2)


def pool(ctx, frame, t, it, entry=None, hints=False):
    d = {}
    for name, v in frame.locals.items():
        if v is UNDEF or isinstance(v, E.Lazy) or name.startswith("__"):
            continue
        put(d, name, v)
    f = frame.parent
    while f is not None:
        for name, v in f.locals.items():
            if name not in d and v is not UNDEF and not isinstance(v, E.Lazy):
                put(d, name, v)
        f = f.parent
    for name, v in ctx.ghost.vars.items():
        put(d, "G:"+name, v)
    for name, v in ctx.refs.items():
        d["S:ref:"+name] = v
    if t is not None:
        d["t"] = t
    if it is not None:
        if isinstance(it, SRange):
            put(d, "it.start", it.start)
            put(d, "it.stop", it.stop)
            if ctx.focus_all and t is not None and isinstance(it.step, int):
                put(d, "it.pos", it.start+t*it.step)
        elif isinstance(it, SSeq):
            put(d, "it.n", it.n)
            for m in ctx.measures:
                try:
                    if it.items is not None and isinstance(t, int):
                        init, step = ctx.measures[m]
                        r = init
                        for x in it.items[:t]:
                            r = step(r, x)
                        d["pre:"+m] = r
                    elif m in it.prefix:
                        d["pre:"+m] = it.prefix[m](t)
                except (TypeError, AttributeError, IndexError, PyExc, Unsupported):
                    pass
    if entry:
        for k, v in entry.items():
            if k in d and isinstance(v, (int, SInt)):
                d["@"+k] = v
    if hints and ctx.hints is not None:
        for k, c in ctx.hints().items():
            put(d, "inv:"+k, toint(c))
    for k, fn in ctx.extra_pool.items():
        v = fn(t) if fn.__code__.co_argcount > hasattr(fn, "__self__") else fn()
        if v is not None:
            put(d, k, v)
            if entry and "@"+k in ctx.entry_keep and k in entry:
                d["@"+k] = entry[k]
    return d


class Cand:
    """conj over: premise -> body"""

    def __init__(self, kind, data, cond=None):
        self.kind = kind
        self.data = data
        self.cond = cond

    def key(self):
        return repr((self.kind, self.data, self.cond))

    def term(self, d, name):
        if "%%" in name:
            b, m = name.rsplit("%%", 1)
            v = d.get(b)
            if v is None:
                return None
            return mod(v, int(m))
        return d.get(name)

    def premise(self, d):
        if self.cond is None:
            return True
        name, val = self.cond
        v = self.term(d, name)
        if v is None:
            return False
        return v == val

    def scalar(self, d):
        """body as a condition, or None when not applicable in this state"""
        k = self.kind
        if k == "lin":
            tot = self.data[1]
            for c, n in self.data[0]:
                v = self.term(d, n)
                if v is None:
                    return None
                tot = tot+v*c
            return tot == 0
        if k == "le":       # x + c <= y
            x, c, y = self.data
            vx = self.term(d, x) if isinstance(x, str) else x
            vy = self.term(d, y) if isinstance(y, str) else y
            if vx is None or vy is None:
                return None
            return vx+c <= vy
        if k == "iff":
            x, y = self.data
            vx, vy = self.term(d, x), self.term(d, y)
            if vx is None or vy is None:
                return None
            return Iff(vx != 0, vy != 0)
        if k == "track":    # tracked cell: new value inside the window already processed, old value outside
            cell, new, old, pos, lo, hi = self.data
            vals = [self.term(d, x) if isinstance(x, str) else x for x in (cell, new, old, pos)]
            if any(v is None for v in vals):
                return None

            def tot(ts):
                r = 0
                for x in ts:
                    if isinstance(x, int):
                        r = r+x
                        continue
                    sg = 1
                    if x.startswith("-"):
                        sg, x = -1, x[1:]
                    v = self.term(d, x)
                    if v is None:
                        return None
                    r = r+sg*v
                return r
            l, h = tot(lo), tot(hi)
            if l is None or h is None:
                return None
            return vals[0] == ite(And(l <= vals[3], vals[3] < h), vals[1], vals[2])
        if k == "isnone":
            return ("none:"+self.data) in d
        if k == "notnone":
            return not (("none:"+self.data) in d)
        return None

    def elem(self, d, i):
        """body for sequence candidates at index i"""
        k = self.kind
        if k == "seqeq":        # X[i] == Y[i+off] for 0 <= i < len X
            x, y, off = self.data
            X, Y = d.get(x), d.get(y)
            if X is None or Y is None:
                return None
            o = self.term(d, off) if isinstance(off, str) else off
            if o is None:
                return None
            return Implies(And(i >= 0, i < X.n), X.at(i) == Y.at(i+o))
        if k == "seqpre":       # X[i] == Y[i] for 0 <= i < bound
            x, y, b = self.data
            X, Y, b = d.get(x), d.get(y), self.term(d, b)
            if X is None or Y is None or b is None:
                return None
            return Implies(And(i >= 0, i < b), And(i < X.n, X.at(i) == Y.at(i)))
        if k == "seqall":       # bounds on elements
            x, comp, op, c = self.data
            X = d.get(x)
            if X is None:
                return None
            try:
                v = X.at(i)
            except Unsupported:
                return None
            if comp is not None:
                v = v[comp]
            if isinstance(v, SSeq):
                v = v.n
            if isinstance(c, str):
                c = self.term(d, c)
                if c is None:
                    return None
            return Implies(And(i >= 0, i < X.n), v >= c if op == "ge" else v <= c if op == "le" else v == c)
        if k == "win":          # lane(X,i) == lo<=i<hi ? Y[i+d] : 0
            x, g, y, lo, hi, da, db = self.data
            X = d.get(x)
            if X is None:
                X = d.get(x[2:])
                if X is None:
                    return None
            vals = []
            for n in (lo, hi, da, db):
                v = self.term(d, n) if isinstance(n, str) else n
                if v is None:
                    return None
                vals.append(v)
            lo, hi, da, db = vals
            if isinstance(X, Wide):
                if X.g != g:
                    return None
                lx = X.lane(i)
            elif isinstance(X, (int,)):
                lx = const_wide(X, g).lane(i)
            elif isinstance(X, SInt) and X.bits is not None and X.bits <= g:
                lx = ite(i == 0, X, 0)
            else:
                return None
            if y == "ones":
                return lx == ite(And(lo <= i, i < hi), (1 << g)-1, 0)
            Y = d.get(y)
            if Y is None:
                return None
            return lx == ite(And(lo <= i, i < hi), Y.at(i+da-db), 0)
        return None

    @property
    def is_elem(self):
        return self.kind in ("seqeq", "seqpre", "seqall", "win")

    def __repr__(self):
        c = "" if self.cond is None else "%s==%s -> " % self.cond
        if self.kind == "lin":
            return c+" + ".join("%s*%s" % x for x in self.data[0])+" + %s == 0" % self.data[1]
        return c+"%s%r" % (self.kind, self.data)


def state_cond(cands, d, guard, i=None):
    """evaluate candidates to conditions"""
    out = []
    for c in cands:
        p = c.premise(d)
        if c.cond is not None and c.cond[0] == "guard":
            p = guard
        if p is False:
            out.append(True)
            continue
        b = c.elem(d, i) if c.is_elem else c.scalar(d)
        if b is None:
            out.append(True)
            continue
        out.append(b if p is True else Implies(p, b))
    return out


# ---- the loop rule ------------------------------------------------------------------------------------


def site_of(ctx, node):
    return (ctx.frames[-1].name, node.lineno, node.col_offset) + tuple(f.name for f in ctx.frames[:-1][-2:])


def suspends(node):
    """does an iteration give way to other tasks"""
    r = getattr(node, "_suspends", None)
    if r is None:
        r = node._suspends = any(isinstance(x, (ast.Await, ast.AsyncFor, ast.AsyncWith)) for x in ast.walk(node))
    return r


def set_focus(ctx, node):
    info = info_for(ctx, node)
    info.lean = ctx.focus_all
    info.entry_keep = ctx.entry_keep
    if ctx.focus_data is not None and not suspends(node):
        info.focus = ctx.focus_data
        info.flags = not ctx.focus_all
    else:
        info.focus = ctx.focus
        info.hints = True
        info.flags = ctx.focus_flags
        info.conds = ctx.focus_conds


def for_loop(ctx, node):
    it = E.ev(ctx, node.iter)
    if ctx.focus_all and ctx.focus:
        set_focus(ctx, node)
    if isinstance(it, SSeq) and it.items is not None:
        items = it.items
        if ctx.mode == "conc":
            return concrete_loop(ctx, node, items, it)
        if it.mutable:
            items = items       # iteration over a list follows later changes of the list
            return native_iter(ctx, node, iter(items))
        return native_iter(ctx, node, iter(list(items)))
    if isinstance(it, (str, dict, set, frozenset, range, tuple, list)) and not isinstance(it, SRange):
        return native_iter(ctx, node, iter(it))
    if isinstance(it, SRange):
        if ctx.mode == "conc":
            return concrete_loop(ctx, node, range(it.start, it.stop, it.step), it)
        cnt = it.count()
        if isinstance(cnt, int) and cnt <= ctx.unroll and isinstance(it.start, int):
            return native_iter(ctx, node, iter(range(it.start, it.stop, it.step)))
        if isinstance(cnt, int) and cnt <= ctx.unroll:
            return native_iter(ctx, node, iter([it.start+k*it.step for k in range(cnt)]))
        return sym_loop(ctx, node, it, cnt)
    if isinstance(it, SSeq):
        if it.mutable:
            it2 = it.copy("tuple")
            it2.prefix, it2.folds = it.prefix, it.folds
            it = it2
        return sym_loop(ctx, node, it, it.n)
    it = as_seq(ctx, it)
    if it.items is not None:
        return native_iter(ctx, node, iter(list(it.items)))
    return sym_loop(ctx, node, it, it.n)


def native_iter(ctx, node, it):
    for x in it:
        E.assign(ctx, node.target, x)
        try:
            E.exec_block(ctx, node.body)
        except E._Break:
            return
        except E._Continue:
            continue
    E.exec_block(ctx, node.orelse)


def sample(ctx, info, frame, t, it, entry, guard):
    if len(info.samples) >= MAXROWS*4:
        return
    d = pool(ctx, frame, t, it, entry, info.hints)
    row = {}
    for k, v in d.items():
        if k.startswith(("S:", "W:")):
            if isinstance(v, SSeq) and v.items is not None:
                v = list(v.items)
            row[k] = v
        else:
            row[k] = v
    row["guard"] = 1 if guard else 0
    row["__id"] = info.cur_id
    info.samples.append(row)


def info_for(ctx, node):
    site = site_of(ctx, node)
    info = ctx.run.loops.get(site)
    if info is None:
        info = ctx.run.loops[site] = E.LoopInfo(site)
        info.cur_id = 0
    return info


def entry_ints(d):
    return {k: v for k, v in d.items() if isinstance(v, (int, SInt)) and not k.startswith(("@", "none:", "G:"))
            or (k.startswith("G:") and isinstance(v, (int, SInt)))}


def concrete_loop(ctx, node, items, it):
    info = info_for(ctx, node)
    info.cur_id += 1
    frame = ctx.frames[-1]
    entry = entry_ints(pool(ctx, frame, None, it))
    n = len(items)
    for t, x in enumerate(items):
        if t >= 3000:
            raise Unsupported("long concrete loop")
        sample(ctx, info, frame, t, it, entry, True)
        E.assign(ctx, node.target, x)
        try:
            E.exec_block(ctx, node.body)
        except E._Break:
            return
        except E._Continue:
            continue
    sample(ctx, info, frame, n, it, entry, False)
    E.exec_block(ctx, node.orelse)


def while_loop(ctx, node):
    forever = isinstance(node.test, ast.Constant) and bool(node.test.value)
    if (forever or ctx.focus_all) and ctx.focus:
        set_focus(ctx, node)
    if ctx.mode == "conc":
        info = info_for(ctx, node)
        info.cur_id += 1
        frame = ctx.frames[-1]
        entry = entry_ints(pool(ctx, frame, None, None))
        t = 0
        while True:
            d0 = None
            if t == 0 or True:
                g = True if forever else None
                if g is None:
                    # the guard is evaluated once; the sample is taken before it
                    snap_frame = frame
                    pre = len(info.samples)
                    sample(ctx, info, frame, t, None, entry, True)
                    g = E.truth(ctx, E.ev(ctx, node.test))
                    if len(info.samples) > pre:
                        info.samples[pre]["guard"] = 1 if g else 0
                else:
                    sample(ctx, info, frame, t, None, entry, True)
            if not g:
                break
            try:
                E.exec_block(ctx, node.body)
            except E._Break:
                return
            except E._Continue:
                pass
            t += 1
            if t > 20000:
                raise Unsupported("long concrete loop")
        E.exec_block(ctx, node.orelse)
        return
    if ctx.unroll_while:
        # the unit bounds its loops: every iteration is executed; more iterations than the bound leave the unit undecided
        for t in range(ctx.unroll_while+1):
            if not E.truth(ctx, E.ev(ctx, node.test)):
                E.exec_block(ctx, node.orelse)
                return
            if t == ctx.unroll_while:
                raise Unsupported("loop at line %d exceeds its bound of %d iterations" % (node.lineno, t))
            try:
                E.exec_block(ctx, node.body)
            except E._Break:
                return
            except E._Continue:
                pass
    return sym_loop(ctx, node, None, None, forever)


def snapshot(ctx, frame, info):
    pass


def sym_loop(ctx, node, it, n, forever=False):
    info = info_for(ctx, node)
    frame = ctx.frames[-1]
    ctx.past_loop = True
    is_for = it is not None
    run = ctx.run

    entry = entry_ints(pool(ctx, frame, None, it))
    # kinds at entry
    for desc in list(info.writes):
        v = read_desc(ctx, frame, desc)
        if add_kind(info.kinds.setdefault(desc, []), kind_of(v)):
            run.changed = True
    if run.changed:
        raise PathEnd("restart")
    # invariant on entry
    def on_entry():
        d0 = pool(ctx, frame, 0, it, entry, info.hints)
        g0 = guard_value(ctx, node, is_for, 0, n, forever)
        check_cands(ctx, info, d0, g0, "entry")
    ctx.memo(on_entry)

    branch = 0 if forever else ctx.choice(2, "loop")

    # arbitrary state satisfying the invariant
    t = SInt(z3.Int(ctx.fresh_name("t@%d" % node.lineno)))
    ctx.axiom(t.e >= 0)
    if is_for:
        ctx.axiom(t.e <= zi(n))
    havoc(ctx, frame, info, node)
    g1 = guard_value(ctx, node, is_for, t, n, forever)

    def scalars():
        assume_cands(ctx, info, pool(ctx, frame, t, it, entry, info.hints), g1)
    ctx.memo(scalars)
    assume_elems(ctx, info, lambda: pool(ctx, frame, t, it, entry, False), g1)

    if branch == 0:
        if is_for:
            ctx.assume(t < n)
        elif not forever:
            if not E.truth(ctx, E.ev(ctx, node.test)):
                raise PathEnd("guard")
        if not ctx.replaying and ctx._check() == z3.unsat:
            raise PathEnd("body unreachable")
        run.covers["body:%s:%d" % (frame.name, node.lineno)] = 1
        info.reached_body = True
        rec = dict(serial=ctx.serial, writes={}, info=info)
        ctx.loop_stack.append(rec)
        ended = False
        try:
            if is_for:
                if isinstance(it, SRange):
                    x = it.start+t*it.step
                else:
                    x = it.at(t)
                    for m, P in it.prefix.items():
                        try:
                            ctx.axiom(zi(P(t+1)) == zi(ctx.measures[m][1](P(t), x)))
                        except (TypeError, AttributeError, IndexError):
                            pass
                E.assign(ctx, node.target, x)
            try:
                E.exec_block(ctx, node.body)
                ended = True
            except E._Continue:
                ended = True
            except E._Break:
                pass
        finally:
            ctx.loop_stack.pop()
            merge_writes(ctx, info, rec, frame)
        if not ended:
            # break: leave the loop with the current state
            propagate(ctx, rec)
            return
        for desc in list(info.writes):
            v = read_desc(ctx, frame, desc)
            if add_kind(info.kinds.setdefault(desc, []), kind_of(v)):
                run.changed = True
        if run.changed:
            raise PathEnd("restart")
        d2 = pool(ctx, frame, t+1, it, entry, info.hints)
        g2 = guard_value(ctx, node, is_for, t+1, n, forever)
        check_cands(ctx, info, d2, g2, "preservation")
        raise PathEnd("end of the arbitrary iteration")
    # exit
    if is_for:
        ctx.assume(t == n)
    else:
        if E.truth(ctx, E.ev(ctx, node.test)):
            raise PathEnd("guard")
    for desc in info.writes:
        note_desc(ctx, frame, desc)
    E.exec_block(ctx, node.orelse)


def guard_value(ctx, node, is_for, t, n, forever):
    if forever:
        return True
    if is_for:
        return t < n
    # the guard of a while loop as a formula: only simple comparisons are looked at
    ctx.probing = True      # nothing is claimed of a state the invariants were not assumed of yet
    try:
        return pure_cond(ctx, node.test)
    except (Unsupported, PyExc):
        return None
    finally:
        ctx.probing = False


def pure_cond(ctx, test):
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        a, b = E.ev(ctx, test.left), E.ev(ctx, test.comparators[0])
        return E.compare(ctx, test.ops[0], a, b)
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return Not(pure_cond(ctx, test.operand))
    v = E.ev(ctx, test)
    if isinstance(v, (bool, SBool)):
        return v
    if isinstance(v, SSeq):
        return v.n != 0
    if isinstance(v, SInt):
        return v != 0
    raise Unsupported("guard")


def read_desc(ctx, frame, desc):
    k = desc[0]
    if k == "L":
        fr = ctx.frames[desc[1]] if desc[1] < len(ctx.frames) else None
        if fr is None:
            raise Unsupported("frame")
        return fr.locals.get(desc[2], UNDEF)
    if k == "G":
        return ctx.ghost.vars.get(desc[1], UNDEF)
    o = ctx.objects.get(desc[1])
    if o is None:
        return UNDEF
    if isinstance(o, Obj):
        return o.fields.get(desc[2], UNDEF)
    if isinstance(o, SSeq):
        return o
    if isinstance(o, Contract):
        return o.get_state(desc[2])
    if isinstance(o, E.SDict):
        raise Unsupported("dictionary written in a loop")
    raise Unsupported("descriptor")


def note_desc(ctx, frame, desc):
    k = desc[0]
    if k == "L":
        ctx.note_write(ctx.frames[desc[1]], desc[2])
    elif k == "G":
        ctx.note_write(ctx.ghost, desc[1])
    else:
        o = ctx.objects.get(desc[1])
        if o is not None:
            ctx.note_write(o, desc[2])


def merge_writes(ctx, info, rec, frame):
    for desc in rec["writes"]:
        if desc not in info.writes:
            info.writes[desc] = True
            ctx.run.changed = True


def propagate(ctx, rec):
    # the outer loops saw the writes through note_write already
    pass


def havoc(ctx, frame, info, node):
    hv = {}
    for desc in sorted(info.writes, key=repr):
        kinds = info.kinds.get(desc, [])
        if not kinds:
            raise PathEnd("restart")
        if desc[0] == "L" and any(k[0] == "undef" for k in kinds):
            # not defined before the loop: what an earlier iteration left is looked at only when read
            fr = ctx.frames[desc[1]]
            ctx.note_write(fr, desc[2])
            fr.locals[desc[2]] = E.Lazy(list(kinds), "h%d_%s" % (node.lineno, desc[2]))
            continue
        if desc[0] == "F" and isinstance(ctx.objects.get(desc[1]), SSeq):
            # the label may name other things, or nothing, on other paths
            kinds = [k for k in kinds if k[0] == "seq" and k[1] == ctx.objects[desc[1]].kind]
            if not kinds:
                raise PathEnd("restart")
        if len(kinds) > 1:
            k = kinds[ctx.choice(len(kinds), "kind")]
        else:
            k = kinds[0]
        name = "h%d_%s" % (node.lineno, "_".join(str(x) for x in desc[1:]))
        if desc[0] == "F":
            o = ctx.objects.get(desc[1])
            if o is None:
                continue
            if isinstance(o, Obj):
                ctx.note_write(o, desc[2])
                v = fresh_of(ctx, k, name)
                if v is UNDEF:
                    o.fields.pop(desc[2], None)
                else:
                    v = adopt(ctx, v, o.fields.get(desc[2]))
                    o.fields[desc[2]] = v
            elif isinstance(o, SSeq):
                v = fresh_of(ctx, k, name)
                ctx.note_write(o, None)
                o.items, o._n, o.f = None, v._n, v.f
                o.folds, o.prefix = v.folds, v.prefix
                o.elem_kind = getattr(v, "elem_kind", None)
                if o.elem_bits is None:
                    o.elem_bits = v.elem_bits
            elif isinstance(o, Contract):
                o.set_state(desc[2], fresh_of(ctx, k, name))
        elif desc[0] == "L":
            fr = ctx.frames[desc[1]]
            ctx.note_write(fr, desc[2])
            cur = fr.locals.get(desc[2], UNDEF)
            v = fresh_of(ctx, k, name)
            v = adopt(ctx, v, cur)
            if v is UNDEF:
                fr.locals.pop(desc[2], None)
                fr.locals[desc[2]] = UNDEF
            else:
                fr.locals[desc[2]] = v
        else:
            ctx.note_write(ctx.ghost, desc[1])
            v = fresh_of(ctx, k, name)
            ctx.ghost.vars[desc[1]] = adopt(ctx, v, ctx.ghost.vars.get(desc[1]))


def adopt(ctx, v, cur):
    """a havocked mutable sequence bound to a variable gets an identity of its own"""
    if isinstance(v, SSeq) and v.mutable:
        v.label = ctx.new_label("hv")
        ctx.objects[v.label] = v
    return v


def run_quant(ctx):
    return getattr(ctx, "quantified", False)


def assume_cands(ctx, info, d, g):
    if not info.cands:
        return
    scal = [c for c in info.cands if not c.is_elem]
    for b in state_cond(scal, d, True if g is None else g):
        if b is False:
            raise PathEnd("candidate excludes this kind of state")
        if isinstance(b, SBool):
            ctx.axiom(b)


def assume_elems(ctx, info, d, g):
    """element facts: instantiated wherever a havocked sequence is read"""
    elems = [c for c in info.cands or () if c.is_elem]
    if not elems:
        return
    d = d()
    byseq = {}
    for c in elems:
        byseq.setdefault(c.data[0], []).append(c)
        if c.kind == "seqpre" and run_quant(ctx) and d.get(c.data[0]) is not None and d[c.data[0]].items is None:
            q = SInt(z3.Int(ctx.fresh_name("each")))
            b = state_cond([c], d, True if g is None else g, q)[0]
            if isinstance(b, SBool):
                ctx.axiom(z3.ForAll([q.e], b.e))
    for name, cs in byseq.items():
        X = d.get(name)
        if X is None:
            continue
        wrap_elem(ctx, X, name, cs, dict(d), g)


def wrap_elem(ctx, X, name, cs, d, g):
    busy = set()
    if isinstance(X, SSeq):
        if X.items is not None:
            return
        base = X.f
        frozen = SSeq(X.kind, n=X._n, f=base, elem_bits=X.elem_bits)
    elif isinstance(X, Wide):
        base = X.f
        frozen = Wide(X.g, X.lanes, base)
    else:
        return
    d[name] = frozen

    def f(i):
        v = base(i)
        key = zi(i).get_id()
        if key not in busy:
            busy.add(key)
            ctx._keep = getattr(ctx, "_keep", [])
            ctx._keep.append(zi(i))
            for b in state_cond(cs, d, True if g is None else g, i):
                if isinstance(b, SBool):
                    ctx.axiom(b)
        return v
    X.f = f


def check_cands(ctx, info, d, g, what):
    if not info.cands:
        return
    run = ctx.run
    i = SInt(z3.Int(ctx.fresh_name("elem_i")))
    gg = g
    if g is None:
        gg = SBool(z3.Bool(ctx.fresh_name("guard_unknown")))
    alive = list(info.cands)
    conds = state_cond(alive, d, gg, i)
    dead = set()
    pairs = []
    for c, b in zip(alive, conds):
        if b is True:
            continue
        if b is False:
            pairs.append((c, z3.BoolVal(False)))
        else:
            pairs.append((c, b.e))
    if not pairs:
        return
    if run.check and not getattr(run, "inferring", False):
        # final pass: each surviving candidate is an obligation
        run.stats["inv_obligations"] = run.stats.get("inv_obligations", 0)+len(pairs)
    while pairs:
        q = z3.Not(z3.And(*[b for _, b in pairs]))
        r = ctx._check(q)
        if r == z3.unsat:
            break
        if r == z3.sat:
            m = ctx.solver.model()
            bad = [c for c, b in pairs if not z3.is_true(m.eval(b, model_completion=True))]
            if not bad:
                bad = [pairs[0][0]]
        else:
            # unknown: try one at a time
            bad = []
            for c, b in pairs:
                r1 = ctx._check(z3.Not(b))
                if r1 == z3.unknown:
                    run.weak.append(repr(c)[:120])      # dropped for lack of an answer, not because it fails
                if r1 != z3.unsat:
                    bad.append(c)
        for c in bad:
            dead.add(id(c))
        pairs = [(c, b) for c, b in pairs if id(c) not in dead]
    if dead:
        if getattr(run, "debug", False):
            for c in info.cands:
                if id(c) in dead:
                    print("   drop", what, info.site[1], c, ctx.taken)
                    if os.environ["VC_DEBUG"] in c.kind:
                        for p in ctx.pc:
                            print("      ", p)
                        print("MODEL", {str(z): m[z] for z in m.decls()}, [b for cc, b in zip(alive, conds) if cc is c])
        info.cands = [c for c in info.cands if id(c) not in dead]
        run.dropped = True
    elif what:
        run.stats["inv_checks"] = run.stats.get("inv_checks", 0)+1


# ---- candidate generation -------------------------------------------------------------------------------

P = 2147483629


def rref(rows):
    A = np.array(rows, dtype=np.int64) % P
    nr, nc = A.shape
    piv = []
    r = 0
    for c in range(nc):
        nz = np.nonzero(A[r:, c])[0]
        if len(nz) == 0:
            continue
        k = r+nz[0]
        if k != r:
            A[[r, k]] = A[[k, r]]
        A[r] = (A[r]*pow(int(A[r, c]), P-2, P)) % P
        others = np.nonzero(A[:, c])[0]
        for o in others:
            if o != r:
                A[o] = (A[o]-A[r]*A[o, c]) % P
        piv.append(c)
        r += 1
        if r == nr:
            break
    return A[:r], piv


def ratrec(a):
    """small rational n/d congruent to a"""
    a = int(a) % P
    r0, r1, s0, s1 = P, a, 0, 1
    while r1 > 20000:
        q = r0//r1
        r0, r1 = r1, r0-q*r1
        s0, s1 = s1, s0-q*s1
    if s1 == 0 or abs(s1) > 20000:
        return None
    if s1 < 0:
        r1, s1 = -r1, -s1
    return fractions.Fraction(r1, s1)


def nullspace(cols, data):
    """linear relations among the columns (list of names), data: list of rows of ints"""
    # work on the transpose problem: relations = null space of the data matrix
    rows = [[int(v) % P for v in r] for r in data]
    # reverse the column order so that the pivots (kept free in the relation) are the simple columns
    order = list(range(len(cols)))[::-1]
    A, piv = rref([[r[c] for c in order] for r in rows])
    free = [c for c in range(len(cols)) if c not in piv]
    out = []
    for f in free:
        rel = {order[f]: fractions.Fraction(1)}
        ok = True
        for k, p in enumerate(piv):
            v = ratrec(-int(A[k, f]))
            if v is None:
                ok = False
                break
            if v != 0:
                rel[order[p]] = v
        if not ok or len(rel) > 7:
            continue
        den = 1
        for v in rel.values():
            den = den*v.denominator//np.gcd(den, v.denominator)
        rel = {c: int(v*den) for c, v in rel.items()}
        if any(sum(rel[c]*r[c] for c in rel) != 0 for r in data):
            continue
        out.append(rel)
    return out


def modified_names(info, row):
    """names of the pool whose value the loop may change"""
    mods = set()
    base = set()
    for d in info.writes:
        if d[0] == "L":
            base.add(d[2])
        elif d[0] == "G":
            base.add("G:"+d[1])
    return base


def triples(sub, colvals, keep, mods, cond, add):
    """x == y + z + c and x == y - z + c, found by hashing some rows; the nullspace basis may hide them behind accidental relations"""
    n = len(sub)
    pick = list(range(n)) if n <= 48 else sorted({int(i*n/48) for i in range(48)})
    cols = {k: [colvals[k][i] for i in pick] for k in keep}
    norm = {}
    for k in keep:
        c = cols[k]
        norm[tuple(v-c[0] for v in c)] = k
    found = 0
    for a, y in enumerate(keep):
        for z in keep[a+1:]:
            if y not in mods and z not in mods:
                continue
            for sg in (1, -1):
                v = [p+sg*q for p, q in zip(cols[y], cols[z])]
                x = norm.get(tuple(e-v[0] for e in v))
                if x is None or x in (y, z):
                    continue
                X, Y, Z = colvals[x], colvals[y], colvals[z]
                c = X[0]-Y[0]-sg*Z[0]
                if abs(c) < 4200 and all(p == q+sg*r+c for p, q, r in zip(X, Y, Z)):
                    add(Cand("lin", (((1, x), (-1, y), (-sg, z)), -c), cond))
                    found += 1
                    if found > 40:
                        return


def gen_cands(info, moduli, track=None):
    rows = info.samples
    if not rows:
        return []
    if len(rows) > MAXROWS:
        # whole executions of the loop, spread evenly
        runs = {}
        for r in rows:
            runs.setdefault(r["__id"], []).append(r)
        runs = list(runs.values())
        avg = len(rows)/len(runs)
        if avg*8 > MAXROWS:
            step = len(rows)/MAXROWS
            rows = [rows[int(k*step)] for k in range(MAXROWS)]
        else:
            k = max(1, int(MAXROWS/avg))
            step = len(runs)/k
            rows = [r for i in range(k) for r in runs[int(i*step)]]
    if info.focus:
        # the unit states the invariant of this loop itself
        rows = [{k: v for k, v in r.items() if k.startswith("inv:") or k in ("guard", "__id")
                 or k in info.entry_keep or callable(info.focus) and not (k.startswith("@") and info.hints) and info.focus((k.split(":", 1)[1] if k.startswith("none:") else k).lstrip("@"))} for r in rows]
    cands = []
    seen = set()

    def add(c):
        k = c.key()
        if k not in seen:
            seen.add(k)
            cands.append(c)
    # invariants proposed by the unit: taken as they are
    inv = {}
    for r in rows:
        for k, v in r.items():
            if k.startswith("inv:"):
                inv.setdefault(k, []).append(v)
    for k, vs in inv.items():
        if len(vs) == len(rows) and all(v == 1 for v in vs):
            add(Cand("lin", (((1, k),), -1), None))
    if inv:
        rows = [{k: v for k, v in r.items() if not k.startswith("inv:")} for r in rows]
    names = {}
    for r in rows:
        for k, v in r.items():
            if k.startswith(("S:", "W:", "__")):
                continue
            names[k] = names.get(k, 0)+1
    n = len(rows)
    # which quantities vary within one execution of the loop
    varying = set()
    last = {}
    for r in rows:
        for k in names:
            if k in r:
                key = (r["__id"], k)
                if key in last and last[key] != r[k]:
                    varying.add(k)
                last[key] = r[k]
    varying.discard("guard")

    def analyse(sub, cond, names_sub, small=False):
        if len(sub) < 4:
            return
        cols = []
        data = []
        full = [k for k in names_sub if all(k in r for r in sub) and not k.startswith("none:") and k not in ("guard", "it.pos")]
        full = [k for k in full if all(isinstance(r[k], int) and abs(r[k]) < 1 << 70 for r in sub)]
        const = {}
        for k in list(full):
            vs = {r[k] for r in sub}
            if len(vs) == 1:
                const[k] = vs.pop()
        for k in const:
            if k.startswith("inv:") and cond is not None:
                continue
            if k in varying or k in info_mod or k.startswith(("len:", "inv:")):
                add(Cand("lin", (((1, k),), -const[k]), cond))
        nonc = [k for k in full if k not in const]
        # duplicate columns
        rep = {}
        colvals = {}
        for k in sorted(nonc, key=lambda k: (k in varying, k.startswith("@"), len(k), k)):
            v = tuple(r[k] for r in sub)
            if v in rep:
                if not info.lean or k in info_mod or rep[v] in info_mod or k.startswith("x:") or rep[v].startswith("x:"):
                    add(Cand("lin", (((1, k), (-1, rep[v])), 0), cond))
                continue
            rep[v] = k
            colvals[k] = v
        keep = list(colvals)
        derived = []
        if not small:
            for k in keep:
                for m in moduli:
                    vals = tuple(x % m for x in colvals[k])
                    if vals == colvals[k]:
                        continue
                    nm = "%s%%%%%d" % (k, m)
                    if len(set(vals)) == 1:
                        add(Cand("lin", (((1, nm),), -vals[0]), cond))
                        continue
                    if vals in rep:
                        add(Cand("lin", (((1, nm), (-1, rep[vals])), 0), cond))
                        continue
                    rep[vals] = nm
                    colvals[nm] = vals
                    derived.append(nm)

        def rank(k):
            b = k.split("%%")[0]
            return (0 if (b in varying and "%%" in k) else 1 if b in varying else 2 if "%%" in k else 3, k.startswith("G:"), k)
        allc = sorted(keep+derived, key=rank)
        if not small and len(sub) > len(allc)+6:
            data = [[colvals[k][i] for k in allc]+[1] for i in range(len(sub))]
            for rel in nullspace(allc+["1"], data):
                lin = tuple((c, allc[j]) for j, c in sorted(rel.items()) if j < len(allc))
                cst = rel.get(len(allc), 0)
                if lin and any(nm.split("%%")[0] in varying or nm.split("%%")[0] in info_mod for _, nm in lin):
                    add(Cand("lin", (lin, cst), cond))
        if info.lean and not small and len(sub) > 8:
            triples(sub, colvals, keep, info_mod, cond, add)
        # progress by a constant per iteration
        if not small and all("t" in r for r in sub):
            for x in full:
                if x not in varying or x == "t":
                    continue
                base = "@"+x if all("@"+x in r for r in sub) else None
                cs = {(r[x]-(r[base] if base else 0), r["t"]) for r in sub}
                step = {a//b for a, b in cs if b > 0 and a % b == 0}
                if len(step) == 1 and all(a == b*next(iter(step)) for a, b in cs):
                    c = next(iter(step))
                    add(Cand("lin", (((1, x), (-c, "t"))+(((-1, base),) if base else ()), 0), cond))
        # sparse relations of two columns
        va = [k for k in keep if k in varying]
        for x in va:
            for y in keep+(derived if not small else []):
                if x == y:
                    continue
                d0 = colvals[x][0]-colvals[y][0]
                if abs(d0) <= 4200 and all(a-b == d0 for a, b in zip(colvals[x], colvals[y])):
                    add(Cand("lin", (((1, x), (-1, y)), -d0), cond))
        if small:
            pass
        # orderings
        ineq = [k for k in keep if k in varying][:24]
        other = [k for k in keep if k not in varying][:24]
        for x in ineq:
            cx = colvals[x]
            mn, mx = min(cx), max(cx)
            if mn in (0, 1):
                add(Cand("le", (0, mn, x), cond))
            for c in sorted(set(list(moduli)+[m-1 for m in moduli]+[1, 2, 255, 256, 4096])):
                if mx <= c and mx >= c-1 and mx == c:
                    add(Cand("le", (x, 0, c), cond))
            for y in ineq+other:
                if y == x:
                    continue
                cy = colvals[y]
                df = min(b-a for a, b in zip(cx, cy))
                if df in (0, 1):
                    add(Cand("le", (x, df, y), cond))
                df = min(a-b for a, b in zip(cx, cy))
                if df in (0, 1) and y in other:
                    add(Cand("le", (y, df, x), cond))

    info_mod = set(d[2] for d in info.writes if d[0] == "L") | set("G:"+d[1] for d in info.writes if d[0] == "G") \
        | set("len:"+d[2] for d in info.writes if d[0] == "L") | varying
    if info.hints and not info.flags:
        info_mod |= {k for k in names if k.startswith("G:")}        # the unit lists the ghost state that matters
    analyse(rows, None, list(names))
    cont = [r for r in rows if r["guard"]]
    if len(cont) != len(rows):
        analyse(cont, ("guard", 1), list(names))
    # conditional on small-valued changing quantities
    flags = []
    for k in varying if info.flags else ():
        vs = {r[k] for r in rows if k in r}
        if all(k in r for r in rows) and len(vs) <= 3 and all(isinstance(v, int) for v in vs):
            flags.append((k, vs))
    for k in info.conds:
        vs = {r[k] for r in rows if k in r}
        if all(k in r for r in rows) and len(vs) in (2, 3):
            flags.append((k, vs))
    for k, vs in sorted(flags)[:8]:
        for v in sorted(vs):
            analyse([r for r in rows if r[k] == v], (k, v), list(names), small=k not in info.conds)
    # none-ness
    nn = {}
    for r in rows:
        for k in r:
            if k.startswith("none:"):
                nn.setdefault(k[5:], 0)
                nn[k[5:]] += 1
    for k, c in nn.items():
        if c < n:
            for f, vs in flags:
                for v in vs:
                    sub = [r for r in rows if r[f] == v]
                    if sub and all("none:"+k in r for r in sub):
                        add(Cand("isnone", k, (f, v)))
                    elif sub and all("none:"+k not in r for r in sub):
                        add(Cand("notnone", k, (f, v)))
            # relations that hold when it is not None
            sub = [r for r in rows if "none:"+k not in r]
            analyse(sub, None, [x for x in names if x == k or x in varying or x.startswith("G:")], small=False)
    # sequences
    snames = {}
    for r in rows:
        for k in r:
            if k.startswith("S:"):
                snames[k] = snames.get(k, 0)+1
    full = [k for k in snames if snames[k] == n]
    for x in full:
        if x.startswith("S:ref:"):
            continue
        lens = {len(r[x]) if isinstance(r[x], list) else None for r in rows}
        if None in lens:
            continue
        el = [e for r in rows for e in r[x]]
        if el and all(isinstance(e, int) for e in el):
            mn, mx = min(el), max(el)
            if mn >= 1:
                add(Cand("seqall", (x, None, "ge", 1)))
            elif mn >= 0:
                add(Cand("seqall", (x, None, "ge", 0)))
            if mx <= 1:
                add(Cand("seqall", (x, None, "le", 1)))
            for y in names:
                if not y.startswith("none:") and all(y in r for r in rows) and \
                        all(isinstance(r[y], int) and e == r[y] for r in rows for e in r[x]) and len({r[y] for r in rows}) > 1:
                    add(Cand("seqall", (x, None, "eq", y)))
            for b in names:
                if not b.startswith("G:bound") or names[b] != n:
                    continue
                for y in full:
                    if not y.startswith("S:ref:"):
                        continue
                    if all(len(r[x]) >= r[b] and list(r[x][:max(r[b], 0)]) == [(r[y][i] if isinstance(r[y], list) else r[y].at(i)) for i in range(max(r[b], 0))]
                           for r in rows):
                        add(Cand("seqpre", (x, y, b)))
            for y in full:
                if y == x:
                    continue
                offs = [0]+[k for k in names if names[k] == n and k in varying][:12]
                for off in offs:
                    ok = True
                    some = 0
                    for r in rows:
                        o = r[off] if isinstance(off, str) else off
                        Y = r[y]
                        X = r[x]
                        try:
                            if isinstance(Y, list):
                                if o < 0 or X != Y[o:o+len(X)]:
                                    ok = False
                            else:
                                for i in range(len(X)):
                                    if X[i] != Y.at(i+o):
                                        ok = False
                                        break
                        except Exception:
                            ok = False
                        some += len(X)
                        if not ok:
                            break
                    if ok and some > 3:
                        add(Cand("seqeq", (x, y, off)))
        elif el and all(isinstance(e, tuple) for e in el):
            k = len(el[0])
            for c in range(k):
                vals = [e[c] for e in el]
                if all(isinstance(v, int) for v in vals):
                    if min(vals) >= 0:
                        add(Cand("seqall", (x, c, "ge", 0)))
                elif all(isinstance(v, SSeq) for v in vals):
                    mn = min(len(v) for v in vals)
                    if mn >= 1:
                        add(Cand("seqall", (x, c, "ge", 1)))
    # a tracked cell of a data structure being updated piece by piece
    if track:
        trackcands(rows, track, names, varying, add)
    # words assembled lane by lane
    ints = [k for k in names if names[k] == n and not k.startswith("none:") and k != "guard"]
    for x in ints:
        if x not in varying or not any(isinstance(r[x], int) and r[x] > 1 << 20 for r in rows):
            # strobe-like
            if x not in varying:
                continue
        for g in (8, 1):
            wincands(rows, x, g, ints, full, add)
    return cands


def lanes_of(v, g):
    out = []
    m = (1 << g)-1
    while v:
        out.append(v & m)
        v >>= g
    return out


def trackcands(rows, track, names, varying, add):
    cell, new, old, pos = track
    n = len(rows)
    rows = [r for r in rows if all(isinstance(r.get(k), int) for k in track)]
    if len(rows) < 6:
        return
    ok = [k for k in names if names[k] == n and not k.startswith(("none:", "G:")) and k != "guard"
          and all(isinstance(r[k], int) for r in rows)]
    # expressions: x, x+y with one of them constant during the loop
    exprs = {}
    for k in ok:
        exprs[(k,)] = [r[k] for r in rows]
    for a in ok:
        for b in ok:
            if a in varying and b not in varying:
                exprs[(a, b)] = [r[a]+r[b] for r in rows]
                exprs[(b, "-"+a)] = [r[b]-r[a] for r in rows]
    P = [r[pos] for r in rows]
    isnew = [r[cell] == r[new] for r in rows]
    isold = [r[cell] == r[old] for r in rows]
    if not all(a or b for a, b in zip(isnew, isold)):
        return

    def val(e):
        return exprs[e]
    moving = [e for e in exprs if any(x.lstrip("-") in varying for x in e)]
    fixed = [e for e in exprs if e not in set(moving)]
    # one representative for each distinct column
    def dedup(es):
        seen, out = set(), []
        for e in es:
            v = tuple(exprs[e])
            if v not in seen:
                seen.add(v)
                out.append(e)
        return out
    moving, fixed = dedup(moving), dedup(fixed)
    cnt = 0
    for lo_set, hi_set in ((fixed, moving), (moving, fixed)):
        for lo in lo_set:
            L = val(lo)
            for hi in hi_set:
                H = val(hi)
                good = True
                ins = 0
                for i in range(len(rows)):
                    inside = L[i] <= P[i] < H[i]
                    if inside:
                        ins += isnew[i] and not isold[i]
                        if not isnew[i]:
                            good = False
                            break
                    elif not isold[i]:
                        good = False
                        break
                if good and ins >= 2:
                    add(Cand("track", (cell, new, old, pos, lo, hi)))
                    cnt += 1
                    if cnt > 12:
                        return


def wincands(rows, x, g, ints, seqs, add):
    L = []
    for r in rows:
        v = r[x]
        if not isinstance(v, int) or v < 0:
            return
        L.append(lanes_of(v, g))
    # (a single lane: a word of one byte)
    if max(len(l) for l in L) < (2 if g == 1 else 1):
        return
    if g == 1 and any(len(l) > 256 for l in L):
        return

    def support(l):
        nz = [i for i, e in enumerate(l) if e]
        return (nz[0], nz[-1]+1) if nz else None
    sup = [support(l) for l in L]
    small = [k for k in ints if k != x and all(isinstance(r[k], int) and -1 <= r[k] <= 1 << 20 for r in rows)]
    los, his = [], []
    nsup = sum(1 for s in sup if s)
    for k in small+[0]:
        val = [r[k] if isinstance(k, str) else k for r in rows]
        if all(s is None or v <= s[0] for v, s in zip(val, sup)):
            hit = sum(1 for v, s in zip(val, sup) if s and v == s[0])
            if hit >= 0.6*nsup:
                los.append(k)
        if all(s is None or v >= s[1] for v, s in zip(val, sup)):
            hit = sum(1 for v, s in zip(val, sup) if s and v == s[1])
            if hit >= 0.6*nsup:
                his.append(k)
    los, his = los[:6], his[:6]
    if not los or not his:
        return
    if g == 1:
        for lo in los:
            for hi in his:
                ok = True
                for r, l in zip(rows, L):
                    a = r[lo] if isinstance(lo, str) else lo
                    b = r[hi]if isinstance(hi, str) else hi
                    exp = sum(1 << i for i in range(a, b)) if b > a else 0
                    if exp != r[x]:
                        ok = False
                        break
                if ok:
                    add(Cand("win", ("W:"+x, g, "ones", lo, hi, 0, 0)))
        return
    diffs = [(a, b) for a in small+[0] for b in small+[0] if a != b or a == 0]
    for y in seqs:
        for lo in los:
            for hi in his:
                found = 0
                for a, b in diffs:
                    ok = True
                    used = 0
                    for r, l in zip(rows, L):
                        lo_ = r[lo] if isinstance(lo, str) else lo
                        hi_ = r[hi] if isinstance(hi, str) else hi
                        d = (r[a] if isinstance(a, str) else a)-(r[b] if isinstance(b, str) else b)
                        Y = r[y]
                        if not isinstance(Y, list):
                            try:
                                get = Y.at
                                for i in range(lo_, hi_):
                                    if get(i+d) != (l[i] if i < len(l) else 0):
                                        ok = False
                                        break
                            except Exception:
                                ok = False
                        else:
                            for i in range(lo_, hi_):
                                if not 0 <= i+d < len(Y) or Y[i+d] != (l[i] if i < len(l) else 0):
                                    ok = False
                                    break
                        if not ok:
                            break
                        used += max(hi_-lo_, 0)
                    if ok and used > 8:
                        add(Cand("win", ("W:"+x, g, y, lo, hi, a, b)))
                        found += 1
                        if found >= 4:
                            break


def infer_and_prove(run, n_samples=40, seed=1, moduli=(), max_rounds=40, only_conc=False, conc_budget=20.0):
    """returns when the unit is proved, refuted or undecided; results are in `run`"""
    import random
    import time
    t0 = time.time()
    # concrete runs: sanity of the contract on the real code, and samples for the candidates
    bad = None
    done = 0
    ends = 0
    k = -1
    while True:
        k += 1
        if k >= n_samples:
            few = [i for i in run.loops.values() if len(i.samples) < 80]
            if not few or k >= 5*n_samples or time.time()-t0 > conc_budget/2:
                break
        rng = random.Random("%s/%s/%d" % (run.name, seed, k))
        ctx = Ctx(run, mode="conc", rng=rng)
        CTX[0] = ctx
        try:
            run.fn(ctx)
            ends += 1
        except PathEnd:
            pass
        except Refuted as e:
            bad = dict(label=e.label, inputs=dict(ctx.inputs), info=str(e.info), sample=k)
            break
        except PyExc as e:
            if run.opts.get("allow_exc") and isinstance(e.value, run.opts["allow_exc"]):
                pass
            else:
                bad = dict(label="no unexpected exception (%s)" % (e,), inputs=dict(ctx.inputs), info=None, sample=k)
                break
        done += 1
        if time.time()-t0 > conc_budget:
            break
    run.stats["conc_runs"] = done
    run.stats["conc_ends"] = ends
    run.conc_bad = bad
    if bad or only_conc:
        return
    moduli = tuple(moduli)
    for rnd in range(max_rounds):
        run.changed = False
        run.dropped = False
        for info in run.loops.values():
            if info.cands is None and info.samples:
                info.cands = gen_cands(info, moduli, getattr(run, "track", None))
                info.n_init = len(info.cands)
        done = explore_once(run, check=False)
        if run.changed:
            continue
        if run.dropped:
            continue
        break
    else:
        raise Unsupported("invariant inference did not converge")
    # final pass: obligations and the surviving invariants
    while True:
        run.proved = {}
        run.failures = []
        run.unknowns = []
        run.results = {}
        run.stats["obligations"] = run.stats["discharged"] = 0
        run.stats["inv_obligations"] = 0
        run.covers = {}
        run.changed = False
        run.dropped = False
        explore_once(run, check=True)
        if not run.changed and not run.dropped:
            break
    run.stats["wall"] = time.time()-t0
    for info in run.loops.values():
        if info.cands is not None:
            run.stats.setdefault("loops", {})[str(info.site)] = len(info.cands)
