"""Verification-condition generator for the Python code in /repo.

The functions under contract are taken from /repo's current source on every run (their AST, by way of
the really imported module, so class hierarchy, constants, enums and named tuples are the real ones),
executed symbolically path by path, and every obligation is discharged by an SMT solver.  Loops are cut
by invariants that are inferred (candidates from concrete runs of the same code, filtered to an inductive
subset by the solver), dependencies (queues, events, channels, signals) are replaced by the contracts in
contracts.py.
"""
import ast
import builtins
import enum
import inspect
import os
import random
import sys
import textwrap
import time
import types

import z3

from values import *            # noqa
from values import CTX, _same
import values as V

REPO = os.environ.get("VERIF_REPO", "/repo")


class PathEnd(Exception):
    pass


class PyExc(Exception):
    """an exception raised by the modelled program"""

    def __init__(self, value):
        super().__init__(repr(value))
        self.value = value


class Refuted(Exception):
    """concrete mode: an obligation evaluated to false"""

    def __init__(self, label, info=None):
        super().__init__(label)
        self.label = label
        self.info = info


class Restart(Exception):
    pass


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Undef:
    def __repr__(self):
        return "<undef>"


UNDEF = _Undef()


class Lazy:
    """local variable that only an earlier iteration of the loop can have set"""

    def __init__(self, kinds, name):
        self.kinds = kinds
        self.name = name


class Contract:
    """base of dependency contracts: public methods are called natively"""


class Aw:
    """awaitable produced by a contract"""

    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name


class Opaque:
    """a value whose contents do not matter (log text, task handles...)"""

    def __init__(self, what=""):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class Obj:
    def __init__(self, ctx, cls, label):
        self.cls = cls
        self.fields = {}
        self.label = label
        self.serial = ctx.new_serial()

    def __repr__(self):
        return "<%s %s>" % (self.cls.__name__, self.label)


class Bound:
    def __init__(self, fn, obj):
        self.fn = fn
        self.obj = obj


class Coro:
    def __init__(self, fn, args, kwargs):
        self.fn = fn
        self.args = args
        self.kwargs = kwargs


class Closure:
    """lambda / nested function of the interpreted program"""

    def __init__(self, node, frame, defaults):
        self.node = node
        self.frame = frame
        self.defaults = defaults


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class SRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def count(self):
        s = self.step
        if s == 1:
            return smax(self.stop-self.start, 0)
        if s > 0:
            return smax((self.stop-self.start+(s-1))//s, 0)
        return smax((self.start-self.stop+(-s-1))//(-s), 0)


class Frame:
    def __init__(self, fn, globs, cls, depth, name):
        self.locals = {}
        self.fn = fn
        self.globs = globs
        self.cls = cls
        self.depth = depth
        self.name = name
        self.serial = 0
        self.parent = None
        self.globals_decl = set()


# ----------------------------------------------------------------------------------------------------
# source access

_SRC = {}


def module_ast(path):
    if path not in _SRC:
        src = open(path).read()
        tree = ast.parse(src)
        table = {}

        def walk(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = qual+[ch.name]
                    table[".".join(q), ch.lineno] = ch
                    for d in ch.decorator_list:
                        table[".".join(q), d.lineno] = ch
                    walk(ch, q+["<locals>"])
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, qual+[ch.name])
                elif isinstance(ch, ast.Lambda):
                    table[".".join(qual+["<lambda>"]), ch.lineno] = ch
                    walk(ch, qual)
                else:
                    walk(ch, qual)
        walk(tree, [])
        _SRC[path] = (src, tree, table)
    return _SRC[path]


def fn_ast(fn):
    code = fn.__code__
    src, tree, table = module_ast(code.co_filename)
    node = table.get((fn.__qualname__, code.co_firstlineno))
    if node is None:
        raise Unsupported("no source for %s" % fn.__qualname__)
    return node


def in_repo(fn):
    try:
        return os.path.realpath(fn.__code__.co_filename).startswith(os.path.realpath(REPO)+os.sep)
    except AttributeError:
        return False


_owner_cache = {}


def owner_class(fn, cls):
    """class in whose body fn was written"""
    k = (fn, cls)
    if k not in _owner_cache:
        r = None
        for c in cls.__mro__:
            for v in vars(c).values():
                f = v
                if isinstance(v, property):
                    if fn in (v.fget, v.fset, v.fdel):
                        r = c
                elif isinstance(v, (staticmethod, classmethod)):
                    f = v.__func__
                if f is fn:
                    r = c
            if r:
                break
        _owner_cache[k] = r
    return _owner_cache[k]


# ----------------------------------------------------------------------------------------------------


class LoopInfo:
    def __init__(self, site):
        self.site = site
        self.writes = {}        # descriptor -> True
        self.kinds = {}         # descriptor -> set of kinds
        self.cands = None       # list of candidates (objects with .eval(view))
        self.samples = []       # rows: dict name -> value, with '_cond'
        self.nmax = 0
        self.reached_body = False
        self.focus = False
        self.hints = False
        self.conds = ()
        self.flags = True
        self.lean = False
        self.entry_keep = frozenset()
        self.body_end = False


class Run:
    """state shared by all paths of one unit"""

    def __init__(self, name, fn, opts=None):
        self.name = name
        self.fn = fn
        self.loops = {}
        self.memo = {}
        self.changed = False
        self.check = True           # prove obligations (else assume them)
        self.proved = {}            # key -> True
        self.results = {}           # label -> [n_ok, n_fail, n_unknown]
        self.failures = []          # dicts
        self.unknowns = []
        self.weak = []
        self.stats = dict(paths=0, queries=0, solver_s=0.0, obligations=0, discharged=0, covers={})
        self.opts = opts or {}
        self.functions = set()
        self.trusted = set()
        self.deadline = None
        self.covers = {}
        self.solver_timeout = 4000


class Ctx:
    def __init__(self, run, prefix=(), mode="sym", rng=None, choices=None):
        self.run = run
        self.mode = mode
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.pending = []
        self.rng = rng
        self.serial = 0
        self.names = {}
        self.obl_no = 0
        self.frames = []
        self.loop_stack = []
        self.measures = {}
        self.ghost = Ghost(self)
        self.handlers = {}
        self.gran = 8
        self.unroll = 4
        self.unroll_while = 0
        self.strings = False        # text is followed character by character
        self.label_count = {}
        self.objects = {}
        self.refs = {}
        self.probing = False
        self.moduli = ()
        self.quiet = 0
        self.choices = choices
        self.trace = []
        self.skolems = {}
        self.inputs = []
        self.sample_hooks = []
        self.suspend_hook = None
        self.steps = 0
        self.max_steps = 400000
        self.extra_pool = {}
        self.entry_keep = frozenset()
        self.focus_all = False
        self.focus_flags = True
        self.focus_conds = ()
        self.focus_data = None      # loops that do not suspend: which names matter
        self.hints = None       # -> {name: condition}: loop invariants stated by the unit (checked like inferred ones)
        self.focus = False      # endless loops use only those
        self.no_unroll = False
        if mode == "sym":
            self.solver = z3.Solver()
            self.solver.set("timeout", run.solver_timeout)
        self.pc = []
        self.known = set()
        self.memo_no = 0

    # ---- bookkeeping
    def new_serial(self):
        self.serial += 1
        return self.serial

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n+1
        return "%s!%d" % (base, n) if n else base

    def cover(self, label):
        self.run.covers[label] = self.run.covers.get(label, 0)+1

    # ---- solver
    def _add(self, e):
        if isinstance(e, z3.ExprRef):
            k = e.get_id()
            if k in self.known:
                return
            self.known.add(k)
            self.pc.append(e)
            z3.Z3_solver_assert(e.ctx_ref(), self.solver.solver, e.as_ast())
            return
        self.pc.append(e)
        self.solver.add(e)

    @property
    def replaying(self):
        """an earlier path of this round went through this point in the same state"""
        return self.pos < len(self.prefix)

    def memo(self, fn):
        """fn() only adds facts and obligations: when an earlier path of this round went through it in the same state,
        the facts it added are repeated instead"""
        if self.mode != "sym":
            return fn()
        self.memo_no += 1
        key = (tuple(self.taken), self.memo_no)
        run = self.run
        if self.replaying and key in run.memo:
            facts, names, self.obl_no, self.serial = run.memo[key]
            self.names = dict(names)
            for e in facts:
                self._add(e)
            return
        n, m = len(self.pc), self.memo_no
        fn()
        if len(self.taken) == len(key[0]) and self.memo_no == m:
            run.memo[key] = (self.pc[n:], dict(self.names), self.obl_no, self.serial)

    def prove_all(self, conds):
        """conds() -> {label: condition}"""
        def go():
            for label, c in conds().items():
                self.prove(c, label)
        self.memo(go)

    def axiom(self, e):
        if self.mode == "sym":
            if isinstance(e, (bool, SBool)):
                e = zb(e)
            self._add(e)

    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.run.stats["queries"] += 1
        self.run.stats["solver_s"] += time.time()-t
        if self.run.deadline and time.time() > self.run.deadline:
            raise Unsupported("time budget of the unit used up")
        return r

    def feasible(self, e):
        r = self._check(e)
        return r != z3.unsat

    def valid(self, c):
        """is c implied by the path condition (unknown counts as no)"""
        if not isinstance(c, SBool):
            return bool(c)
        if self.mode != "sym":
            return bool(c)
        return self._check(z3.Not(c.e)) == z3.unsat

    def assume(self, c):
        if isinstance(c, SInt):
            c = c != 0
        if not isinstance(c, SBool):
            if not c:
                raise PathEnd("assume")
            return
        self._add(c.e)

    def fork(self, c):
        """decide a condition; explores both sides"""
        if isinstance(c, SInt):
            c = c != 0
        if not isinstance(c, SBool):
            return bool(c)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            if d in (True, False):
                self._add(c.e if d else z3.Not(c.e))
                return d
            # forced decisions: only one side was feasible
            return d == "T"
        ft = self.feasible(c.e)
        ff = self.feasible(z3.Not(c.e)) if ft else True
        if not ft and not ff:
            raise PathEnd("infeasible")
        if ft and ff:
            self.pending.append(self.taken+[False])
            self.taken.append(True)
            self.pos += 1
            self._add(c.e)
            return True
        self.taken.append("T" if ft else "F")
        self.pos += 1
        if not ft:
            # make sure the path itself is feasible
            return False
        return True

    truth = None

    def choice(self, n, what=""):
        """unconditional n-way branching (all explored)"""
        if self.mode == "conc":
            return self.rng.randrange(n)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d[1]
        for k in range(n-1, 0, -1):
            self.pending.append(self.taken+[("C", k)])
        self.taken.append(("C", 0))
        self.pos += 1
        return 0

    def concretize(self, x, lo=None, hi=None, limit=40):
        """branch over all feasible values of a bounded integer"""
        if not isinstance(x, (SInt, SBool)):
            return x
        x = toint(x)
        if not isinstance(x, SInt):
            return x
        n = 0
        while True:
            # a feasible value, chosen deterministically: the smallest one found by model search
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.taken.append(d)
                v = d[1]
                if d[0] == "V":
                    self._add(x.e == v)
                    return v
                self._add(x.e != v)
                continue
            r = self._check()
            if r == z3.unsat:
                raise PathEnd("infeasible")
            if r != z3.sat:
                raise Unsupported("cannot enumerate the values of an integer")
            v = self.solver.model().eval(x.e, model_completion=True).as_long()
            n += 1
            if n > limit:
                raise Unsupported("too many values for an integer that must be concrete")
            if self.feasible(x.e != v):
                self.pending.append(self.taken+[("N", v)])
            self.taken.append(("V", v))
            self.pos += 1
            self._add(x.e == v)
            return v

    # ---- inputs
    def fresh_int(self, name, lo=None, hi=None, bits=None, sample=None, track=True):
        name = self.fresh_name(name)
        if bits is not None:
            lo, hi = 0, (1 << bits)-1
        if self.mode == "conc":
            if self.choices is not None and name in self.choices:
                v = self.choices[name]
            elif sample is not None:
                v = sample(self.rng)
            else:
                a = lo if lo is not None else -8
                b = hi if hi is not None else a+40
                r = self.rng.random()
                if b-a > 300 and r < 0.6:
                    b2 = a+self.rng.choice([3, 17, 70, 300])
                    v = self.rng.randint(a, min(b, b2))
                    if r < 0.15:
                        v = max(a, b-(v-a))
                else:
                    v = self.rng.randint(a, b)
            self.inputs.append((name, v))
            return v
        x = z3.Int(name)
        if lo is not None:
            self._add(x >= lo)
        if hi is not None:
            self._add(x <= hi)
        v = SInt(x, bits if bits is not None else (hi.bit_length() if isinstance(hi, int) and lo is not None and lo >= 0 else None))
        if track:
            self.inputs.append((name, v))
        return v

    def fresh_bool(self, name, p=0.5):
        name = self.fresh_name(name)
        if self.mode == "conc":
            if self.choices is not None and name in self.choices:
                v = bool(self.choices[name])
            else:
                v = self.rng.random() < p
            self.inputs.append((name, v))
            return v
        v = SBool(z3.Bool(name))
        self.inputs.append((name, v))
        return v

    def fresh_bytes(self, name, n, kind="bytes", bits=8):
        """sequence of n unconstrained bytes"""
        name = self.fresh_name(name)
        if self.mode == "conc":
            if self.choices is not None and name in self.choices:
                items = list(self.choices[name])
                items = (items+[0]*n)[:n]
            else:
                items = [self.rng.randrange(1 << bits) for _ in range(n)]
            self.inputs.append((name, items))
            return SSeq(kind, items=items, elem_bits=bits)
        F = z3.Function(name, z3.IntSort(), z3.IntSort())
        s = SSeq(kind, n=n, f=self._fn(F, bits), elem_bits=bits)
        self.inputs.append((name, s))
        return s

    def _fn(self, F, bits):
        seen = set()

        def f(i):
            a = F(zi(i))
            k = a.get_id()
            if bits is not None and k not in seen:
                seen.add(k)
                self._keep = getattr(self, "_keep", [])
                self._keep.append(a)
                self._add(z3.And(a >= 0, a < 2**bits))
            return SInt(a, bits)
        return f

    def fresh_wide(self, name, lanes, g=8):
        name = self.fresh_name(name)
        if self.mode == "conc":
            if self.choices is not None and name in self.choices:
                v = self.choices[name]
            else:
                v = 0
                m = self.rng.random()
                for k in range(lanes):
                    b = self.rng.randrange(1 << g)
                    if m < 0.2:
                        b = (1 << g)-1
                    v |= b << (k*g)
            self.inputs.append((name, v))
            return v
        F = z3.Function(name, z3.IntSort(), z3.IntSort())
        w = Wide(g, lanes, self._fn(F, g))
        self.inputs.append((name, w))
        return w

    def skolem(self, name, lo, hi):
        """an arbitrary but fixed index: what is proved for it holds for all"""
        if self.mode == "conc":
            return None
        return self.fresh_int("sk_"+name, lo, hi)

    # ---- obligations
    def prove(self, c, label, info=None):
        if self.probing:
            return
        if isinstance(c, SInt):
            c = c != 0
        if self.mode == "conc":
            self.run.stats["conc_checks"] = self.run.stats.get("conc_checks", 0)+1
            if not c:
                raise Refuted(label, info)
            return
        self.obl_no += 1
        run = self.run
        if self.replaying and run.check:
            if isinstance(c, SBool):
                self._add(c.e)
            elif not c:
                raise PathEnd("obligation false")
            return
        key = (tuple(map(str, self.taken)), self.obl_no, label)
        st = run.results.setdefault(label, [0, 0, 0])
        if not run.check:
            if isinstance(c, SBool):
                self._add(c.e)
            elif not c:
                raise PathEnd("obligation false")
            return
        if key in run.proved:
            if isinstance(c, SBool):
                self._add(c.e)
            elif not c:
                raise PathEnd("obligation false")
            return
        run.proved[key] = True
        run.stats["obligations"] += 1
        if isinstance(c, SBool):
            r = self._check(z3.Not(c.e))
            if r == z3.unknown:
                r = second_opinion(self, z3.Not(c.e))
        else:
            r = z3.unsat if c else self._check()
            if r == z3.unsat and not c:
                st[0] += 1
                run.stats["discharged"] += 1        # the path cannot happen
                raise PathEnd("infeasible")
        if r == z3.unsat:
            st[0] += 1
            run.stats["discharged"] += 1
        elif r == z3.sat:
            st[1] += 1
            try:
                ins = self.model_inputs(self.solver.model())
            except z3.Z3Exception:      # the answer came from another solver
                ins = None
            run.failures.append(dict(label=label, inputs=ins, info=info, taken=list(self.taken),
                                     inloop=bool(self.loop_stack) or getattr(self, "past_loop", False)))
        else:
            st[2] += 1
            run.unknowns.append(label)
        if isinstance(c, SBool):
            self._add(c.e)
            if r == z3.sat and self._check() == z3.unsat:
                raise PathEnd("nothing left after a failed obligation")
        elif not c:
            raise PathEnd("obligation false")

    def model_inputs(self, m):
        out = {}

        def ev(t):
            r = m.eval(t, model_completion=True)
            if z3.is_int_value(r):
                return r.as_long()
            if z3.is_true(r):
                return True
            if z3.is_false(r):
                return False
            return str(r)
        for name, v in self.inputs:
            try:
                if isinstance(v, SInt) or isinstance(v, SBool):
                    out[name] = ev(v.e)
                elif isinstance(v, SSeq) and v.items is None:
                    n = ev(zi(v.n))
                    if isinstance(n, int) and 0 <= n <= 5000:
                        F = z3.Function(name, z3.IntSort(), z3.IntSort())
                        out[name] = [ev(F(z3.IntVal(k))) % 256 for k in range(n)]
                elif isinstance(v, Wide):
                    F = z3.Function(name, z3.IntSort(), z3.IntSort())
                    out[name] = sum((ev(F(z3.IntVal(k))) & ((1 << v.g)-1)) << (k*v.g) for k in range(v.lanes))
            except Exception:
                pass
        return out

    def raise_py(self, exc):
        raise PyExc(exc)

    # ---- write tracking
    def note_write(self, obj, field):
        if not self.loop_stack:
            return
        for rec in self.loop_stack:
            if isinstance(obj, Frame):
                if obj.serial <= rec["serial"]:
                    rec["writes"][("L", obj.depth, field)] = obj
            elif isinstance(obj, Ghost):
                rec["writes"][("G", field)] = obj
            else:
                if obj.serial <= rec["serial"]:
                    if obj.label is None:
                        raise Unsupported("write to an unlabelled object")
                    rec["writes"][("F", obj.label, field)] = obj

    def new_label(self, what):
        k = self.label_count.get(what, 0)
        self.label_count[what] = k+1
        return "%s#%d" % (what, k)

    def new_obj(self, cls, what=None):
        o = Obj(self, cls, self.new_label(what or cls.__name__))
        self.objects[o.label] = o
        return o

    def seq(self, kind, items=None, **kw):
        s = SSeq(kind, items=items, **kw)
        if s.mutable:
            site = self.frames[-1].name if self.frames else ""
            s.label = self.new_label("%s@%s:%s" % (kind, site, getattr(self, "cur_line", 0)))
            self.objects[s.label] = s
        return s


Ctx.truth = lambda self, c: truth(self, c)


class Ghost:
    """specification state; assignments are tracked so that loops havoc it"""

    def __init__(self, ctx):
        object.__setattr__(self, "_ctx", ctx)
        object.__setattr__(self, "vars", {})

    def __getattr__(self, k):
        try:
            return self.vars[k]
        except KeyError:
            raise AttributeError(k)

    def __setattr__(self, k, v):
        self._ctx.note_write(self, k)
        self.vars[k] = v


# ----------------------------------------------------------------------------------------------------


def second_opinion(ctx, neg):
    """cvc5 (then a fresh z3 with other settings) on a query the main solver left open"""
    s = z3.Solver()
    s.set("timeout", 8000)
    for p in ctx.pc:
        s.add(p)
    s.add(neg)
    t = time.time()
    r = s.check()
    ctx.run.stats["solver_s"] += time.time()-t
    if r != z3.unknown:
        if r == z3.sat:
            ctx.solver.check(neg)
        return r
    try:
        import cvc5
        txt = s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", "15000")
        parser = cvc5.InputParser(slv)
        parser.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n"+txt.replace("(check-sat)", ""), "q")
        sm = parser.getSymbolManager()
        while True:
            cmd = parser.nextCommand()
            if cmd.isNull():
                break
            cmd.invoke(slv, sm)
        res = slv.checkSat()
        if res.isUnsat():
            ctx.run.stats["cvc5"] = ctx.run.stats.get("cvc5", 0)+1
            return z3.unsat
    except Exception:
        pass
    return z3.unknown


def truth(ctx, v):
    if v is None or isinstance(v, (bool, str)):
        return bool(v)
    if isinstance(v, SBool):
        return ctx.fork(v)
    if isinstance(v, SInt):
        return ctx.fork(v != 0)
    if isinstance(v, Wide):
        return bool(v)
    if isinstance(v, SSeq):
        n = v.n
        return ctx.fork(n != 0) if isinstance(n, SInt) else n != 0
    if isinstance(v, Obj):
        m = lookup_cls(v.cls, "__bool__")
        if m is not None and in_repo_attr(m):
            return truth(ctx, call(ctx, Bound(m, v), [], {}))
        m = lookup_cls(v.cls, "__len__")
        if m is not None and in_repo_attr(m):
            return truth(ctx, _len(ctx, v))
        return True
    if isinstance(v, Contract):
        if hasattr(v, "truth"):
            return truth(ctx, v.truth())
        if hasattr(v, "length"):
            return truth(ctx, v.length())
        return True
    if isinstance(v, (Opaque,)):
        raise Unsupported("truth of an opaque value")
    return bool(v)


def in_repo_attr(m):
    return isinstance(m, types.FunctionType) and in_repo(m)


def lookup_cls(cls, name, after=None):
    mro = cls.__mro__
    if after is not None:
        mro = mro[mro.index(after)+1:]
    for c in mro:
        if name in vars(c):
            return vars(c)[name]
    return None


# ----------------------------------------------------------------------------------------------------
# attribute access


def getattr_(ctx, o, name):
    if isinstance(o, Obj):
        d = lookup_cls(o.cls, name)
        if isinstance(d, property):
            return call(ctx, Bound(d.fget, o), [], {})
        if name in o.fields:
            v = o.fields[name]
            return v
        if name == "__class__":
            return o.cls
        if d is None:
            hook = getattr(o, "missing", None)
            if hook:
                return hook(name)
            raise PyExc(AttributeError(name))
        if isinstance(d, types.FunctionType):
            return Bound(d, o)
        if isinstance(d, staticmethod):
            return d.__func__
        if isinstance(d, classmethod):
            return Bound(d.__func__, o.cls)
        return lift(ctx, d)
    if isinstance(o, SuperProxy):
        d = lookup_cls(o.obj.cls, name, after=o.cls)
        if d is None:
            raise PyExc(AttributeError(name))
        if isinstance(d, types.FunctionType):
            return Bound(d, o.obj)
        if isinstance(d, property):
            return call(ctx, Bound(d.fget, o.obj), [], {})
        return ("objmethod", name) if d is None else Bound(d, o.obj)
    if isinstance(o, Contract):
        if name.startswith("_") and not hasattr(o, name):
            raise PyExc(AttributeError(name))
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyExc(AttributeError(name))
        return v
    if isinstance(o, SSeq):
        return ("seqm", o, name)
    if isinstance(o, (SInt, SBool, Wide)):
        if name in ("to_bytes", "bit_length", "from_bytes"):
            return ("intm", o, name)
        if name == "integer":
            return o
        raise PyExc(AttributeError(name))
    if isinstance(o, bool) or isinstance(o, int):
        if name in ("to_bytes", "bit_length"):
            return ("intm", o, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise PyExc(e)
    if isinstance(o, type) and issubclass(o, int) and name == "from_bytes":
        return ("intm", None, name)
    if isinstance(o, Opaque):
        return Opaque(o.what+"."+name)
    if isinstance(o, Bound) and name in ("__name__", "__qualname__"):
        return getattr(o.fn, name)
    try:
        v = getattr(o, name)
    except AttributeError as e:
        raise PyExc(e)
    return lift(ctx, v)


def setattr_(ctx, o, name, v):
    if isinstance(o, Obj):
        d = lookup_cls(o.cls, name)
        if isinstance(d, property):
            if d.fset is None:
                raise PyExc(AttributeError(name))
            call(ctx, Bound(d.fset, o), [v], {})
            return
        ctx.note_write(o, name)
        o.fields[name] = v
        return
    if isinstance(o, Contract):
        if hasattr(o, "setattr"):
            o.setattr(name, v)
        else:
            setattr(o, name, v)
        return
    raise Unsupported("attribute assignment on %r" % (o,))


def hasattr_(ctx, o, name):
    try:
        getattr_(ctx, o, name)
        return True
    except PyExc as e:
        if isinstance(e.value, AttributeError):
            return False
        raise


def lift(ctx, v):
    """native container read from module/class level -> engine value"""
    if isinstance(v, bytes):
        return SSeq("bytes", items=list(v))
    if isinstance(v, bytearray):
        return SSeq("bytearray", items=list(v))
    if type(v) is list:
        return SSeq("list", items=[lift(ctx, x) for x in v])
    return v


# ----------------------------------------------------------------------------------------------------
# operators


def is_num(v):
    return isinstance(v, (int, SInt, SBool, Wide))


def binop(ctx, op, a, b):
    if isinstance(a, bytes):
        a = lift(ctx, a)
    if isinstance(b, bytes):
        b = lift(ctx, b)
    for x in (a, b):
        if isinstance(x, Contract):
            if hasattr(x, "as_value"):
                return binop(ctx, op, a.as_value() if isinstance(a, Contract) else a,
                             b.as_value() if isinstance(b, Contract) else b)
        if isinstance(x, Contract) and hasattr(x, "binop"):
            return x.binop(op, a, b)
    if ctx.strings and isinstance(op, ast.Add):
        if isinstance(a, str) and isinstance(b, SSeq) and b.kind == "str":
            a = SSeq("str", items=[ord(c) for c in a], elem_bits=21)
        elif isinstance(b, str) and isinstance(a, SSeq) and a.kind == "str":
            b = SSeq("str", items=[ord(c) for c in b], elem_bits=21)
    if isinstance(a, SSeq) or isinstance(b, SSeq):
        return seq_binop(ctx, op, a, b)
    if isinstance(a, (str, Opaque)) or isinstance(b, (str, Opaque)):
        if isinstance(a, (SInt, SBool, Opaque, Obj)) or isinstance(b, (SInt, SBool, Opaque, Obj)) or isinstance(b, tuple):
            return Opaque("str")
    if is_num(a) and is_num(b):
        a0 = toint(a) if not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else a
        b0 = toint(b) if not isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) else b
        try:
            if isinstance(op, ast.Add):
                return a0+b0
            if isinstance(op, ast.Sub):
                return a0-b0
            if isinstance(op, ast.Mult):
                if isinstance(a0, SInt) and isinstance(b0, SInt):
                    try:
                        b0 = ctx.concretize(b0, limit=9)
                    except Unsupported:
                        raise Unsupported("product of two symbolic integers")
                return a0*b0
            if isinstance(op, ast.FloorDiv):
                if isinstance(a0, Wide) or isinstance(b0, Wide):
                    return a0//b0
                return floordiv(a0, b0)
            if isinstance(op, ast.Mod):
                if isinstance(a0, Wide) or isinstance(b0, Wide):
                    return a0 % b0
                return mod(a0, b0)
            if isinstance(op, ast.LShift):
                return lshift(a0, b0)
            if isinstance(op, ast.RShift):
                return rshift(a0, b0)
            if isinstance(op, ast.BitAnd):
                return band(a0, b0)
            if isinstance(op, ast.BitOr):
                return bor(a0, b0)
            if isinstance(op, ast.BitXor):
                if isinstance(a0, (bool, SBool)) and isinstance(b0, (bool, SBool)):
                    return Not(Iff(a0, b0))
                if isinstance(a0, int) and isinstance(b0, int):
                    return a0 ^ b0
                raise Unsupported("xor")
            if isinstance(op, ast.Pow):
                if isinstance(b0, SInt):
                    b0 = ctx.concretize(b0)
                return a0**b0
            if isinstance(op, ast.Div):
                if isinstance(a0, int) and isinstance(b0, int):
                    return a0/b0
        except ZeroDivisionError as e:
            raise PyExc(e)
        except ValueError as e:
            raise PyExc(e)
        raise Unsupported("operator %s" % type(op).__name__)
    try:
        return _NATIVE[type(op)](a, b)
    except (TypeError, ValueError, ZeroDivisionError) as e:
        if any(isinstance(x, (SInt, SBool, Wide, Obj, Contract, Opaque)) for x in (a, b)):
            raise Unsupported("operator on %r, %r" % (a, b))
        raise PyExc(e)


import operator as _op
_NATIVE = {ast.Add: _op.add, ast.Sub: _op.sub, ast.Mult: _op.mul, ast.FloorDiv: _op.floordiv, ast.Mod: _op.mod,
           ast.Div: _op.truediv, ast.LShift: _op.lshift, ast.RShift: _op.rshift, ast.BitAnd: _op.and_,
           ast.BitOr: _op.or_, ast.BitXor: _op.xor, ast.Pow: _op.pow}


def seq_binop(ctx, op, a, b):
    if isinstance(op, ast.Add) and isinstance(a, SSeq) and isinstance(b, (SSeq, tuple)):
        b = as_seq(ctx, b)
        r = concat(a, b, a.kind)
        return relabel(ctx, r)
    if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, SSeq):
        return concat(as_seq(ctx, a), b, "tuple")
    if isinstance(op, ast.Mult):
        if not isinstance(a, SSeq):
            a, b = b, a
        b = toint(b)
        if isinstance(b, int) and a.items is not None and not (b > 64 and len(a.items) == 1 and ctx.mode == "sym"):
            return relabel(ctx, SSeq(a.kind, items=a.items*b))
        if a.items is not None and len(a.items) == 1:
            x = a.items[0]
            return relabel(ctx, SSeq(a.kind, n=smax(b, 0), f=lambda i: x, elem_bits=a.elem_bits))
        if isinstance(b, int) and b == 1:
            return relabel(ctx, a.copy(a.kind))
        raise Unsupported("sequence repetition")
    if isinstance(op, ast.Mod):
        return Opaque("str")
    raise Unsupported("sequence operator")


def relabel(ctx, s):
    if s.mutable:
        s.label = ctx.new_label("%s@%s" % (s.kind, getattr(ctx, "cur_line", 0)))
        ctx.objects[s.label] = s
    return s


def seq_eq(ctx, a, b):
    """element-wise equality of two sequences as a condition"""
    if a.is_bytes != b.is_bytes or (not a.is_bytes and a.kind != b.kind):
        return False
    an, bn = a.n, b.n
    if isinstance(an, int) and isinstance(bn, int):
        if an != bn:
            return False
        if an <= 64:
            c = True
            for k in range(an):
                c = And(c, equal(ctx, a.at(k), b.at(k)))
                if c is False:
                    return False
            return c
    if not truth(ctx, an == bn):
        return False
    if isinstance(an, SInt) or isinstance(bn, SInt):
        if a.f is not None and a.f is b.f:
            return True
    # arbitrary length: decide by a fresh boolean tied to a witness index (both directions)
    q = z3.Bool(ctx.fresh_name("seqeq"))
    k = z3.Int(ctx.fresh_name("seqeq_k"))
    kk = SInt(k)
    ctx.axiom(z3.Implies(z3.Not(q), z3.And(k >= 0, k < zi(an), zb(a.at(kk) != b.at(kk)))))
    r = SBool(q)
    if ctx.fork(r):
        # equal everywhere: instantiated at the arbitrary index of the specification, if any
        for s in ctx.skolems.values():
            ctx.axiom(z3.Implies(z3.And(zi(s) >= 0, zi(s) < zi(an)), zb(a.at(s) == b.at(s))))
        if a.f is not None and b.f is not None:
            c = SInt(z3.Int(ctx.fresh_name("each")))
            ctx.axiom(z3.ForAll([c.e], z3.Implies(z3.And(c.e >= 0, c.e < zi(an)), zb(a.f(c) == b.f(c)))))
        return True
    return False


def equal(ctx, a, b):
    if isinstance(a, bytes):
        a = lift(ctx, a)
    if isinstance(b, bytes):
        b = lift(ctx, b)
    if isinstance(a, Contract) and hasattr(a, "as_value"):
        a = a.as_value()
    if isinstance(b, Contract) and hasattr(b, "as_value"):
        b = b.as_value()
    if isinstance(a, SSeq) and isinstance(b, SSeq):
        return seq_eq(ctx, a, b)
    if is_num(a) and is_num(b):
        if isinstance(a, Wide):
            return a == b
        if isinstance(b, Wide):
            return b == a
        r = (a == b)
        return r
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        c = True
        for x, y in zip(a, b):
            c = And(c, equal(ctx, x, y))
        return c
    if isinstance(a, (SSeq, Obj, SInt, SBool, Wide, Contract)) or isinstance(b, (SSeq, Obj, SInt, SBool, Wide, Contract)):
        if isinstance(a, Obj):
            m = lookup_cls(a.cls, "__eq__")
            if in_repo_attr(m):
                return truth(ctx, call(ctx, Bound(m, a), [b], {}))
        return a is b
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported("comparison of opaque values")
    return a == b


def compare(ctx, op, a, b):
    if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
        if isinstance(a, enum.Enum) or isinstance(b, enum.Enum):
            r = equal(ctx, a, b)
        elif isinstance(a, (SInt, SBool)) and b is None or isinstance(b, (SInt, SBool)) and a is None:
            r = False
        elif isinstance(a, SBool) and isinstance(b, bool) or isinstance(b, SBool) and isinstance(a, bool):
            r = a == b
        else:
            r = a is b
            if is_num(a) and is_num(b) and not isinstance(a, bool):
                r = a is b or (isinstance(a, int) and isinstance(b, int) and a == b)
        return Not(r) if isinstance(op, ast.IsNot) else r
    if isinstance(op, ast.Eq):
        return equal(ctx, a, b)
    if isinstance(op, ast.NotEq):
        return Not(equal(ctx, a, b))
    if isinstance(op, (ast.In, ast.NotIn)):
        r = contains(ctx, b, a)
        return Not(r) if isinstance(op, ast.NotIn) else r
    if isinstance(a, Contract) and hasattr(a, "as_value"):
        a = a.as_value()
    if isinstance(b, Contract) and hasattr(b, "as_value"):
        b = b.as_value()
    if is_num(a) and is_num(b):
        a, b = toint(a), toint(b)
        f = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}[type(op)]
        if isinstance(a, int) and isinstance(b, (SInt, Wide)):
            f = {ast.Lt: _op.gt, ast.LtE: _op.ge, ast.Gt: _op.lt, ast.GtE: _op.le}[type(op)]
            return f(b, a)
        return f(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        f = {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}[type(op)]
        for x, y in zip(a, b):
            if truth(ctx, equal(ctx, x, y)):
                continue
            return compare(ctx, op, x, y)
        return f(len(a), len(b))
    try:
        return {ast.Lt: _op.lt, ast.LtE: _op.le, ast.Gt: _op.gt, ast.GtE: _op.ge}[type(op)](a, b)
    except TypeError as e:
        if any(isinstance(x, (SInt, SBool, Wide, Obj, Contract, Opaque, SSeq)) for x in (a, b)):
            if a is None or b is None or isinstance(a, SSeq) != isinstance(b, SSeq):
                raise PyExc(e)
            raise Unsupported("comparison of %r, %r" % (a, b))
        raise PyExc(e)


def contains(ctx, c, x):
    if isinstance(c, SSeq):
        if c.items is not None:
            r = False
            for y in c.items:
                r = Or(r, equal(ctx, y, x))
            return r
        raise Unsupported("membership in a symbolic sequence")
    if isinstance(c, (tuple, list, set, frozenset)):
        r = False
        for y in c:
            r = Or(r, equal(ctx, y, x))
        return r
    if isinstance(c, SDict):
        return c.contains(ctx, x)
    if isinstance(c, Contract) and hasattr(c, "contains"):
        return c.contains(x)
    if isinstance(c, SRange):
        raise Unsupported("membership in a range")
    try:
        return x in c
    except TypeError as e:
        raise PyExc(e)


class SDict:
    """dict with finitely many (possibly symbolic integer) keys present on this path"""

    def __init__(self, ctx, items=None):
        self.items_ = list(items or [])     # [key, value] pairs in insertion order
        self.serial = ctx.new_serial()
        self.label = ctx.new_label("dict@%s" % getattr(ctx, "cur_line", 0))
        ctx.objects[self.label] = self

    def find(self, ctx, k):
        for it in self.items_:
            e = equal(ctx, it[0], k)
            if e is True or (e is not False and truth(ctx, e)):
                return it
        return None

    def contains(self, ctx, k):
        return self.find(ctx, k) is not None


def getitem(ctx, o, k):
    if isinstance(o, bytes):
        o = lift(ctx, o)
    if isinstance(k, slice):
        return getslice(ctx, o, k)
    if isinstance(o, SSeq):
        k = toint(k)
        if isinstance(k, Wide):
            k = k.as_int()
        n = o.n
        if not isinstance(k, (int, SInt)):
            raise PyExc(TypeError("sequence index"))
        if isinstance(k, int) and isinstance(n, int):
            if -n <= k < n:
                return o.at(k if k >= 0 else k+n)
            raise PyExc(IndexError("index out of range"))
        if truth(ctx, And(k >= 0, k < n)):
            return o.at(k)
        if truth(ctx, And(k < 0, k >= 0-n)):
            return o.at(k+n)
        raise PyExc(IndexError("index out of range"))
    if isinstance(o, SDict):
        it = o.find(ctx, k)
        if it is None:
            raise PyExc(KeyError(k if not is_num(k) or isinstance(k, int) else "key"))
        return it[1]
    if isinstance(o, tuple):
        if isinstance(k, SInt):
            return getitem(ctx, SSeq("tuple", items=list(o)), k)
        try:
            return o[k]
        except (IndexError, TypeError) as e:
            raise PyExc(e)
    if isinstance(o, Obj):
        m = lookup_cls(o.cls, "__getitem__")
        if m is not None:
            return call(ctx, Bound(m, o), [k], {})
    if isinstance(o, Contract) and hasattr(o, "getitem"):
        return o.getitem(k)
    if isinstance(o, (str, dict)) or inspect.isclass(o):
        try:
            return o[k]
        except (IndexError, KeyError, TypeError) as e:
            raise PyExc(e)
    raise Unsupported("subscript of %r" % (o,))


def norm_index(ctx, n, x, dflt):
    if x is None:
        return dflt
    x = toint(x)
    if isinstance(x, int) and isinstance(n, int):
        if x < 0:
            x = max(x+n, 0)
        return min(x, n)
    if truth(ctx, And(x >= 0, x <= n)):
        return x
    if truth(ctx, x > n):
        return n
    if truth(ctx, x+n >= 0):
        return x+n
    return 0


def norm_slice(ctx, n, s):
    step = s.step
    if step is not None and step != 1:
        raise Unsupported("slice step")
    lo = norm_index(ctx, n, s.start, 0)
    hi = norm_index(ctx, n, s.stop, n)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(hi-lo, 0)
    if truth(ctx, hi >= lo):
        return lo, hi-lo
    return lo, 0


def getslice(ctx, o, s):
    if isinstance(o, SSeq):
        if o.items is not None and all(not isinstance(x, (SInt, SBool)) for x in (s.start, s.stop, s.step)):
            return relabel(ctx, SSeq(o.kind, items=o.items[s.start:s.stop:s.step], elem_bits=o.elem_bits))
        lo, m = norm_slice(ctx, o.n, s)
        if isinstance(lo, int) and isinstance(m, int) and o.items is not None:
            return relabel(ctx, SSeq(o.kind, items=o.items[lo:lo+m], elem_bits=o.elem_bits))
        src = o.copy(o.kind)
        if isinstance(m, int) and m <= 16:
            return relabel(ctx, SSeq(o.kind, items=[src.at(lo+k) for k in range(m)], elem_bits=o.elem_bits))
        r = SSeq(o.kind, n=m, f=lambda i: src.at(lo+i), elem_bits=o.elem_bits)
        if _same(lo, 0) and _same(m, o.n):
            r.folds = dict(o.folds)
        return relabel(ctx, r)
    if isinstance(o, Obj):
        m = lookup_cls(o.cls, "__getitem__")
        if m is not None:
            return call(ctx, Bound(m, o), [s], {})
    if isinstance(o, Contract) and hasattr(o, "getitem"):
        return o.getitem(s)
    if isinstance(o, (tuple, str)):
        return o[s]
    raise Unsupported("slice of %r" % (o,))


def setitem(ctx, o, k, v):
    if isinstance(o, SSeq):
        if o.kind not in ("list", "bytearray", "mmap"):
            raise PyExc(TypeError("object does not support item assignment"))
        if isinstance(k, slice):
            v = as_seq(ctx, v)
            if all(not isinstance(x, (SInt, SBool)) for x in (k.start, k.stop, k.step)) and o.items is not None \
                    and v.items is not None:
                items = list(o.items)
                items[k] = v.items
                o.set_to(SSeq(o.kind, items=items))
                return
            lo, m = norm_slice(ctx, o.n, k)
            old = o.copy(o.kind)
            src = v.copy(v.kind)
            vn = v.n
            if truth(ctx, vn == m):
                r = SSeq(o.kind, n=o.n, f=lambda i: ite(And(i >= lo, i < lo+vn), src.at(i-lo), old.at(i)),
                         elem_bits=o.elem_bits)
            else:
                if o.kind == "mmap":
                    raise PyExc(IndexError("mmap slice assignment is wrong size"))
                r = SSeq(o.kind, n=o.n-m+vn,
                         f=lambda i: ite(i < lo, old.at(i), ite(i < lo+vn, src.at(i-lo), old.at(i-vn+m))),
                         elem_bits=o.elem_bits)
            o.set_to(r)
            return
        k = toint(k)
        n = o.n
        if isinstance(k, int) and o.items is not None:
            if not -n <= k < n:
                raise PyExc(IndexError("assignment index out of range"))
            ctx.note_write(o, None)
            o.items[k] = v
            if o.hook:
                o.hook()
            return
        if truth(ctx, And(k >= 0, k < n)):
            pass
        elif truth(ctx, And(k < 0, k >= 0-n)):
            k = k+n
        else:
            raise PyExc(IndexError("assignment index out of range"))
        old = o.copy(o.kind)
        o.set_to(SSeq(o.kind, n=n, f=lambda i: ite(i == k, v, old.at(i)), elem_bits=o.elem_bits))
        return
    if isinstance(o, SDict):
        it = o.find(ctx, k)
        ctx.note_write(o, None)
        if it is None:
            o.items_.append([k, v])
        else:
            it[1] = v
        return
    if isinstance(o, Obj):
        m = lookup_cls(o.cls, "__setitem__")
        if m is not None:
            call(ctx, Bound(m, o), [k, v], {})
            return
    if isinstance(o, Contract) and hasattr(o, "setitem"):
        o.setitem(k, v)
        return
    raise Unsupported("item assignment on %r" % (o,))


def delitem(ctx, o, k):
    if isinstance(o, SDict):
        it = o.find(ctx, k)
        if it is None:
            raise PyExc(KeyError("key"))
        ctx.note_write(o, None)
        o.items_.remove(it)
        return
    if isinstance(o, Contract) and hasattr(o, "delitem"):
        o.delitem(k)
        return
    if isinstance(o, SSeq):
        if isinstance(k, slice):
            setitem(ctx, o, k, SSeq(o.kind, items=[]))
            return
        if isinstance(k, int) and o.items is not None:
            ctx.note_write(o, None)
            try:
                del o.items[k]
            except IndexError as e:
                raise PyExc(e)
            return
        k, n = toint(k), o.n
        if truth(ctx, And(k >= 0, k < n)):
            pass
        elif truth(ctx, And(k < 0, k >= 0-n)):
            k = k+n
        else:
            raise PyExc(IndexError("deletion index out of range"))
        old = o.copy(o.kind)
        o.set_to(SSeq(o.kind, n=n-1, f=lambda i: ite(i < k, old.at(i), old.at(i+1)), elem_bits=o.elem_bits))
        return
    raise Unsupported("del item")


def as_seq(ctx, v):
    if isinstance(v, SSeq):
        return v
    if isinstance(v, bytes):
        return SSeq("bytes", items=list(v))
    if isinstance(v, bytearray):
        return SSeq("bytearray", items=list(v))
    if isinstance(v, (tuple, list)):
        return SSeq("tuple" if isinstance(v, tuple) else "list", items=list(v))
    if isinstance(v, SRange):
        if isinstance(v.start, int) and isinstance(v.stop, int) and isinstance(v.step, int):
            return SSeq("tuple", items=list(range(v.start, v.stop, v.step)))
        st, sp = v.start, v.step
        return SSeq("tuple", n=v.count(), f=lambda i: st+i*sp)
    if isinstance(v, Obj):
        m = lookup_cls(v.cls, "__iter__")
        if m is not None:
            return as_seq(ctx, call(ctx, Bound(m, v), [], {}))
    if isinstance(v, Contract) and hasattr(v, "as_seq"):
        return v.as_seq()
    if isinstance(v, (set, frozenset, dict, str, range)):
        return SSeq("list", items=list(v))
    if isinstance(v, SDict):
        return SSeq("list", items=[k for k, _ in v.items_])
    if is_num(v) or v is None:
        raise PyExc(TypeError("object is not iterable"))
    raise Unsupported("iteration over %r" % (v,))


# ----------------------------------------------------------------------------------------------------
# calls

_BUILTIN = {}


def builtin(obj):
    def deco(f):
        _BUILTIN[id(obj)] = (obj, f)
        return f
    return deco


@builtin(len)
def _len(ctx, x):
    if isinstance(x, SSeq):
        return x.n
    if isinstance(x, SDict):
        return len(x.items_)
    if isinstance(x, Obj):
        m = lookup_cls(x.cls, "__len__")
        if m is None:
            raise PyExc(TypeError("no len()"))
        n = call(ctx, Bound(m, x), [], {})
        if isinstance(n, int) and n > sys.maxsize:
            raise PyExc(OverflowError("cannot fit 'int' into an index-sized integer"))
        if isinstance(n, SInt):
            if truth(ctx, n > sys.maxsize):
                raise PyExc(OverflowError("cannot fit 'int' into an index-sized integer"))
        return n
    if isinstance(x, Contract):
        if hasattr(x, "length"):
            return x.length()
        raise PyExc(TypeError("no len()"))
    if isinstance(x, SRange):
        return x.count()
    if is_num(x) or x is None:
        raise PyExc(TypeError("no len()"))
    return len(x)


@builtin(range)
def _range(ctx, *a):
    a = [toint(x) for x in a]
    for x in a:
        if not isinstance(x, (int, SInt)):
            if isinstance(x, Wide):
                x.as_int()
            raise PyExc(TypeError("range() integer"))
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = a+[1]
    if isinstance(a[2], SInt):
        a[2] = ctx.concretize(a[2])
    if a[2] == 0:
        raise PyExc(ValueError("range() arg 3 must not be zero"))
    return SRange(*a)


@builtin(min)
def _min(ctx, *a, key=None, default=None):
    if key is not None:
        raise Unsupported("min key")
    if len(a) == 1:
        s = as_seq(ctx, a[0])
        if s.items is None:
            raise Unsupported("min of a symbolic sequence")
        a = s.items
        if not a:
            if default is not None:
                return default
            raise PyExc(ValueError("min() arg is an empty sequence"))
    a = [toint(x) for x in a]
    if any(x is None for x in a):
        raise PyExc(TypeError("min"))
    return smin(*a)


@builtin(max)
def _max(ctx, *a, key=None, default=None):
    if key is not None:
        raise Unsupported("max key")
    if len(a) == 1:
        s = as_seq(ctx, a[0])
        if s.items is None:
            raise Unsupported("max of a symbolic sequence")
        a = s.items
        if not a:
            if default is not None:
                return default
            raise PyExc(ValueError("max() arg is an empty sequence"))
    a = [toint(x) for x in a]
    if any(x is None for x in a):
        raise PyExc(TypeError("max"))
    return smax(*a)


@builtin(abs)
def _abs(ctx, x):
    x = toint(x)
    return ite(x < 0, 0-x, x)


@builtin(divmod)
def _divmod(ctx, a, b):
    return (binop(ctx, ast.FloorDiv(), a, b), binop(ctx, ast.Mod(), a, b))


@builtin(pow)
def _pow(ctx, a, b):
    return binop(ctx, ast.Pow(), a, b)


@builtin(sum)
def _sum(ctx, s, start=0):
    s = as_seq(ctx, s)
    if s.items is None:
        try:
            return binop(ctx, ast.Add(), start, s.fold("sum"))
        except Unsupported:
            raise Unsupported("sum of a symbolic sequence")
    r = start
    for x in s.items:
        r = binop(ctx, ast.Add(), r, x)
    return r


@builtin(int)
def _int(ctx, x=0, base=None):
    if base is not None:
        return int(x, base)
    if isinstance(x, Contract):
        if hasattr(x, "as_int"):
            return x.as_int()
        raise Unsupported("int() of %r" % (x,))
    if isinstance(x, (SInt, Wide)):
        return x
    if isinstance(x, (bool, SBool)):
        return toint(x)
    if isinstance(x, Obj):
        m = lookup_cls(x.cls, "__int__")
        if m is not None:
            return call(ctx, Bound(m, x), [], {})
        raise PyExc(TypeError("int()"))
    if isinstance(x, SSeq) or x is None:
        raise PyExc(TypeError("int() argument"))
    try:
        return int(x)
    except (TypeError, ValueError) as e:
        raise PyExc(e)


@builtin(bool)
def _bool(ctx, x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return x != 0
    if isinstance(x, Contract) and hasattr(x, "truth"):
        return x.truth()
    return truth(ctx, x)


@builtin(bytes)
def _bytes(ctx, x=None, *a):
    return _mkbytes(ctx, "bytes", x, a)


@builtin(bytearray)
def _bytearray(ctx, x=None, *a):
    return relabel(ctx, _mkbytes(ctx, "bytearray", x, a))


@builtin(memoryview)
def _mv(ctx, x):
    raise Unsupported("memoryview")


def _mkbytes(ctx, kind, x, a):
    if x is None:
        return SSeq(kind, items=[])
    if isinstance(x, str):
        return SSeq(kind, items=list(x.encode(*[y for y in a])))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, SInt) or isinstance(x, int):
        if truth(ctx, x < 0):
            raise PyExc(ValueError("negative count"))
        if isinstance(x, int):
            if x > 1 << 20:
                raise Unsupported("huge bytes()")
            if x > 256 and ctx.mode == "sym":
                return SSeq(kind, n=x, f=lambda i: 0)
            return SSeq(kind, items=[0]*x)
        return SSeq(kind, n=x, f=lambda i: 0)
    if isinstance(x, Obj):
        m = lookup_cls(x.cls, "__bytes__")
        if m is not None:
            return _mkbytes(ctx, kind, call(ctx, Bound(m, x), [], {}), ())
    s = as_seq(ctx, x)
    if not s.is_bytes:
        # every element must be a byte
        if s.items is not None:
            out = []
            for v in s.items:
                v = toint(v)
                if not is_num(v):
                    raise PyExc(TypeError("not an integer"))
                if isinstance(v, Wide):
                    v = v.as_int()
                if bits_of(v) is None or bits_of(v) > 8:
                    if not truth(ctx, And(v >= 0, v < 256)):
                        raise PyExc(ValueError("bytes must be in range(0, 256)"))
                    if isinstance(v, SInt):
                        v = SInt(v.e, 8)
                out.append(v)
            return SSeq(kind, items=out)
        if s.elem_bits is None or s.elem_bits > 8:
            raise Unsupported("bytes() of a symbolic list")
    r = s.copy(kind)
    r.elem_bits = 8
    return r


@builtin(list)
def _list(ctx, x=None):
    if x is None:
        return ctx.seq("list", items=[])
    if isinstance(x, SSeq):
        return relabel(ctx, x.copy("list"))
    return relabel(ctx, as_seq(ctx, x).copy("list"))


@builtin(tuple)
def _tuple(ctx, x=()):
    s = as_seq(ctx, x)
    if s.items is not None:
        return tuple(s.items)
    return s.copy("tuple")


@builtin(dict)
def _dict(ctx, *a, **kw):
    if a:
        raise Unsupported("dict()")
    return SDict(ctx, [[k, v] for k, v in kw.items()])


@builtin(set)
def _set(ctx, x=()):
    s = as_seq(ctx, x)
    if s.items is None:
        raise Unsupported("set")
    return set(s.items)


@builtin(isinstance)
def _isinstance(ctx, x, t):
    if isinstance(t, tuple):
        r = False
        for y in t:
            r = r or _isinstance(ctx, x, y)
        return r
    if isinstance(x, (SInt, Wide)):
        return t in (int, object) or (getattr(x, "enum", None) is not None and issubclass(x.enum, t))
    if isinstance(x, SBool):
        return t in (bool, int, object)
    if isinstance(x, SSeq):
        k = {"bytes": bytes, "bytearray": bytearray, "list": list, "tuple": tuple}.get(x.kind)
        return k is not None and issubclass(k, t)
    if isinstance(x, Obj):
        return issubclass(x.cls, t)
    if isinstance(x, SDict):
        return issubclass(dict, t)
    if isinstance(x, Contract):
        if hasattr(x, "isinstance"):
            return x.isinstance(t)
        return False
    return isinstance(x, t)


@builtin(issubclass)
def _issubclass(ctx, a, b):
    return issubclass(a, b)


@builtin(type)
def _type(ctx, x, *rest):
    if rest:
        raise Unsupported("type()")
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, SSeq):
        return {"bytes": bytes, "bytearray": bytearray, "list": list, "tuple": tuple}[x.kind]
    if isinstance(x, (SInt, Wide)):
        return int
    if isinstance(x, SBool):
        return bool
    return type(x)


@builtin(hasattr)
def _hasattr(ctx, o, name):
    return hasattr_(ctx, o, name)


@builtin(getattr)
def _getattr(ctx, o, name, *d):
    try:
        return getattr_(ctx, o, name)
    except PyExc as e:
        if d and isinstance(e.value, AttributeError):
            return d[0]
        raise


@builtin(setattr)
def _setattr(ctx, o, name, v):
    setattr_(ctx, o, name, v)


@builtin(callable)
def _callable(ctx, o):
    if isinstance(o, (Bound, Closure)):
        return True
    if isinstance(o, (SInt, SBool, SSeq, Wide, Contract, SDict)):
        return bool(getattr(o, "is_callable", False))
    if isinstance(o, Obj):
        return lookup_cls(o.cls, "__call__") is not None
    return callable(o)


@builtin(enumerate)
def _enumerate(ctx, s, start=0):
    s = as_seq(ctx, s)
    if s.items is not None:
        return SSeq("list", items=[(start+k, v) for k, v in enumerate(s.items)])
    return SSeq("list", n=s.n, f=lambda i: (start+i, s.at(i)))


@builtin(zip)
def _zip(ctx, *ss):
    ss = [as_seq(ctx, s) for s in ss]
    if all(s.items is not None for s in ss):
        return SSeq("list", items=list(zip(*[s.items for s in ss])))
    n = smin(*[s.n for s in ss])
    return SSeq("list", n=n, f=lambda i: tuple(s.at(i) for s in ss))


@builtin(reversed)
def _reversed(ctx, s):
    s = as_seq(ctx, s)
    if s.items is not None:
        return SSeq("list", items=list(reversed(s.items)))
    n = s.n
    return SSeq("list", n=n, f=lambda i: s.at(n-1-i))


@builtin(sorted)
def _sorted(ctx, s, key=None, reverse=False):
    s = as_seq(ctx, s)
    if s.concrete() and key is None:
        return SSeq("list", items=sorted(s.items, reverse=reverse))
    raise Unsupported("sorted")


@builtin(iter)
def _iter(ctx, s):
    return as_seq(ctx, s)


def quantify(ctx, s, p):
    """is p true of every element (both answers are explored; False comes with a witness)"""
    def at(i):
        v = s.f(i)
        if isinstance(v, SInt):
            v = v != 0
        if not isinstance(v, (bool, SBool)):
            raise Unsupported("all() over other values")
        return p(v)
    if ctx.choice(2, "all"):
        w = SInt(z3.Int(ctx.fresh_name("witness")))
        ctx.assume(And(w >= 0, w < s.n))
        ctx.assume(Not(at(w)))
        return False
    c = SInt(z3.Int(ctx.fresh_name("each")))
    b = at(c)
    ctx.axiom(z3.ForAll([c.e], z3.Implies(z3.And(c.e >= 0, c.e < zi(s.n)), zb(b))))
    return True


@builtin(any)
def _any(ctx, s):
    s = as_seq(ctx, s)
    if s.items is None:
        return Not(quantify(ctx, s, lambda c: Not(c)))
    return any(truth(ctx, x) for x in s.items)


@builtin(all)
def _all(ctx, s):
    s = as_seq(ctx, s)
    if s.items is None:
        return quantify(ctx, s, lambda c: c)
    return all(truth(ctx, x) for x in s.items)


@builtin(next)
def _next(ctx, s, *d):
    if isinstance(s, Contract) and hasattr(s, "next_"):
        return s.next_(*d)
    s = as_seq(ctx, s)
    if s.items is not None:
        if s.items:
            return s.items[0]
        if d:
            return d[0]
        raise PyExc(StopIteration())
    raise Unsupported("next")


@builtin(print)
def _print(ctx, *a, **kw):
    h = ctx.handlers.get("print")
    if h:
        h(*a, **kw)


@builtin(repr)
def _repr(ctx, x):
    return Opaque("str")


@builtin(str)
def _str(ctx, x="", *a):
    if isinstance(x, (str, int)) and not isinstance(x, enum.Enum):
        return str(x)
    return Opaque("str")


@builtin(hex)
def _hex(ctx, x):
    return Opaque("str")


@builtin(chr)
def _chr(ctx, x):
    if isinstance(x, int):
        return chr(x)
    if ctx.strings and isinstance(x, SInt):
        if truth(ctx, Or(x < 0, x > 0x10ffff)):
            raise PyExc(ValueError("chr() arg not in range"))
        return SSeq("str", items=[x], elem_bits=21)
    return Opaque("str")


@builtin(id)
def _id(ctx, x):
    return Opaque("id")


def int_method(ctx, o, name, args, kwargs):
    if name == "bit_length":
        o = toint(o)
        if isinstance(o, int):
            return o.bit_length()
        if isinstance(o, Wide):
            raise Unsupported("bit_length")
        h = ctx.handlers.get("bit_length")
        if h:
            return h(o)
        # branch over the magnitude
        if not truth(ctx, o >= 0):
            raise Unsupported("bit_length of a negative number")
        k = 0
        while True:
            if truth(ctx, o < (1 << k)):
                return k
            k += 1
            if k > 130:
                raise Unsupported("bit_length of an unbounded number")
    if name == "to_bytes":
        n = args[0] if args else kwargs.get("length", 1)
        order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
        o = toint(o)
        if isinstance(n, SInt):
            n = ctx.concretize(n)
        if isinstance(o, int):
            try:
                return SSeq("bytes", items=list(o.to_bytes(n, order)))
            except OverflowError as e:
                raise PyExc(e)
        if isinstance(o, SInt):
            if not truth(ctx, And(o >= 0, o < (1 << (8*n)))):
                raise PyExc(OverflowError("int too big to convert"))
            items = [SInt((o.e/(1 << (8*k))) % 256, 8) for k in range(n)]
            if order == "big":
                items.reverse()
            return SSeq("bytes", items=items)
        if isinstance(o, Wide):
            o = o.regran(8) if o.g != 8 else o
            if o.lanes is None:
                raise Unsupported("to_bytes of an unbounded word")
            if o.lanes > n:
                c = False
                for k in range(n, o.lanes):
                    c = Or(c, o.lane(k) != 0)
                if truth(ctx, c):
                    raise PyExc(OverflowError("int too big to convert"))
            if order == "big":
                return SSeq("bytes", n=n, f=lambda i: o.lane(n-1-i))
            return SSeq("bytes", n=n, f=lambda i: o.lane(i))
    if name == "from_bytes":
        s = as_seq(ctx, args[0])
        order = args[1] if len(args) > 1 else kwargs.get("byteorder", "big")
        n = s.n
        if s.concrete():
            return int.from_bytes(bytes(s.items), order)
        if isinstance(n, SInt):
            if order == "little":
                s2 = s.copy(s.kind)
                return Wide(8, None, lambda i: ite(And(i >= 0, i < n), s2.at(i), 0))
            n = ctx.concretize(n)
        s2 = s.copy(s.kind)
        if n == 0:
            return 0
        if n == 1:
            return s2.at(0)
        if order == "big":
            return Wide(8, n, lambda i: s2.at(n-1-i))
        return Wide(8, n, lambda i: s2.at(i))
    raise Unsupported("int.%s" % name)


def seq_method(ctx, s, name, args, kwargs):
    if name == "append":
        if not s.mutable:
            raise PyExc(AttributeError(name))
        x = args[0]
        if s.kind == "bytearray":
            x = toint(x)
            if isinstance(x, Wide):
                x = x.as_int()
            if bits_of(x) is None or bits_of(x) > 8:
                if not truth(ctx, And(x >= 0, x < 256)):
                    raise PyExc(ValueError("byte must be in range(0, 256)"))
        s.append(x)
        return None
    if name == "extend":
        if not s.mutable:
            raise PyExc(AttributeError(name))
        o = as_seq(ctx, args[0])
        if s.kind == "bytearray":
            o = _mkbytes(ctx, "bytes", o, ())
        s.extend(o)
        return None
    if name == "pop":
        if s.items is not None and all(isinstance(a, int) for a in args):
            try:
                ctx.note_write(s, None)
                return s.items.pop(*args)
            except IndexError as e:
                raise PyExc(e)
        if s.items is None:
            n = s.n
            k = args[0] if args else -1
            if not truth(ctx, n > 0):
                raise PyExc(IndexError("pop from empty list"))
            if isinstance(k, int) and k in (0, -1):
                old = s.copy(s.kind)
                v = old.at(0 if k == 0 else n-1)
                s.set_to(SSeq(s.kind, n=n-1, f=(lambda i: old.at(i+1)) if k == 0 else old.at, elem_bits=s.elem_bits))
                return v
        raise Unsupported("pop")
    if name == "insert" and s.items is not None and isinstance(args[0], int):
        ctx.note_write(s, None)
        s.items.insert(args[0], args[1])
        return None
    if name == "remove" and s.items is not None:
        for k, x in enumerate(s.items):
            if truth(ctx, equal(ctx, x, args[0])):
                ctx.note_write(s, None)
                del s.items[k]
                return None
        raise PyExc(ValueError("list.remove(x): x not in list"))
    if name == "clear":
        s.set_to(SSeq(s.kind, items=[]))
        return None
    if name == "copy":
        return relabel(ctx, s.copy(s.kind))
    if name == "__iter__":
        return s
    if name == "sort":
        if s.concrete():
            ctx.note_write(s, None)
            s.items.sort(**kwargs)
            return None
        h = ctx.handlers.get("sort")
        if h:
            return h(s)
        if s.items is not None and len(s.items) <= 4 and not kwargs:
            items = list(s.items)
            for i in range(1, len(items)):
                j = i
                while j > 0 and truth(ctx, compare(ctx, ast.Lt(), items[j], items[j-1])):
                    items[j-1], items[j] = items[j], items[j-1]
                    j -= 1
            s.set_to(SSeq(s.kind, items=items))
            return None
        raise Unsupported("sort")
    if name == "reverse" and s.items is not None:
        ctx.note_write(s, None)
        s.items.reverse()
        return None
    if name == "index" and s.items is not None:
        for k, x in enumerate(s.items):
            if truth(ctx, equal(ctx, x, args[0])):
                return k
        raise PyExc(ValueError("not in list"))
    if name == "count" and s.items is not None:
        r = 0
        for x in s.items:
            r = r+toint(equal(ctx, x, args[0]))
        return r
    if name in ("hex", "decode"):
        return Opaque("str")
    if name == "ljust" and s.is_bytes:
        raise Unsupported("ljust")
    if s.kind in ("bytes", "bytearray") and not hasattr(bytes, name) and not hasattr(bytearray, name):
        raise PyExc(AttributeError(name))
    if s.kind == "list" and not hasattr(list, name):
        raise PyExc(AttributeError(name))
    raise Unsupported("sequence method %s" % name)


def dict_method(ctx, d, name, args, kwargs):
    if name == "get":
        it = d.find(ctx, args[0])
        return it[1] if it is not None else (args[1] if len(args) > 1 else None)
    if name == "keys":
        return SSeq("list", items=[k for k, _ in d.items_])
    if name == "values":
        return SSeq("list", items=[v for _, v in d.items_])
    if name == "items":
        return SSeq("list", items=[(k, v) for k, v in d.items_])
    if name == "pop":
        it = d.find(ctx, args[0])
        if it is None:
            if len(args) > 1:
                return args[1]
            raise PyExc(KeyError("key"))
        ctx.note_write(d, None)
        d.items_.remove(it)
        return it[1]
    if name == "clear":
        ctx.note_write(d, None)
        d.items_.clear()
        return None
    if name == "setdefault":
        it = d.find(ctx, args[0])
        if it is not None:
            return it[1]
        v = args[1] if len(args) > 1 else None
        ctx.note_write(d, None)
        d.items_.append([args[0], v])
        return v
    raise Unsupported("dict.%s" % name)


def bind_args(ctx, node_args, defaults, kwdefaults, args, kwargs, fname):
    a = node_args
    names = [x.arg for x in a.posonlyargs+a.args]
    loc = {}
    args = list(args)
    if len(args) > len(names):
        if a.vararg is None:
            raise PyExc(TypeError("%s() takes %d positional arguments" % (fname, len(names))))
        loc[a.vararg.arg] = tuple(args[len(names):])
        args = args[:len(names)]
    elif a.vararg is not None:
        loc[a.vararg.arg] = ()
    for n, v in zip(names, args):
        loc[n] = v
    rest = {}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
        if k in names or k in kwonly:
            if k in loc:
                raise PyExc(TypeError("multiple values for argument %s" % k))
            loc[k] = v
        else:
            rest[k] = v
    if rest:
        if a.kwarg is None:
            raise PyExc(TypeError("%s() got an unexpected keyword argument %r" % (fname, sorted(rest)[0])))
    if a.kwarg is not None:
        loc[a.kwarg.arg] = rest
    nd = len(defaults)
    for k, n in enumerate(names):
        if n not in loc:
            j = k-(len(names)-nd)
            if j < 0:
                raise PyExc(TypeError("%s() missing argument %s" % (fname, n)))
            loc[n] = defaults[j]
    for n in kwonly:
        if n not in loc:
            if n not in kwdefaults:
                raise PyExc(TypeError("%s() missing argument %s" % (fname, n)))
            loc[n] = kwdefaults[n]
    return loc


def call(ctx, f, args, kwargs):
    h = ctx.handlers.get(f) if isinstance(f, (types.FunctionType, type, types.BuiltinFunctionType)) else None
    if h is not None:
        return h(*args, **kwargs)
    if isinstance(f, Bound):
        h = ctx.handlers.get(f.fn) if isinstance(f.fn, types.FunctionType) else None
        if h is not None:
            return h(f.obj, *args, **kwargs)
        if isinstance(f.fn, types.FunctionType) and in_repo(f.fn):
            node = fn_ast(f.fn)
            if isinstance(node, ast.AsyncFunctionDef):
                return Coro(f.fn, [f.obj]+list(args), kwargs)
            return run_function(ctx, f.fn, [f.obj]+list(args), kwargs)
        if isinstance(f.obj, Obj) and f.fn is object.__init__ or getattr(f.fn, "__objclass__", None) is object:
            return None
        return call(ctx, f.fn, [f.obj]+list(args), kwargs)
    if isinstance(f, tuple) and f and f[0] == "intm":
        return int_method(ctx, f[1], f[2], args, kwargs)
    if isinstance(f, tuple) and f and f[0] == "seqm":
        return seq_method(ctx, f[1], f[2], args, kwargs)
    if isinstance(f, tuple) and f and f[0] == "dictm":
        return dict_method(ctx, f[1], f[2], args, kwargs)
    if isinstance(f, tuple) and f and f[0] == "slicem":
        n = args[0]
        s = f[1]
        if s.step is not None and not (isinstance(s.step, int) and s.step == 1):
            return s.indices(n)
        lo = norm_index(ctx, n, s.start, 0)
        hi = norm_index(ctx, n, s.stop, n)
        return (lo, hi, 1)
    if isinstance(f, Closure):
        return run_closure(ctx, f, args, kwargs)
    if isinstance(f, Opaque):
        return Opaque(f.what+"()")
    if id(f) in _BUILTIN and _BUILTIN[id(f)][0] is f:
        return _BUILTIN[id(f)][1](ctx, *args, **kwargs)
    if isinstance(f, types.FunctionType):
        if in_repo(f):
            node = fn_ast(f)
            if isinstance(node, ast.AsyncFunctionDef):
                return Coro(f, list(args), kwargs)
            return run_function(ctx, f, args, kwargs)
        raise Unsupported("call of %s" % f.__qualname__)
    if isinstance(f, types.MethodType):
        if isinstance(f.__self__, Contract) or getattr(f.__func__, "_contract", False):
            return f(*args, **kwargs)
        if in_repo(f.__func__):
            return call(ctx, f.__func__, [f.__self__]+list(args), kwargs)
        raise Unsupported("call of %r" % (f,))
    if inspect.isclass(f):
        return instantiate(ctx, f, args, kwargs)
    if isinstance(f, Contract) and callable(f):
        return f(*args, **kwargs)
    if isinstance(f, Obj):
        m = lookup_cls(f.cls, "__call__")
        if m is not None:
            return call(ctx, Bound(m, f), args, kwargs)
    if f is None or is_num(f) or isinstance(f, (SSeq, str, tuple)):
        raise PyExc(TypeError("object is not callable"))
    if callable(f) and getattr(f, "_engine", False):
        return f(*args, **kwargs)
    if callable(f):
        # native function on concrete arguments
        def conc(v):
            if isinstance(v, SSeq) and v.concrete():
                return v.native()
            if isinstance(v, (SInt, SBool, SSeq, Wide, Obj, Contract, Opaque, SDict)):
                raise Unsupported("native call of %r on a symbolic value" % (f,))
            return v
        mod = getattr(f, "__module__", None)
        slf = getattr(f, "__self__", None)
        if mod in ("builtins", "math", "operator", "_operator", None) or isinstance(slf, (str, int, bytes)):
            h = ctx.handlers.get("str."+getattr(f, "__name__", "?")) if isinstance(slf, str) else None
            if h is not None:
                return h(slf, *args, **kwargs)
            if isinstance(slf, str) and any(isinstance(v, (SInt, SBool, Opaque, SSeq)) for v in args):
                return Opaque("str")
            try:
                return lift(ctx, f(*[conc(v) for v in args], **{k: conc(v) for k, v in kwargs.items()}))
            except (TypeError, ValueError, KeyError, IndexError, AttributeError, OverflowError) as e:
                raise PyExc(e)
        raise Unsupported("call of %r" % (f,))
    raise Unsupported("call of %r" % (f,))


def instantiate(ctx, cls, args, kwargs):
    if issubclass(cls, BaseException):
        try:
            return cls(*[("?" if isinstance(a, (SInt, SBool, SSeq, Opaque, Wide)) else a) for a in args])
        except TypeError as e:
            raise PyExc(e)
    if issubclass(cls, enum.Enum):
        x = args[0]
        if isinstance(x, Wide):
            x = x.as_int()
        if isinstance(x, Contract) and hasattr(x, "as_int"):
            x = x.as_int()
        if isinstance(x, (SInt, SBool)):
            x = toint(x)
            if issubclass(cls, enum.Flag):
                m = 0
                for v in cls:
                    m |= v.value
                ok = And(x >= 0, x <= m)
                if not ctx.valid(ok):
                    if not truth(ctx, ok):
                        # IntFlag keeps unknown bits
                        if issubclass(cls, enum.IntFlag):
                            return SInt(x.e, x.bits, enum=cls)
                        raise PyExc(ValueError("not a valid %s" % cls.__name__))
            else:
                ok = False
                for v in cls:
                    ok = Or(ok, x == int(v.value))
                if not truth(ctx, ok):
                    raise PyExc(ValueError("not a valid %s" % cls.__name__))
            return SInt(x.e, x.bits, enum=cls)
        try:
            return cls(x)
        except (ValueError, TypeError) as e:
            raise PyExc(e)
    if issubclass(cls, tuple) and hasattr(cls, "_fields"):
        try:
            return cls(*args, **kwargs)
        except TypeError as e:
            raise PyExc(e)
    if cls is object:
        return ctx.new_obj(object)
    mod = sys.modules.get(cls.__module__)
    where = getattr(mod, "__file__", "") or ""
    if os.path.realpath(where).startswith(os.path.realpath(REPO)+os.sep) or cls.__module__ in ("cocotbext.axi.stream",) \
            or getattr(cls, "_engine_ok", False):
        o = ctx.new_obj(cls, "%s@%s:%s" % (cls.__name__, ctx.frames[-1].name if ctx.frames else "", getattr(ctx, "cur_line", 0)))
        init = lookup_cls(cls, "__init__")
        if isinstance(init, types.FunctionType):
            call(ctx, Bound(init, o), args, kwargs)
        elif args or kwargs:
            if not (issubclass(cls, BaseException)):
                raise PyExc(TypeError("%s() takes no arguments" % cls.__name__))
        return o
    raise Unsupported("instantiation of %s" % cls.__qualname__)


def run_function(ctx, fn, args, kwargs, node=None):
    node = node or fn_ast(fn)
    ctx.run.functions.add(fn.__qualname__)
    if len(ctx.frames) > 40:
        raise Unsupported("recursion too deep")
    defaults = [lift(ctx, d) for d in (fn.__defaults__ or ())]
    kwd = {k: lift(ctx, v) for k, v in (fn.__kwdefaults__ or {}).items()}
    loc = bind_args(ctx, node.args, defaults, kwd, args, kwargs, fn.__name__)
    cls = None
    if args and isinstance(args[0], Obj):
        cls = owner_class(fn, args[0].cls)
    fr = Frame(fn, fn.__globals__, cls, len(ctx.frames), fn.__qualname__)
    fr.locals.update(loc)
    fr.serial = ctx.new_serial()
    if fn.__closure__:
        for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
            if n not in fr.locals and n != "__class__":
                try:
                    fr.locals[n] = lift(ctx, c.cell_contents)
                except ValueError:
                    pass
    ctx.frames.append(fr)
    line = getattr(ctx, "cur_line", 0)
    try:
        exec_block(ctx, node.body)
        return None
    except _Return as r:
        return r.v
    finally:
        ctx.frames.pop()
        ctx.cur_line = line


def run_closure(ctx, c, args, kwargs):
    node = c.node
    fr = Frame(None, c.frame.globs, c.frame.cls, len(ctx.frames), c.frame.name+".<closure>")
    fr.parent = c.frame
    fr.locals.update(bind_args(ctx, node.args, c.defaults, {}, args, kwargs, "<closure>"))
    fr.serial = ctx.new_serial()
    if isinstance(node, ast.AsyncFunctionDef):
        return Aw(lambda: _run_closure_frame(ctx, fr, node))
    return _run_closure_frame(ctx, fr, node)


def _run_closure_frame(ctx, fr, node):
    ctx.frames.append(fr)
    try:
        if isinstance(node, ast.Lambda):
            return ev(ctx, node.body)
        exec_block(ctx, node.body)
        return None
    except _Return as r:
        return r.v
    finally:
        ctx.frames.pop()


def await_(ctx, v):
    if isinstance(v, Coro):
        h = ctx.handlers.get(("await", v.fn))
        if h is not None:
            return h(*v.args, **v.kwargs)
        return run_function(ctx, v.fn, v.args, v.kwargs)
    if isinstance(v, Aw):
        return v.fn()
    if isinstance(v, Contract) and hasattr(v, "await_"):
        return v.await_()
    if v is None or is_num(v) or isinstance(v, (SSeq, tuple, str, SDict)):
        raise PyExc(TypeError("object can't be used in 'await' expression"))
    raise Unsupported("await of %r" % (v,))


# ----------------------------------------------------------------------------------------------------
# expressions


def lookup_name(ctx, name):
    fr = ctx.frames[-1]
    f = fr
    while f is not None:
        if name in f.locals:
            v = f.locals[name]
            if v is UNDEF:
                raise Unsupported("read of a variable that may be undefined: %s" % name)
            if isinstance(v, Lazy):
                import loops
                k = v.kinds[ctx.choice(len(v.kinds), "kind")]
                v = loops.adopt(ctx, loops.fresh_of(ctx, k, v.name), None)
                f.locals[name] = v
                if v is UNDEF:
                    raise Unsupported("read of a variable that may be undefined: %s" % name)
            return v
        f = f.parent
    if name in fr.globs:
        return lift(ctx, fr.globs[name])
    if hasattr(builtins, name):
        return getattr(builtins, name)
    if fr.fn is not None and name in fr.fn.__code__.co_varnames:
        raise PyExc(UnboundLocalError(name))
    raise PyExc(NameError(name))


LOGGERS = ("debug", "info", "warning", "error", "critical", "exception", "log")


def ev(ctx, n):
    ctx.steps += 1
    if ctx.steps > ctx.max_steps:
        raise Unsupported("too many steps on one path")
    m = _EV.get(type(n))
    if m is None:
        raise Unsupported("expression %s" % type(n).__name__)
    return m(ctx, n)


def e_const(ctx, n):
    return lift(ctx, n.value)


def e_name(ctx, n):
    return lookup_name(ctx, n.id)


def e_attr(ctx, n):
    return getattr_(ctx, ev(ctx, n.value), n.attr)


def e_call(ctx, n):
    # logging is not part of the verified text
    if isinstance(n.func, ast.Attribute) and n.func.attr in LOGGERS:
        o = ev(ctx, n.func.value)
        if isinstance(o, Opaque) and o.what == "log":
            return None
        f = getattr_(ctx, o, n.func.attr)
    elif isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
        fr = ctx.frames[-1]
        while fr.parent is not None:
            fr = fr.parent
        slf = fr.locals[fr.fn.__code__.co_varnames[0]]
        return SuperProxy(fr.cls, slf)
    else:
        f = ev(ctx, n.func)
    args = []
    for a in n.args:
        if isinstance(a, ast.Starred):
            s = as_seq(ctx, ev(ctx, a.value))
            if s.items is None:
                raise Unsupported("star argument")
            args.extend(s.items)
        else:
            args.append(ev(ctx, a))
    kwargs = {}
    for k in n.keywords:
        v = ev(ctx, k.value)
        if k.arg is None:
            if isinstance(v, SDict):
                v = {a: b for a, b in v.items_}
            for kk, vv in v.items():
                kwargs[kk] = vv
        else:
            kwargs[k.arg] = v
    if isinstance(f, Opaque) and f.what.startswith("log"):
        return False if f.what.endswith("isEnabledFor") else None
    if isinstance(f, tuple) and f and f[0] == "dictm":
        return dict_method(ctx, f[1], f[2], args, kwargs)
    return call(ctx, f, args, kwargs)


def e_binop(ctx, n):
    a = ev(ctx, n.left)
    b = ev(ctx, n.right)
    return binop(ctx, n.op, a, b)


def e_unary(ctx, n):
    v = ev(ctx, n.operand)
    if isinstance(n.op, ast.Not):
        if isinstance(v, SBool):
            return ~v
        return not truth(ctx, v)
    if isinstance(v, Contract) and hasattr(v, "as_value"):
        v = v.as_value()
    v = toint(v)
    if isinstance(n.op, ast.USub):
        return 0-v if isinstance(v, SInt) else -v
    if isinstance(n.op, ast.Invert):
        if isinstance(v, int):
            return ~v
        return 0-v-1
    return v


def e_bool(ctx, n):
    is_and = isinstance(n.op, ast.And)
    v = None
    for x in n.values:
        v = ev(ctx, x)
        if x is n.values[-1]:
            return v
        t = truth(ctx, v)
        if t != is_and:
            # value returned is v itself; its truth is now known
            if isinstance(v, SBool):
                return t
            return v
    return v


def e_compare(ctx, n):
    left = ev(ctx, n.left)
    res = True
    for op, c in zip(n.ops, n.comparators):
        right = ev(ctx, c)
        r = compare(ctx, op, left, right)
        if len(n.ops) == 1:
            return r
        if not truth(ctx, r):
            return False
        res = r
        left = right
    return True


def e_ifexp(ctx, n):
    if truth(ctx, ev(ctx, n.test)):
        return ev(ctx, n.body)
    return ev(ctx, n.orelse)


def e_sub(ctx, n):
    o = ev(ctx, n.value)
    k = ev(ctx, n.slice)
    return getitem(ctx, o, k)


def e_slice(ctx, n):
    return slice(ev(ctx, n.lower) if n.lower else None, ev(ctx, n.upper) if n.upper else None,
                 ev(ctx, n.step) if n.step else None)


def e_list(ctx, n):
    items = []
    for x in n.elts:
        if isinstance(x, ast.Starred):
            s = as_seq(ctx, ev(ctx, x.value))
            if s.items is None:
                raise Unsupported("star")
            items.extend(s.items)
        else:
            items.append(ev(ctx, x))
    ctx.cur_line = n.lineno
    return ctx.seq("list", items=items)


def e_tuple(ctx, n):
    s = e_list(ctx, n)
    return tuple(s.items)


def e_set(ctx, n):
    return set(ev(ctx, x) for x in n.elts)


def e_dict(ctx, n):
    ctx.cur_line = n.lineno
    d = SDict(ctx)
    for k, v in zip(n.keys, n.values):
        if k is None:
            o = ev(ctx, v)
            for kk, vv in (o.items_ if isinstance(o, SDict) else o.items()):
                d.items_.append([kk, vv])
        else:
            d.items_.append([ev(ctx, k), ev(ctx, v)])
    return d


def e_joined(ctx, n):
    vals = []
    for v in n.values:
        if isinstance(v, ast.Constant):
            if v.value:
                vals.append(v.value)
        else:
            try:
                x = ev(ctx, v.value)
            except PyExc:
                raise
            if ctx.strings and v.conversion == -1 and not isinstance(x, enum.Enum):
                spec = ev(ctx, v.format_spec) if v.format_spec is not None else ""
                vals.append(format_value(ctx, x, spec))
            elif isinstance(x, (str, int)) and not isinstance(x, enum.Enum) and v.format_spec is None and v.conversion == -1:
                vals.append(str(x))
            else:
                h = ctx.handlers.get("format")
                vals.append(h(x, v) if h else Opaque("str"))
    if all(isinstance(v, str) for v in vals):
        return "".join(vals)
    if ctx.strings and all(isinstance(v, str) or isinstance(v, SSeq) and v.kind == "str" for v in vals):
        r = ""
        for v in vals:
            r = v if isinstance(r, str) and not r else binop(ctx, ast.Add(), r, v)
        return r
    h = ctx.handlers.get("joined")
    if h:
        return h(vals)
    return Opaque("str")


def hexdigit(x):
    if isinstance(x, int):
        return ord("%x" % x)
    return ite(x < 10, x+48, x+87)


def format_value(ctx, x, spec):
    """format(x, spec) for what the text helpers use"""
    if isinstance(x, SBool):
        return Opaque("str")
    if isinstance(spec, str) and isinstance(x, (str, int)):
        try:
            return format(x, spec)
        except (ValueError, TypeError) as e:
            raise PyExc(e)
    if isinstance(x, SInt) and spec == "02x":
        if truth(ctx, And(x >= 0, x < 256)):
            return SSeq("str", items=[hexdigit(floordiv(x, 16)), hexdigit(mod(x, 16))], elem_bits=21)
        return Opaque("str")
    if isinstance(x, SInt):
        # the text of an arbitrary integer is an uninterpreted function of the value and the format
        key = "fmt:%s" % (spec if isinstance(spec, str) else "?")
        n = SInt(z3.Function(key+":len", z3.IntSort(), z3.IntSort())(zi(x)))
        ctx.axiom(n >= 1)
        F = z3.Function(key+":ch", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = SSeq("str", n=n, f=lambda i: SInt(F(zi(x), zi(i))), elem_bits=21)
        if spec == "":
            r.int_value = x
        return r
    if isinstance(x, SSeq) and x.kind == "str" or isinstance(x, str):
        w = None
        if isinstance(spec, str):
            if spec == "":
                return x
            sp = spec[1:] if spec[0] in "<" else spec
            if sp.isdigit() and not (sp[0] == "0" and len(sp) > 1):
                w = int(sp)
        elif isinstance(spec, SSeq) and getattr(spec, "int_value", None) is not None:
            w = spec.int_value
        if w is None:
            raise Unsupported("format of a string with %r" % (spec,))
        s = SSeq("str", items=[ord(c) for c in x], elem_bits=21) if isinstance(x, str) else x
        return SSeq("str", n=smax(s.n, w), f=lambda i: ite(i < s.n, s.at(i), 32), elem_bits=21)
    return Opaque("str")


def e_await(ctx, n):
    return await_(ctx, ev(ctx, n.value))


def e_lambda(ctx, n):
    return Closure(n, ctx.frames[-1], [ev(ctx, d) for d in n.args.defaults])


def e_comp(ctx, n):
    """list comprehensions / generator expressions; a generator is evaluated at once (its consumers here
    all exhaust it at once)"""
    gens = n.generators
    if len(gens) != 1:
        raise Unsupported("nested comprehension")
    g = gens[0]
    src = ev(ctx, g.iter)
    s = None if isinstance(src, Contract) and hasattr(src, "comp") else as_seq(ctx, src)
    fr = Frame(None, ctx.frames[-1].globs, ctx.frames[-1].cls, len(ctx.frames), ctx.frames[-1].name+".<comp>")
    fr.parent = ctx.frames[-1]
    fr.serial = ctx.new_serial()
    if s is None:
        def at(x, what):
            ctx.frames.append(fr)
            try:
                assign(ctx, g.target, x)
                if what == "elt":
                    return ev(ctx, n.elt)
                ok = True
                for c in g.ifs:
                    ok = And(ok, ev(ctx, c))
                return ok
            finally:
                ctx.frames.pop()
        return src.comp(at, bool(g.ifs))
    ctx.frames.append(fr)
    try:
        if s.items is not None:
            out = []
            for x in s.items:
                assign(ctx, g.target, x)
                ok = True
                for c in g.ifs:
                    if not truth(ctx, ev(ctx, c)):
                        ok = False
                        break
                if ok:
                    out.append(ev(ctx, n.elt))
            r = out
        else:
            if g.ifs:
                h = ctx.handlers.get("comp")
                if h:
                    return h(ctx, n, s)
                raise Unsupported("filtered comprehension over a symbolic sequence")
            fr_save = fr
            # elements are evaluated later, with the variables as they are now
            now = Frame(None, fr.parent.globs, fr.parent.cls, fr.parent.depth, fr.parent.name)
            now.locals = dict(fr.parent.locals)
            now.parent = fr.parent.parent
            now.fn = fr.parent.fn
            fr.parent = now

            def f(i):
                ctx.frames.append(fr_save)
                try:
                    assign(ctx, g.target, s.at(i))
                    return ev(ctx, n.elt)
                finally:
                    ctx.frames.pop()
            # one generic evaluation, so that an exception in the element expression is seen
            probe = ctx.fresh_int("comp_i", 0)
            if truth(ctx, s.n > 0):
                ctx.axiom(zb(probe < s.n))
                f(probe)
            r = None
            src_n = s.n
            res = SSeq("list", n=src_n, f=f)
    finally:
        ctx.frames.pop()
    if r is not None:
        return ctx.seq("list", items=r)
    return relabel(ctx, res)


def e_named(ctx, n):
    v = ev(ctx, n.value)
    assign(ctx, n.target, v)
    return v


_EV = {ast.Constant: e_const, ast.Name: e_name, ast.Attribute: e_attr, ast.Call: e_call, ast.BinOp: e_binop,
       ast.UnaryOp: e_unary, ast.BoolOp: e_bool, ast.Compare: e_compare, ast.IfExp: e_ifexp, ast.Subscript: e_sub,
       ast.Slice: e_slice, ast.List: e_list, ast.Tuple: e_tuple, ast.Set: e_set, ast.Dict: e_dict,
       ast.JoinedStr: e_joined, ast.Await: e_await, ast.Lambda: e_lambda, ast.ListComp: e_comp,
       ast.GeneratorExp: e_comp, ast.NamedExpr: e_named}


# ----------------------------------------------------------------------------------------------------
# statements


def assign(ctx, t, v):
    if isinstance(t, ast.Name):
        fr = ctx.frames[-1]
        if t.id in fr.globals_decl:
            raise Unsupported("assignment to a global")
        ctx.note_write(fr, t.id)
        fr.locals[t.id] = v
    elif isinstance(t, ast.Attribute):
        setattr_(ctx, ev(ctx, t.value), t.attr, v)
    elif isinstance(t, ast.Subscript):
        setitem(ctx, ev(ctx, t.value), ev(ctx, t.slice), v)
    elif isinstance(t, (ast.Tuple, ast.List)):
        s = as_seq(ctx, v)
        if any(isinstance(x, ast.Starred) for x in t.elts):
            raise Unsupported("starred assignment")
        if s.items is None:
            if not truth(ctx, s.n == len(t.elts)):
                raise PyExc(ValueError("unpack"))
            items = [s.at(k) for k in range(len(t.elts))]
        else:
            items = s.items
        if len(items) != len(t.elts):
            raise PyExc(ValueError("unpack"))
        for x, y in zip(t.elts, items):
            assign(ctx, x, y)
    else:
        raise Unsupported("assignment target")


def exec_block(ctx, body):
    for st in body:
        ex(ctx, st)


def ex(ctx, n):
    ctx.steps += 1
    if ctx.steps > ctx.max_steps:
        raise Unsupported("too many steps on one path")
    ctx.cur_line = n.lineno
    m = _EX.get(type(n))
    if m is None:
        raise Unsupported("statement %s" % type(n).__name__)
    m(ctx, n)


def s_expr(ctx, n):
    if isinstance(n.value, ast.Constant):
        return
    ev(ctx, n.value)


def s_assign(ctx, n):
    v = ev(ctx, n.value)
    for t in n.targets:
        assign(ctx, t, v)


def s_annassign(ctx, n):
    if n.value is not None:
        assign(ctx, n.target, ev(ctx, n.value))


def s_aug(ctx, n):
    t = n.target
    if isinstance(t, ast.Name):
        cur = lookup_name(ctx, t.id)
    elif isinstance(t, ast.Attribute):
        o = ev(ctx, t.value)
        cur = getattr_(ctx, o, t.attr)
    else:
        o = ev(ctx, t.value)
        k = ev(ctx, t.slice)
        cur = getitem(ctx, o, k)
    v = ev(ctx, n.value)
    if isinstance(cur, SSeq) and cur.mutable and isinstance(n.op, ast.Add):
        seq_method(ctx, cur, "extend", [v], {})
        r = cur
    else:
        r = binop(ctx, n.op, cur, v)
    if isinstance(t, ast.Name):
        assign(ctx, t, r)
    elif isinstance(t, ast.Attribute):
        setattr_(ctx, o, t.attr, r)
    else:
        setitem(ctx, o, k, r)


def s_if(ctx, n):
    if truth(ctx, ev(ctx, n.test)):
        exec_block(ctx, n.body)
    else:
        exec_block(ctx, n.orelse)


def s_return(ctx, n):
    raise _Return(ev(ctx, n.value) if n.value is not None else None)


def s_raise(ctx, n):
    if n.exc is None:
        cur = getattr(ctx, "handling", None)
        if cur is None:
            raise Unsupported("bare raise")
        raise PyExc(cur)
    v = ev(ctx, n.exc)
    if inspect.isclass(v):
        v = v()
    raise PyExc(v)


def s_assert(ctx, n):
    if not truth(ctx, ev(ctx, n.test)):
        raise PyExc(AssertionError("line %d" % n.lineno))


def s_try(ctx, n):
    try:
        try:
            exec_block(ctx, n.body)
        except PyExc as e:
            exc = e.value
            for h in n.handlers:
                if h.type is None:
                    ok = True
                else:
                    t = ev(ctx, h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    k = exc.cls if isinstance(exc, Obj) else type(exc)
                    ok = any(issubclass(k, x) for x in ts)
                if ok:
                    if h.name:
                        assign(ctx, ast.Name(id=h.name, ctx=ast.Store()), exc)
                    old = getattr(ctx, "handling", None)
                    ctx.handling = exc
                    try:
                        exec_block(ctx, h.body)
                    finally:
                        ctx.handling = old
                    break
            else:
                raise
        else:
            exec_block(ctx, n.orelse)
    except (PyExc, _Return, _Break, _Continue) as e:
        if n.finalbody:
            exec_block(ctx, n.finalbody)
        raise
    if n.finalbody:
        exec_block(ctx, n.finalbody)


def s_pass(ctx, n):
    pass


def s_break(ctx, n):
    raise _Break()


def s_continue(ctx, n):
    raise _Continue()


def s_def(ctx, n):
    if n.decorator_list:
        raise Unsupported("decorated nested function")
    c = Closure(n, ctx.frames[-1], [ev(ctx, d) for d in n.args.defaults])
    assign(ctx, ast.Name(id=n.name, ctx=ast.Store()), c)


def s_delete(ctx, n):
    for t in n.targets:
        if isinstance(t, ast.Subscript):
            delitem(ctx, ev(ctx, t.value), ev(ctx, t.slice))
        elif isinstance(t, ast.Name):
            ctx.note_write(ctx.frames[-1], t.id)
            ctx.frames[-1].locals.pop(t.id, None)
        else:
            raise Unsupported("del")


def s_global(ctx, n):
    raise Unsupported("global/nonlocal")


def s_with(ctx, n):
    raise Unsupported("with")


def s_for(ctx, n):
    from loops import for_loop
    for_loop(ctx, n)


def s_while(ctx, n):
    from loops import while_loop
    while_loop(ctx, n)


def s_import(ctx, n):
    raise Unsupported("import in a function")


_EX = {ast.Expr: s_expr, ast.Assign: s_assign, ast.AnnAssign: s_annassign, ast.AugAssign: s_aug, ast.If: s_if,
       ast.Return: s_return, ast.Raise: s_raise, ast.Assert: s_assert, ast.Try: s_try, ast.Pass: s_pass,
       ast.Break: s_break, ast.Continue: s_continue, ast.FunctionDef: s_def, ast.AsyncFunctionDef: s_def,
       ast.Delete: s_delete, ast.For: s_for, ast.While: s_while, ast.Global: s_global, ast.Nonlocal: s_global,
       ast.With: s_with}

# dict methods are reached by attribute access
_old_getattr = getattr_


def getattr_(ctx, o, name):         # noqa: F811
    if isinstance(o, SDict):
        return ("dictm", o, name)
    if isinstance(o, slice) and name == "indices":
        return ("slicem", o, name)
    return _old_getattr(ctx, o, name)


# ----------------------------------------------------------------------------------------------------
# exploration


def explore_once(run, check, max_paths=4000):
    """all paths of the unit; returns when every branch has been visited"""
    run.check = check
    run.memo = {}
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths:
            raise Unsupported("too many paths")
        ctx = Ctx(run, prefix)
        CTX[0] = ctx
        try:
            run.fn(ctx)
            run.covers["end"] = run.covers.get("end", 0)+1
        except PathEnd:
            pass
        except PyExc as e:
            ctx.taken_exc = e
            if run.opts.get("allow_exc") and isinstance(e.value, run.opts["allow_exc"]):
                pass
            else:
                try:
                    ctx.prove(False, "no unexpected exception (%s: %s)" % (type(e.value).__name__ if not isinstance(e.value, Obj)
                                                                       else e.value.cls.__name__, str(e.value)[:60]))
                except PathEnd:
                    pass
        run.stats["paths"] += 1
        stack.extend(reversed(ctx.pending))
        if run.changed:
            return False
        if run.deadline and time.time() > run.deadline:
            raise Unsupported("time budget of the unit used up")
    return True
