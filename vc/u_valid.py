"""C23, C24: what a request must look like to be accepted, and that a rejected one leaves no trace"""
from bus import *       # noqa
import engine as E
from cocotb.triggers import Event
from unit import unit
from cocotbext.axi import axi_master, axil_master, apb
from cocotbext.axi.constants import AxiBurstType, AxiLockType, AxiProt

ADDR = 32
WIDTHS = dict(lock=1, cache=4, prot=3, qos=4, region=4, user=5, wuser=6)
OPT = ("lock", "cache", "prot", "qos", "region", "user", "wuser")
DEFAULT = dict(lock=0, cache=3, prot=2, qos=0, region=0, user=0, wuser=0)


class EvObj(Contract):
    """an Event object passed in or created by the method"""

    def __init__(self, name, world):
        self.__dict__.update(name=name, world=world)

    def isinstance(self, t):
        return t in (Event, object)

    def truth(self):
        return True

    def wait(self):
        return Aw(lambda: self.world.wait(self))

    @property
    def data(self):
        self.world.ctx.prove(self.world.waited is self, "the result is looked at when the operation completed")
        return self.world.result


class Token(Contract):
    def __init__(self, name):
        self.name = name


class Cnt(Contract):
    pass


class World:
    pass


def absent(first, names):
    """which optional signals are missing: none, all, and one at a time"""
    r = [(), tuple(names)]+[(n,) for n in names]
    return r


def methods():
    out = []
    for cls, wr, pre in ((axi_master.AxiMasterWrite, True, "aw"), (axi_master.AxiMasterRead, False, "ar")):
        names = [n for n in OPT if wr or n != "wuser"]
        for m in (("init_write", "write") if wr else ("init_read", "read")):
            for ab in absent(pre, names):
                out.append(dict(kind="axi", cls=cls.__name__, m=m, ab="+".join(ab)))
    for cls, ms in ((axil_master.AxiLiteMasterWrite, ("init_write", "write")), (axil_master.AxiLiteMasterRead, ("init_read", "read")),
                    (apb.ApbMaster, ("init_write", "write", "init_read", "read"))):
        for m in ms:
            for ab in ("", "prot"):
                out.append(dict(kind="apb" if cls is apb.ApbMaster else "axil", cls=cls.__name__, m=m, ab=ab))
    return out


def edge_int(ctx, name, lo, hi):
    """any integer; concrete runs look around the bounds"""
    return ctx.fresh_int(name, sample=lambda r: r.choice([lo-1, lo, hi, hi+1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, hi)]))


@unit(("C23", "C24"), "master requests", quick=methods(), samples=80, covers=("accepted", "rejected"), moduli=())
def _(ctx, kind, cls, m, ab):
    cls = next(getattr(x, cls) for x in (axi_master, axil_master, apb) if hasattr(x, cls))
    wr = m.endswith("write")
    init = m.startswith("init_")
    gone = set(ab.split("+")) if ab else set()
    pre = dict(axi="aw" if wr else "ar", axil="aw" if wr else "ar", apb="p")[kind]
    g = ctx.ghost
    W = World()
    W.ctx, W.waited, W.result = ctx, None, Token("result")
    o = ctx.new_obj(cls)
    q = Q(ctx, "q", put=lambda k, x: put(k, x))
    puts = []
    idle = Ev(ctx, "idle")
    n0 = ctx.fresh_int("in_flight", 0, sample=lambda r: r.randint(0, 2))
    idle.put(ite(n0 == 0, 1, 0))

    def put(k, x):
        puts.append(x)
    opts = [n for n in OPT if (kind == "axi" or n == "prot") and (wr or n != "wuser")]
    sig, bus = {}, Bag()
    for n in opts:
        if n not in gone:
            sig[n] = Sig(ctx, (pre if n != "wuser" else "")+n, WIDTHS[n])
    addr_bus = Bag(**{pre+n: s for n, s in sig.items() if n != "wuser"})
    if kind == "apb":
        o.fields.update(bus=addr_bus, command_queue=q)
        bus = addr_bus
    else:
        bus = Bag(**{pre: addr_bus})
        if wr:
            setattr(bus, "w", Bag(**({"wuser": sig["wuser"]} if "wuser" in sig else {})))
        o.fields.update({"bus": bus, "write_command_queue" if wr else "read_command_queue": q})
    for n in opts:
        o.fields[(pre if n != "wuser" else "")+n+"_present"] = n in sig
    MAXSIZE, IDS = 3, 16
    o.fields.update(address_width=ADDR, in_flight_operations=n0, _idle=idle, log=Log(), max_burst_size=MAXSIZE, id_count=IDS, id_width=4)

    # the arguments; 1: byte array and event given, 2: number for data, 3: no event, 4: list of user values
    special = ctx.choice(5 if "wuser" in opts else 4)
    end = 1 << ADDR
    L = ctx.fresh_int("length", None if not wr else 0, sample=lambda r: r.choice([0, 1, 2, 5, 9] if wr else [-1, 0, 1, 2, 5, 9]))
    if ctx.mode == "conc":
        a = ctx.fresh_int("address", sample=lambda r: r.choice([-1, 0, 1, end, end-1, end-L, end-L, end-L+1, r.randrange(end-20), r.randrange(end-20)]))
    else:
        a = ctx.fresh_int("address")
    ok = And(a >= 0, a < end)
    badtype = False
    args = {}
    if wr:
        if special == 2:
            data = ctx.fresh_int("data", 0, 255, sample=lambda r: r.randrange(256))
            badtype = True
        else:
            data = ctx.fresh_bytes("bytearray" if special == 1 else "bytes", L)
    else:
        data = L
        ok = And(ok, L >= 0)
    fixed = False
    want = {}
    if kind == "axi":
        args["burst"] = burst = ctx.fresh_int("burst", 0, 3, sample=lambda r: r.randint(0, 3))
        fixed = burst == 0
        ok = And(ok, burst <= 2)
        want["burst"] = burst
        ID = pre+"id"
        if ctx.choice(2):
            args[ID] = i = edge_int(ctx, "id", 0, IDS-1)
            ok = And(ok, i < IDS)
            want[ID] = ite(i < 0, -1, i)
        else:
            args[ID] = None
            want[ID] = -1
        if ctx.choice(2):
            args["size"] = s = edge_int(ctx, "size", 0, MAXSIZE)
            ok = And(ok, s <= MAXSIZE)
            want["size"] = ite(s < 0, MAXSIZE, s)
        else:
            args["size"] = None
            want["size"] = MAXSIZE
    ok = And(ok, Or(fixed, a+L <= end))
    lists = None
    ctx.extra_pool["inv:seen"] = lambda t: 1
    for n in opts:
        w = WIDTHS[n]
        if n == "wuser" and special == 4:
            if ctx.mode == "conc":
                vals = [ctx.rng.choice([0, 0, 1, 5, (1 << w)-1, (1 << w)-1]) for _ in range(ctx.rng.randint(0, 4))]
                if vals and ctx.rng.random() < 0.3:
                    vals[ctx.rng.randrange(len(vals))] = ctx.rng.choice([-1, 1 << w])
                K = ctx.rng.randint(0, 3)
                lst = E.relabel(ctx, SSeq("list", items=list(vals)))
            else:
                F = z3.Function(ctx.fresh_name("wuser"), z3.IntSort(), z3.IntSort())
                nn = ctx.fresh_int("nwuser", 0)

                def f(i):
                    W.last = i
                    return SInt(F(zi(i)))
                lst = E.relabel(ctx, SSeq("list", n=nn, f=f))
                K = ctx.fresh_int("K", 0)
            ref = lst.copy("list")
            args[n] = lst
            lists = (ref, K)
            seen = lambda t: None if t is None else toint(Or(K >= t, K >= ref.n, rng(ref, K, w)))
            ctx.extra_pool["inv:seen"] = seen
            if n in gone:
                ok = False
            continue
        if n == "lock":
            v = ctx.fresh_int(n, 0, 1, sample=lambda r: r.randint(0, 1))
        elif n == "prot" and kind == "axi":
            v = ctx.fresh_int(n, 0, 7, sample=lambda r: r.randint(0, 7))
        elif n == "prot":
            v = edge_int(ctx, n, 0, 7)
        else:
            v = edge_int(ctx, n, 0, (1 << w)-1)
            if ctx.mode == "conc" and ctx.rng.random() < 0.7:
                v = DEFAULT[n]
        if ctx.mode == "conc" and n in gone and ctx.rng.random() < 0.8:
            v = DEFAULT[n]
        args[n] = v
        ok = And(ok, v == DEFAULT[n]) if n in gone else And(ok, v >= 0, v < (1 << w))
        if n != "wuser":
            want[n] = v
    ev = None
    if init:
        if special == 1:
            ev = args["event"] = EvObj("given", W)
        elif special == 3:
            args["event"] = Token("not an event")
            badtype = True
    elif special == 3:
        raise PathEnd("no such request")
    if special == 2 and not wr:
        raise PathEnd("no such request")
    made = []

    def mk(*x):
        made.append(EvObj("made", W))
        return made[-1]
    ctx.handlers[Event] = mk

    def rng(ref, i, w):
        v = ref.at(i)
        return And(v >= 0, v < (1 << w))

    def effects():
        ctx.prove(len(puts) == 1, "an accepted request queues one command")
        ctx.prove(And(o.fields["in_flight_operations"] == n0+1, idle.state == 0), "an accepted request is outstanding")
        c = puts[0]
        ctx.prove(E.equal(ctx, getattr_(ctx, c, "address"), a), "the command has the requested address")
        if wr:
            d = getattr_(ctx, c, "data")
            ctx.prove(isinstance(d, SSeq) and d.kind == "bytes", "the command keeps a copy of the data")
            ctx.prove(d.n == data.n, "the command has all of the data")
            forall(ctx, data.n, lambda i: d.at(i) == data0.at(i), "the command has the requested data")
        else:
            ctx.prove(E.equal(ctx, getattr_(ctx, c, "length"), L), "the command has the requested length")
        for n, v in want.items():
            x = getattr_(ctx, c, n)
            ctx.prove((-1 if x is None else toint(x)) == v, "the command has the requested %s" % n)
        if kind == "axi" and wr:
            x = getattr_(ctx, c, "wuser")
            if lists:
                ref, K = lists
                ctx.prove(isinstance(x, SSeq), "user values stay a list")
                ctx.prove(x.n == ref.n, "no user value is lost")
                forall(ctx, ref.n, lambda i: x.at(i) == ref.at(i), "the command has the requested user values")
            else:
                ctx.prove(toint(x) == args["wuser"], "the command has the requested user value")
        e = getattr_(ctx, c, "event")
        ctx.prove(e is (ev or (made[-1] if made else None)), "the command carries the event of the operation")
        return e

    def wait(e):
        ctx.prove(effects() is e, "the call waits for its own operation")
        W.waited = e
    W.wait = wait
    if isinstance(data, SSeq):
        data0 = data.copy("bytes")
    ctx.refs["w"] = lists[0] if lists else SSeq("list", items=[])

    def go():
        r = E.call(ctx, getattr_(ctx, o, m), [a, data], args)
        return r if init else E.await_(ctx, r)
    okk = False if badtype else ok
    P0, G0, i0 = q.P, q.G, idle.state
    try:
        r = go()
    except PyExc as e:
        k = e.value.cls if isinstance(e.value, Obj) else type(e.value)
        ctx.prove(issubclass(k, ValueError), "an invalid request is a ValueError, not %s" % k.__name__)
        if lists and "wuser" in sig:
            # rejected for something else, or for one of the user values
            ref, K = lists
            if ctx.mode == "conc":
                allok = And(okk, *[rng(ref, i, WIDTHS["wuser"]) for i in range(ref.n)])
            else:
                # the value looked at last is the culprit
                last = getattr(W, "last", None)
                allok = okk if last is None else And(okk, rng(ref, last, WIDTHS["wuser"]))
            ctx.prove(Not(allok), "a valid request is accepted")
        else:
            ctx.prove(Not(okk), "a valid request is accepted")
        ctx.prove(And(q.P == P0, q.G == G0, idle.state == i0, o.fields["in_flight_operations"] == n0), "a rejected request leaves no trace")
        ctx.prove(W.waited is None, "a rejected request does not wait")
        ctx.cover("rejected")
        return
    ctx.prove(okk, "an invalid request is rejected")
    if lists and "wuser" in sig:
        ref, K = lists
        ctx.prove(Implies(And(K >= 0, K < ref.n), rng(ref, K, WIDTHS["wuser"])), "a request with a user value out of range is rejected")
    ctx.cover("accepted")
    if init:
        ctx.prove(r is effects(), "the event of the operation is returned")
    else:
        ctx.prove(r is W.result, "the result of the operation is returned")


import inspect      # noqa
INNER = dict(AxiMaster=(axi_master.AxiMasterWrite, axi_master.AxiMasterRead), AxiLiteMaster=(axil_master.AxiLiteMasterWrite, axil_master.AxiLiteMasterRead))


class Half(Contract):
    """the write or read half of a master, known by its methods only"""

    def __init__(self, ctx, cls, log):
        self.__dict__.update(ctx=ctx, cls=cls, log=log)

    def call(self, name, a, kw):
        fn = getattr(self.cls, name)
        try:
            b = inspect.signature(fn).bind(None, *a, **kw)
        except TypeError as e:
            raise PyExc(e)
        b.apply_defaults()
        tok = Token("result of "+name)
        self.log.append((self, name, dict(b.arguments), tok))
        return Aw(lambda: tok) if inspect.iscoroutinefunction(fn) else tok

    def init_write(self, *a, **kw):
        return self.call("init_write", a, kw)

    def write(self, *a, **kw):
        return self.call("write", a, kw)

    def init_read(self, *a, **kw):
        return self.call("init_read", a, kw)

    def read(self, *a, **kw):
        return self.call("read", a, kw)

    def wait(self, *a, **kw):
        return self.call("wait", a, kw)


@unit("C24", "combined masters forward", quick=[dict(cls=c, m=m) for c in INNER for m in ("init_write", "write", "init_read", "read", "wait_write", "wait_read")], samples=4)
def _(ctx, cls, m):
    inner = INNER[cls]
    outer = getattr(axi_master if cls == "AxiMaster" else axil_master, cls)
    o = ctx.new_obj(outer)
    log = []
    w, r = Half(ctx, inner[0], log), Half(ctx, inner[1], log)
    o.fields.update(write_if=w, read_if=r)
    half = w if m.endswith("write") else r
    name = "wait" if m.startswith("wait") else m
    sg = inspect.signature(getattr(half.cls, name))
    params = list(sg.parameters)[1:]
    must = [p for p in params if sg.parameters[p].default is inspect.Parameter.empty]
    how = ctx.choice(3)
    toks = {p: Token(p) for p in params}
    pos, kw, want = [], {}, {}
    if how == 0:
        pos = [toks[p] for p in params]
        want = toks
    elif how == 1:
        kw = dict(toks)
        want = toks
    else:
        pos = [toks[p] for p in must]
        want = {p: toks[p] if p in must else sg.parameters[p].default for p in params}
    x = E.call(ctx, getattr_(ctx, o, m), pos, kw)
    if inspect.iscoroutinefunction(getattr(outer, m)):
        x = E.await_(ctx, x)
    ctx.prove(len(log) == 1 and log[0][0] is half and log[0][1] == name, "the request is passed to the matching operation, once")
    got = {k: v for k, v in log[0][2].items() if k != "self"}
    ctx.prove(set(got) == set(want), "all arguments are passed on")
    for k in want:
        ctx.prove(got[k] is want[k] or not isinstance(want[k], Token) and type(got[k]) is type(want[k]) and got[k] == want[k], "%s is passed on unchanged" % k)
    if not m.startswith("wait"):
        ctx.prove(x is log[0][3], "the result is passed back")


class IdleHalf(Contract):
    def __init__(self, ctx, name):
        self.__dict__.update(ctx=ctx, name=name)

    def idle(self):
        return getattr(self.ctx.ghost, self.name) == 0

    def wait(self):
        def go():
            # returns when this half is idle; meanwhile the other half goes on, and both may get new requests
            self.ctx.world.env()
            setattr(self.ctx.ghost, self.name, 0)
        return Aw(go)


@unit("C23", "combined masters idle and wait", quick=[dict(cls=c, m=m) for c in INNER for m in ("idle", "wait")], samples=20)
def _(ctx, cls, m):
    outer = getattr(axi_master if cls == "AxiMaster" else axil_master, cls)
    o = ctx.new_obj(outer)
    g = ctx.ghost
    g.nw = ctx.fresh_int("nw", 0, sample=lambda r: r.randint(0, 2))
    g.nr = ctx.fresh_int("nr", 0, sample=lambda r: r.randint(0, 2))
    o.fields.update(write_if=IdleHalf(ctx, "nw"), read_if=IdleHalf(ctx, "nr"))
    ctx.world = World()

    def env():
        g.nw = ctx.fresh_int("nw", 0, sample=lambda r: r.choice((0, 0, 0, 1)))
        g.nr = ctx.fresh_int("nr", 0, sample=lambda r: r.choice((0, 0, 0, 1)))
    ctx.world.env = env
    if m == "idle":
        x = E.call(ctx, getattr_(ctx, o, "idle"), [], {})
        ctx.prove(Iff(truth(ctx, x), And(g.nw == 0, g.nr == 0)), "idle exactly when neither half has anything outstanding")
    else:
        E.await_(ctx, E.call(ctx, getattr_(ctx, o, "wait"), [], {}))
        ctx.prove(And(g.nw == 0, g.nr == 0), "waiting ends when nothing is outstanding")


SINGLE = dict(AxiMasterWrite=axi_master, AxiMasterRead=axi_master, AxiLiteMasterWrite=axil_master, AxiLiteMasterRead=axil_master, ApbMaster=apb)


@unit("C23", "masters idle and wait", quick=[dict(cls=c, m=m) for c in SINGLE for m in ("idle", "wait")], samples=20)
def _(ctx, cls, m):
    """the idle event is set exactly when nothing is in flight (an invariant of every process that changes either of them)"""
    o = ctx.new_obj(getattr(SINGLE[cls], cls))
    g = ctx.ghost
    n = ctx.fresh_int("n", 0, sample=lambda r: r.randint(0, 2))

    def wait(ev):
        # returns some time after the event was set; new requests may have been made since
        k = ctx.fresh_int("n", 0, sample=lambda r: r.choice((0, 0, 1)))
        E.setattr_(ctx, o, "in_flight_operations", k)
        idle.put(ite(k == 0, 1, 0))

    def null():
        ctx.prove(False, "waiting makes progress: no busy loop on an event that is set")
    idle = Ev(ctx, "idle", wait=wait, null=null)
    idle.put(ite(n == 0, 1, 0))
    o.fields.update(in_flight_operations=n, _idle=idle)
    if m == "idle":
        x = E.call(ctx, getattr_(ctx, o, "idle"), [], {})
        ctx.prove(Iff(truth(ctx, x), n == 0), "idle exactly when nothing is outstanding")
    else:
        E.await_(ctx, E.call(ctx, getattr_(ctx, o, "wait"), [], {}))
        ctx.prove(And(o.fields["in_flight_operations"] == 0), "waiting ends when nothing is outstanding")
