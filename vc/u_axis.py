"""C18, C19, C20, C21, C26: AXI stream sources, sinks and monitors"""
from bus import *       # noqa
import engine as E
import cocotb
from cocotb.triggers import RisingEdge
from cocotb.utils import get_sim_time
from cocotb.queue import QueueFull, QueueEmpty
from unit import unit
from u_stream import Task, STEPS
from cocotbext.axi import axis
from cocotbext.axi.axis import AxiStreamFrame, AxiStreamSource, AxiStreamSink, AxiStreamMonitor, AxiStreamBase

SIDE = ("tid", "tdest", "tuser")
ALL = ("tvalid", "tready", "tlast", "tkeep")+SIDE


class World:
    """the frames that ever are in a queue, numbered: k-th frame has N(k) bytes, side-band lists of the same length
    (what AxiStreamFrame.normalize establishes, see C17)"""

    def __init__(self, ctx, bits):
        self.ctx = ctx
        self.cache = {}
        self.bits = bits
        ctx.world = self
        if ctx.mode == "sym":
            I = z3.IntSort()
            F = lambda n, *a: z3.Function(ctx.fresh_name(n), *a)        # noqa
            self.fN, self.fS = F("N", I, I), F("S", I, I)
            self.f = {n: F(n, I, I, I) for n in ("tdata", "tkeep")+SIDE}

    def N(self, k):
        ctx = self.ctx
        if ctx.mode == "conc":
            return len(self.fr(k)["tdata"])
        e = self.fN(zi(k))
        ctx.axiom(e >= 1)
        return SInt(e)

    def fr(self, k):
        if k not in self.cache:
            r = self.ctx.rng
            n = r.choice([1, 1, 2, 3, 4, 5, 7, 9])
            self.cache[k] = dict(tdata=[r.getrandbits(10) for _ in range(n)], tkeep=[r.getrandbits(2) for _ in range(n)],
                                 **{s: [r.getrandbits(8) for _ in range(n)] for s in SIDE})
        return self.cache[k]

    def at(self, nm, k, i):
        if self.ctx.mode == "conc":
            l = self.fr(k)[nm]
            return l[i] if 0 <= i < len(l) else -1
        e = self.f[nm](zi(k), zi(i))
        self.ctx.axiom(e >= 0)
        return SInt(e)

    def S(self, k):
        """total size of the frames before the k-th"""
        if self.ctx.mode == "conc":
            return sum(self.N(i) for i in range(k))
        return SInt(self.fS(zi(k)))

    def grow(self, k):
        if self.ctx.mode == "sym":
            self.ctx.axiom(zi(self.S(k+1)) == zi(self.S(k)+self.N(k)))

    def more(self, a, b):
        """frames a..b-1 exist (a <= b)"""
        if self.ctx.mode == "sym":
            self.ctx.axiom(z3.Implies(zb(a == b), zi(self.S(a)) == zi(self.S(b))))

    def make(self, k):
        return FrameRef(self, k)


def make_frame(k):
    return FrameRef(CTX[0].world, k)


class FrameRef(Contract):
    def __init__(self, w, k):
        self.__dict__["w"] = w
        self.__dict__["k"] = k

    def vkind(self):
        return make_frame

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def isinstance(self, t):
        return t is AxiStreamFrame

    def length(self):
        return self.w.N(self.k)

    def lst(self, nm):
        w, k = self.w, self.k
        if w.ctx.mode == "conc":
            return SSeq("tuple", items=list(w.fr(k)[nm]))
        return SSeq("tuple", n=w.N(k), f=lambda i: w.at(nm, k, i), elem_bits=None)

    def side(self, nm):
        g = self.w.ctx.ghost
        self.w.ctx.prove(g.norm == self.k, "side-band lists are only used once the frame is normalized")
        return self.lst(nm)

    tdata = property(lambda self: self.lst("tdata"))
    tkeep = property(lambda self: self.side("tkeep"))
    tid = property(lambda self: self.side("tid"))
    tdest = property(lambda self: self.side("tdest"))
    tuser = property(lambda self: self.side("tuser"))

    def normalize(self):
        self.w.ctx.ghost.norm = self.k

    def compact(self):
        self.w.ctx.ghost.compacted = self.k

    def handle_tx_complete(self):
        g = self.w.ctx.ghost
        g.done = g.done+1
        g.done_k = self.k


class DataSig(Sig):
    """a signal made of lanes"""
    hook = None

    def __init__(self, ctx, name, lanes, g):
        self.lanes, self.g = lanes, g
        super().__init__(ctx, name, lanes*g, init=self.mk(ctx, name))

    def mk(self, ctx, name):
        if ctx.mode == "conc":
            return ctx.rng.getrandbits(self.lanes*self.g)
        F = z3.Function(ctx.fresh_name(name), z3.IntSort(), z3.IntSort())
        return Wide(self.g, self.lanes, ctx._fn(F, self.g))

    @property
    def value(self):
        return getattr(self.ctx.ghost, self.name)

    @value.setter
    def value(self, v):
        ctx = self.ctx
        if isinstance(v, int):
            ctx.prove(0 <= v < 1 << self.lanes*self.g, "value fits the signal %s" % self.name)
            if ctx.mode == "sym":
                v = const_wide(v, self.g)
                v.lanes = self.lanes
        elif isinstance(v, Wide):
            if v.g != self.g:
                v = v.regran(self.g)
            if v.lanes is None:
                i = SInt(z3.Int(ctx.fresh_name("above")))
                ctx.prove(Implies(i >= self.lanes, v.lane(i) == 0), "value fits the signal %s" % self.name)
                v = Wide(v.g, self.lanes, v.f)
            else:
                ctx.prove(v.lanes <= self.lanes, "value fits the signal %s" % self.name)
        elif isinstance(v, SInt):
            ctx.prove(v.bits is not None and v.bits <= self.g*self.lanes or And(v >= 0, v < 1 << self.g*self.lanes), "value fits the signal %s" % self.name)
            if v.bits is not None and v.bits <= self.g or ctx.valid(v < 1 << self.g):
                v = Wide(self.g, self.lanes, lambda i, v=v: ite(i == 0, v, 0) if not isinstance(i, int) else (v if i == 0 else 0))
            else:
                g = self.g
                v = Wide(g, self.lanes, lambda i, v=v: mod(floordiv(v, 1 << (g*i)), 1 << g))
        setattr(ctx.ghost, self.name+"_n", v)
        if self.hook:
            self.hook()


def lane(v, g, j):
    if isinstance(v, Wide):
        return v.lane(j)
    return v >> (g*j) & ((1 << g)-1)


def axis_obj(ctx, cls, sigs, lanes, size):
    o = ctx.new_obj(cls)
    bus = Bag()
    S = {}
    for n in sigs:
        if n == "tkeep":
            s = DataSig(ctx, n, lanes, 1)
        else:
            s = Sig(ctx, n, 1 if n in ("tvalid", "tready", "tlast") else 8, checked=n in ("tvalid", "tready", "tlast"))
        S[n] = s
        setattr(bus, n, s)
    S["tdata"] = bus.tdata = DataSig(ctx, "tdata", lanes, size)
    o.fields.update(bus=bus, clock=Clock(), log=Log(), active=ctx.fresh_bool("active"), byte_lanes=lanes, byte_size=size,
                    byte_mask=2**size-1, width=lanes*size, _pause=ctx.fresh_bool("pause", 0.3), _run_cr=None, current_frame=None,
                    queue_occupancy_limit_bytes=-1, queue_occupancy_limit_frames=-1)
    ctx.handlers[get_sim_time] = lambda *a, **k: 0
    return o, S, bus


FULL = ALL
SIGS = {"all": FULL, "no tready": tuple(x for x in FULL if x != "tready"), "no tvalid": tuple(x for x in FULL if x != "tvalid"),
        "plain": ("tvalid", "tready", "tlast"), "bare": ("tvalid",), "keep": ("tvalid", "tready", "tlast", "tkeep")}


@unit(("C18", "C20", "C26"), "AxiStreamSource._run",
      quick=[dict(sigs="all", lanes=l, size=8) for l in (1, 2)]+[dict(sigs="all", lanes=2, size=5), dict(sigs="keep", lanes=3, size=8)]
      + [dict(sigs=s, lanes=2, size=8) for s in SIGS if s not in ("all", "keep")],
      thorough=[dict(sigs="all", lanes=l, size=s) for l in (1, 2, 3, 4, 8, 16) for s in (8, 1, 5, 16)]
      + [dict(sigs=s, lanes=2, size=8) for s in SIGS if s not in ("all", "keep")],
      samples=40, forever=True, covers=("edge", "sleep"))
def _(ctx, sigs, lanes, size):
    o, S, bus = axis_obj(ctx, AxiStreamSource, SIGS[sigs], lanes, size)
    ctx.unroll = 64
    g = ctx.ghost
    w = World(ctx, size)
    st = dict(n=0)
    g.at_edge = 0
    g.norm, g.done, g.done_k = -1, 0, -1
    # the frame being sent: its number and the position of its next byte
    g.has, g.cur, g.pos = 0, 0, 0
    tv, tr = S.get("tvalid"), S.get("tready")
    pays = [n for n in S if n not in ("tvalid", "tready")]

    def on_get(k):
        w.grow(k)
        ctx.prove(g.has == 0, "a frame is only taken when the one before is finished")
        g.has, g.cur, g.pos = 1, k, 0
    q = Q(ctx, "q", w.make, get=on_get)

    def occ():
        return And(o.fields["queue_occupancy_bytes"] == w.S(q.P)-w.S(q.G), o.fields["queue_occupancy_frames"] == q.P-q.G)

    def wrote():
        """ghost: called when the process puts a beat on the bus"""
        end = g.pos+lanes >= w.N(g.cur)
        g.pos = g.pos+lanes
        g.has = ite(end, 0, g.has)

    def spec():
        e = g.at_edge != 0
        v = tv.cur != 0 if tv else True
        r = tr.cur != 0 if tr else True
        stall = And(v, Not(r))
        avail = Or(g.has0 != 0, g.P0 > g.G0)
        k = ite(g.has0 != 0, g.cur0, g.G0)
        p = ite(g.has0 != 0, g.pos0, 0)
        go = And(e, Not(stall), avail, g.p0 == 0)
        rest = And(e, Not(stall), Not(go))
        n = w.N(k)
        m = ite(n-p < lanes, n-p, lanes)        # bytes in this beat
        end = p+lanes >= n
        d = {}

        def same(s):
            if isinstance(s, DataSig):
                c = True
                for j in range(lanes):
                    c = And(c, lane(s.nxt, s.g, j) == lane(s.cur, s.g, j))
                return c
            return s.nxt == s.cur
        d["outputs only change after a clock edge"] = Implies(Not(e), And(*[same(s) for n_, s in S.items() if n_ != "tready"]))
        d["a stalled beat stays unchanged"] = Implies(And(e, stall), And(*[same(s) for n_, s in S.items() if n_ != "tready"]))
        for j in range(lanes):
            d["lane %d carries its byte" % j] = Implies(And(go, j < m), lane(S["tdata"].nxt, size, j) == mod(w.at("tdata", k, p+j), 1 << size))
            if "tkeep" in S:
                d["lane %d carries its keep bit" % j] = Implies(And(go, j < m), lane(S["tkeep"].nxt, 1, j) == mod(w.at("tkeep", k, p+j), 2))
                d["unused lane %d is not kept" % j] = Implies(And(go, j >= m), lane(S["tkeep"].nxt, 1, j) == 0)
        for nm in SIDE:
            if nm in S:
                d["%s is that of the beat's bytes" % nm] = Implies(go, S[nm].nxt == w.at(nm, k, p+m-1))
        if "tlast" in S:
            d["last exactly on the final beat of a frame"] = Implies(go, S["tlast"].nxt == ite(end, 1, 0))
        if tv:
            d["valid announces the beat"] = Implies(go, tv.nxt == 1)
            d["valid is low when nothing is offered, and no beat starts while paused"] = Implies(rest, tv.nxt == 0)
        d["the completion is reported exactly once, with the final beat"] = g.done == ite(And(go, end), 1, 0)
        d["the completed frame is reported"] = Implies(And(go, end), g.done_k == k)
        d["frame in progress"] = Implies(go, And(Implies(Not(end), And(g.has == 1, g.cur == k, g.pos == p+lanes)), Implies(end, g.has == 0)))
        d["no byte is skipped"] = Implies(Not(go), Or(And(g.has == g.has0, g.cur == g.cur0, g.pos == g.pos0),
                                                      And(g.has0 == 0, g.has == 1, g.cur == g.G0, g.pos == 0, q.G == g.G0+1)))
        d["frames are taken in order, one at a time"] = Or(q.G == g.G0, And(q.G == g.G0+1, g.has0 == 0))
        d["position"] = And(Implies(g.has != 0, And(g.pos >= 0, g.pos < w.N(g.cur), g.norm == g.cur)), Or(g.has == 0, g.has == 1))
        cf = o.fields["current_frame"]
        d["the frame in progress is known"] = (g.has == 0) if cf is None else And(g.has == 1, cf.k == g.cur)
        d["a source with a frame in progress is not idle"] = Implies(g.has != 0, o.fields["active"])
        d["occupancy is the size and number of the queued frames"] = occ()
        d["queueing wakes the process"] = Or(q.P == q.G, act.state != 0)
        d["queue"] = And(q.P >= q.G, q.G >= 0)
        return d

    def suspend():
        for label, c in spec().items():
            ctx.prove(c, label)
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > STEPS:
            raise PathEnd("end of the run")
        for n, s in S.items():
            if n != "tready":
                s.commit()
        if tr:
            tr.drive(env_bool(ctx, 0.6, "r"))
        if ctx.choice(2):
            q.setG(q.P)                 # clear()
            act.clear()
        P = q.P
        env_put(ctx, q)
        act.put(ite(q.P > P, 1, act.state))
        w.more(q.G, q.P)
        E.setattr_(ctx, o, "queue_occupancy_bytes", w.S(q.P)-w.S(q.G))
        E.setattr_(ctx, o, "queue_occupancy_frames", q.P-q.G)
        E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.3))
        g.done = 0
        mark()

    def mark():
        g.G0, g.P0, g.p0 = q.G, q.P, toint(o.fields["_pause"])
        g.has0, g.cur0, g.pos0 = g.has, g.cur, g.pos

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            suspend()
            g.at_edge = 1
            ctx.cover("edge")
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def sleep(ev):
        ctx.prove(ev is act, "the process sleeps until something is queued")
        ctx.prove(And(q.P == q.G, g.has == 0), "the process never sleeps while bytes are waiting")
        if tv:
            ctx.prove(tv.nxt == 0, "valid is low while the process sleeps")
        suspend()
        g.at_edge = 0
        ctx.assume(act.state != 0)
        ctx.cover("sleep")

    def null():
        suspend()
        g.at_edge = 0
    act = Ev(ctx, "act", wait=sleep, null=null)
    act.put(ite(q.P > q.G, 1, act.state))
    for n, s in S.items():
        if n != "tready":
            s.commit()
    S["tdata"].hook = wrote
    w.more(q.G, q.P)
    o.fields.update(queue=q, dequeue_event=Ev(ctx, "deq"), idle_event=Ev(ctx, "idle"), active_event=act, wake_event=Ev(ctx, "wake"),
                    queue_occupancy_bytes=w.S(q.P)-w.S(q.G), queue_occupancy_frames=q.P-q.G)
    mark()
    names = ("G:has", "G:cur", "G:pos")
    skip = ("offset", "t", "byte_", "self.byte_", "self.queue", "self.width", "self.active", "self._", "self.sim")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "has_")+skip[2:]) and not n.endswith(("_val", "_sample")) and n not in skip[:2]
    ctx.hints = spec
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))


# ---- reassembly --------------------------------------------------------------------------------------------

def make_acc(k):
    return Acc(CTX[0].asm, k)


class Assembly:
    """the frame being assembled from the beats: `open` while it is incomplete, `nfr` frames were begun so far, it has
    `total` bytes; c_<list>: entries appended since the last suspension.  Every entry that is appended is compared with
    the lane of the sampled beat it has to come from, so the lists are the concatenation of the transferred beats."""

    def __init__(self, ctx, S, lanes, size, w):
        self.ctx, self.S, self.lanes, self.size, self.w = ctx, S, lanes, size, w
        self.lists = [n for n in ("tdata", "tkeep")+SIDE if n in S]
        g = ctx.ghost
        g.open, g.nfr, g.total = 0, 0, 0
        self.begin()
        ctx.asm = self
        ctx.handlers[AxiStreamFrame] = self.new

    def begin(self):
        g = self.ctx.ghost
        for n in self.lists:
            setattr(g, "c_"+n, 0)
        g.begun, g.puts = 0, 0

    def new(self, tdata=None, tkeep=None, tid=None, tdest=None, tuser=None, tx_complete=None, **kw):
        ctx, g = self.ctx, self.ctx.ghost
        seen = []
        for n, v in (("tdata", tdata), ("tkeep", tkeep), ("tid", tid), ("tdest", tdest), ("tuser", tuser)):
            if n in self.lists:
                if not isinstance(v, SSeq) or not v.mutable or v.kind not in ("list", "bytearray"):
                    raise Unsupported("frame made of something else than empty lists")
                ctx.prove(v.n == 0, "a frame begins empty")
                ctx.prove(not any(v is x for x in seen), "the lists of a frame are separate")
                seen.append(v)
        ctx.prove(g.open == 0, "a frame is only begun when the one before is complete")
        ctx.prove(g.begun == 0, "a beat begins at most one frame")
        g.open, g.total, g.begun = 1, 0, 1
        g.nfr = g.nfr+1
        return Acc(self, g.nfr-1)

    def expect(self, n, j):
        s = self.S[n]
        if n == "tdata":
            return lane(s.cur, self.size, j)
        if n == "tkeep":
            return lane(s.cur, 1, j)
        return s.cur

    def append(self, acc, n, v):
        ctx, g = self.ctx, self.ctx.ghost
        ctx.prove(And(acc.k == g.nfr-1, g.open == 1), "bytes only go to the frame being assembled")
        if n not in self.lists:
            ctx.prove(False, "entries only come from signals that exist")
        ctx.prove(self.moving(), "only transferred beats are recorded")
        j = getattr(g, "c_"+n)
        if not isinstance(j, int):
            j = ctx.concretize(j)
        ctx.prove(j < self.lanes, "no more %s entries than byte lanes per beat" % n)
        ctx.prove(E.equal(ctx, v, self.expect(n, j)), "%s of lane %d is the one on the bus" % (n, j))
        setattr(g, "c_"+n, j+1)
        if n == "tdata":
            g.total = g.total+1

    def put(self, k, x):
        ctx, g = self.ctx, self.ctx.ghost
        ctx.prove(isinstance(x, Acc), "the queue holds frames")
        ctx.prove(And(x.k == g.nfr-1, g.open == 1), "the delivered frame is the one being assembled")
        ctx.prove(self.moving(), "frames are only delivered with a transfer")
        ctx.prove(self.last(), "a partial frame is never delivered")
        for n in self.lists:
            ctx.prove(getattr(g, "c_"+n) == self.lanes, "the final beat's %s is in the frame when it is delivered" % n)
        g.open, g.puts = 0, g.puts+1
        if ctx.mode == "conc":
            self.w.cache[k] = dict(tdata=[0]*g.total)
        else:
            ctx.axiom(zi(self.w.N(k)) == zi(g.total))
            self.w.grow(k)


class Acc(Contract):
    def __init__(self, asm, k):
        self.asm, self.k = asm, k

    def vkind(self):
        return make_acc

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def isinstance(self, t):
        return t is AxiStreamFrame

    def length(self):
        g = self.asm.ctx.ghost
        self.asm.ctx.prove(self.k == g.nfr-1, "the length of the frame being assembled")
        return g.total

    tdata = property(lambda self: AccList(self, "tdata"))
    tkeep = property(lambda self: AccList(self, "tkeep"))
    tid = property(lambda self: AccList(self, "tid"))
    tdest = property(lambda self: AccList(self, "tdest"))
    tuser = property(lambda self: AccList(self, "tuser"))


class AccList(Contract):
    def __init__(self, acc, n):
        self.acc, self.n = acc, n

    def append(self, v):
        self.acc.asm.append(self.acc, self.n, v)

    def length(self):
        return self.acc.length()


def axis_sink(ctx, cls, sigs, lanes, size):
    sink = cls is AxiStreamSink
    o, S, bus = axis_obj(ctx, cls, SIGS[sigs], lanes, size)
    ctx.unroll = 64
    g = ctx.ghost
    w = World(ctx, size)
    asm = Assembly(ctx, S, lanes, size, w)
    st = dict(n=0)
    g.at_edge = 0
    g.pe = g.pp = 0
    limb = ctx.fresh_int("limb", -1, sample=lambda r: r.choice([-1, -1, 0, 1, 4, 9]))
    limf = ctx.fresh_int("limf", -1, sample=lambda r: r.choice([-1, -1, 0, 1, 2]))
    o.fields.update(queue_occupancy_limit_bytes=limb, queue_occupancy_limit_frames=limf)
    tv, tr, tl = S.get("tvalid"), S.get("tready"), S.get("tlast")
    own = sink and tr is not None
    q = Q(ctx, "q", w.make, put=asm.put)
    if ctx.mode == "conc":
        for k in range(q.P):
            w.fr(k)

    def full():
        b, f = w.S(q.P)-w.S(q.G), q.P-q.G
        return Or(And(limb > 0, b > limb), And(limf > 0, f > limf))

    def pause():
        return toint(o.fields["_pause"])

    def moving():
        return And(g.at_edge != 0, tv.cur != 0 if tv else True, tr.cur != 0 if tr else True)
    asm.moving = moving
    asm.last = lambda: tl.cur != 0 if tl else True

    def spec():
        e = g.at_edge != 0
        t = moving()
        la = asm.last()
        d = {}
        for n in asm.lists:
            d["every lane's %s of a transferred beat is recorded" % n] = Implies(t, getattr(g, "c_"+n) == lanes)
            d["%s is only recorded from transferred beats" % n] = Implies(Not(t), getattr(g, "c_"+n) == 0)
        d["a frame is delivered exactly once with its last beat"] = Implies(And(t, la), And(g.puts == 1, q.P == g.P0+1, g.open == 0))
        d["without last the frame stays open"] = Implies(And(t, Not(la)), And(g.puts == 0, q.P == g.P0, g.open == 1))
        d["nothing is delivered without a transfer"] = Implies(Not(t), And(g.puts == 0, q.P == g.P0, g.open == g.open0, g.nfr == g.nfr0))
        d["a beat continues the open frame, or begins one"] = Implies(t, g.nfr == g.nfr0+ite(g.open0 != 0, 0, 1))
        d["receivers are notified"] = Implies(And(t, la), act.state != 0)
        d["open frames have bytes"] = And(Implies(g.open != 0, g.total > 0), Or(g.open == 0, g.open == 1), g.nfr >= 0)
        d["occupancy is the size and number of the frames waiting"] = And(
            o.fields["queue_occupancy_bytes"] == w.S(q.P)-w.S(q.G), o.fields["queue_occupancy_frames"] == q.P-q.G)
        d["queue"] = And(q.P >= q.G, q.G >= 0)
        if own:
            d["ready follows pause and occupancy"] = Implies(And(e, g.pe == g.pp), tr.nxt == ite(Or(full(), g.pe != 0), 0, 1))
            d["ready is only raised when not paused and not full"] = Implies(And(e, tr.nxt != 0), And(Not(full()), Or(g.pe == 0, g.pp == 0)))
            d["ready only drops when paused or full"] = Implies(And(e, tr.nxt == 0), Or(full(), g.pe != 0, g.pp != 0))
            d["ready only changes after a clock edge"] = Implies(Not(e), tr.nxt == tr.cur)
        return d

    def suspend():
        for label, c in spec().items():
            ctx.prove(c, label)
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > STEPS:
            raise PathEnd("end of the run")
        if own:
            tr.commit()
        g.pp = pause()
        if tv:
            tv.drive(env_bool(ctx, 0.7, "v"))
        if tr and not own:
            tr.drive(env_bool(ctx, 0.7, "r"))
        if tl:
            tl.drive(env_bool(ctx, 0.4, "l"))
        S["tdata"].drive(S["tdata"].mk(ctx, "tdata"))
        if "tkeep" in S:
            S["tkeep"].drive(S["tkeep"].mk(ctx, "tkeep"))
        for n in SIDE:
            if n in S:
                S[n].drive(S[n].fresh())
        q.setG(q.G+ctx.fresh_int("read", 0, None if ctx.mode == "sym" else 1))
        if ctx.mode == "conc" and q.G > q.P:
            q.setG(q.P)
        ctx.assume(q.G <= q.P)
        w.more(q.G, q.P)
        E.setattr_(ctx, o, "queue_occupancy_bytes", w.S(q.P)-w.S(q.G))
        E.setattr_(ctx, o, "queue_occupancy_frames", q.P-q.G)
        E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.3))
        act.put(env_bool(ctx, 0.5, "act"))
        wake.put(env_bool(ctx, 0.5, "wake"))
        asm.begin()
        g.at_edge = 0
        mark()

    def mark():
        g.P0, g.open0, g.nfr0 = q.P, g.open, g.nfr

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            suspend()
            g.at_edge = 1
            g.pe = pause()
            ctx.cover("edge")
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def sleep(ev):
        ctx.prove(ev is wake, "the process sleeps until something changes")
        ctx.prove(g.at_edge != 0, "the process only sleeps on what it sampled at the last clock edge")
        v = tv.cur != 0 if tv else True
        if own:
            ctx.prove(Or(Not(v), tr.nxt == 0), "no transfer can happen while the process sleeps")
            ctx.prove(tr.nxt == ite(Or(full(), pause() != 0), 0, 1), "the process only sleeps when ready needs no change")
        elif tr:
            ctx.prove(Or(Not(v), tr.cur == 0), "no transfer can happen while the process sleeps")
        else:
            ctx.prove(Not(v), "no transfer can happen while the process sleeps")
        suspend()
        ctx.cover("sleep")

    def null():
        suspend()
    act = Ev(ctx, "act")
    wake = Ev(ctx, "wake", wait=sleep, null=null)
    if own:
        tr.commit()
    w.more(q.G, q.P)
    o.fields.update(queue=q, dequeue_event=Ev(ctx, "deq"), idle_event=Ev(ctx, "idle"), active_event=act, wake_event=wake,
                    queue_occupancy_bytes=w.S(q.P)-w.S(q.G), queue_occupancy_frames=q.P-q.G)
    mark()
    g.pp = pause()
    names = ("G:open", "G:nfr", "G:total", "G:open0", "G:nfr0")
    ctx.focus = lambda n: n in names or n.split(".")[0] in ("frame", "has_frame") or n in ("frame",)
    ctx.hints = spec
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))


QUICK = [dict(sigs="all", lanes=l, size=8) for l in (1, 2, 4)]+[dict(sigs="all", lanes=2, size=5)]
QUICK += [dict(sigs=s, lanes=2, size=8) for s in SIGS if s not in ("all", "keep")]
THOROUGH = [dict(sigs="all", lanes=l, size=s) for l in (1, 2, 3, 4, 8, 16) for s in (8, 1, 5, 16)]+[dict(sigs=s, lanes=2, size=8) for s in SIGS if s not in ("all", "keep")]


@unit(("C19", "C21", "C26"), "AxiStreamMonitor._run", quick=QUICK, thorough=THOROUGH, samples=40, forever=True, covers=("edge",))
def _(ctx, sigs, lanes, size):
    axis_sink(ctx, AxiStreamMonitor, sigs, lanes, size)


@unit(("C19", "C21", "C26"), "AxiStreamSink._run", quick=QUICK, thorough=THOROUGH, samples=40, forever=True, covers=("edge",))
def _(ctx, sigs, lanes, size):
    axis_sink(ctx, AxiStreamSink, sigs, lanes, size)


# ---- the methods other tasks call ---------------------------------------------------------------------------

class NewFrame(Contract):
    """a frame made by AxiStreamFrame(x): same bytes and side-bands as x (see C17)"""

    def __init__(self, src):
        self.src = src

    def isinstance(self, t):
        return t is AxiStreamFrame

    def length(self):
        return self.src.length()


class Given(Contract):
    """the frame or bytes-like object passed to send()"""

    def __init__(self, n):
        self.n = n

    def length(self):
        return self.n

    def isinstance(self, t):
        return t in (AxiStreamFrame, tuple) and t is AxiStreamFrame


CLS3 = (AxiStreamSource, AxiStreamMonitor, AxiStreamSink)


def aend(ctx, cls, sigs="all", **kw):
    """an endpoint in any state in which the occupancy counters are right"""
    o, S, bus = axis_obj(ctx, cls, SIGS[sigs], 2, 8)
    w = World(ctx, 8)
    log = []

    def put(k, x):
        log.append(x)
        n = E._len(ctx, x)
        if ctx.mode == "conc":
            w.cache[k] = dict(tdata=[0]*n)
        else:
            ctx.axiom(zi(w.N(k)) == zi(n))
            w.grow(k)
    q = Q(ctx, "q", w.make, put=put, get=w.grow)
    ev = {n: Ev(ctx, n) for n in ("deq", "idle", "act", "wake")}
    w.more(q.G, q.P)
    limb = ctx.fresh_int("limb", -1, sample=lambda r: r.choice([-1, -1, 0, 1, 4, 9]))
    limf = ctx.fresh_int("limf", -1, sample=lambda r: r.choice([-1, -1, 0, 1, 2]))
    o.fields.update(queue=q, dequeue_event=ev["deq"], idle_event=ev["idle"], active_event=ev["act"], wake_event=ev["wake"],
                    queue_occupancy_bytes=w.S(q.P)-w.S(q.G), queue_occupancy_frames=q.P-q.G,
                    queue_occupancy_limit_bytes=limb, queue_occupancy_limit_frames=limf, **kw)

    def full():
        b, f = w.S(q.P)-w.S(q.G), q.P-q.G
        return Or(And(limb > 0, b > limb), And(limf > 0, f > limf))

    def occ(label="occupancy is the size and number of the queued frames"):
        ctx.prove(o.fields["queue_occupancy_bytes"] == w.S(q.P)-w.S(q.G), label+" (bytes)")
        ctx.prove(o.fields["queue_occupancy_frames"] == q.P-q.G, label+" (frames)")
    return o, q, ev, log, w, full, occ, S


def given(ctx):
    it = Given(ctx.fresh_int("len", 1, sample=lambda r: r.randint(1, 6)))
    made = []

    def new(x, *a, **k):
        ctx.prove(x is it and not a and not k, "the frame is made of what was given")
        f = NewFrame(x)
        made.append(f)
        return f
    ctx.handlers[AxiStreamFrame] = new
    return it, made


@unit(("C18", "C26"), "AxiStreamSource.send_nowait, write_nowait", quick=[dict(name=n) for n in ("send_nowait", "write_nowait")], samples=40)
def _(ctx, name):
    o, q, ev, log, w, full, occ, S = aend(ctx, AxiStreamSource)
    P, G = q.P, q.G
    it, made = given(ctx)
    f = full()
    r, _ = expect(ctx, lambda: E.call(ctx, getattr_(ctx, o, name), [it], {}), Not(f), (QueueFull,), "a full source")
    if r:
        ctx.prove(And(q.P == P, q.G == G, not log), "a refused frame is not queued")
        occ()
        return
    ctx.prove(len(log) == 1 and len(made) == 1 and log[0] is made[0], "the frame is queued once, as a copy")
    ctx.prove(And(q.P == P+1, q.G == G), "nothing else is queued or lost")
    ctx.prove(ev["act"].state == 1, "the process is woken")
    ctx.prove(ev["idle"].state == 0, "the source is not idle")
    occ()


@unit(("C18", "C26"), "AxiStreamSource.send, write", quick=[dict(name=n) for n in ("send", "write")], samples=60)
def _(ctx, name):
    o, q, ev, log, w, full, occ, S = aend(ctx, AxiStreamSource)
    it, made = given(ctx)
    g = ctx.ghost
    n = [0]

    def spec():
        return {"occ": And(o.fields["queue_occupancy_bytes"] == w.S(q.P)-w.S(q.G), o.fields["queue_occupancy_frames"] == q.P-q.G)}

    def wait(e):
        ctx.prove(e is ev["deq"], "a full source waits for a frame to be taken")
        ctx.prove(full(), "only a full source waits")
        ctx.prove(not log, "nothing is queued before waiting")
        n[0] += 1
        if ctx.mode == "conc" and n[0] > 10:
            raise PathEnd("end of the run")
        q.setG(q.G+ctx.fresh_int("taken", 0, None if ctx.mode == "sym" else 2))
        q.setP(q.P+ctx.fresh_int("more", 0, None if ctx.mode == "sym" else 1))
        if ctx.mode == "conc" and q.G > q.P:
            q.setG(q.P)
        ctx.assume(q.G <= q.P)
        w.more(q.G, q.P)
        E.setattr_(ctx, o, "queue_occupancy_bytes", w.S(q.P)-w.S(q.G))
        E.setattr_(ctx, o, "queue_occupancy_frames", q.P-q.G)
        e.put(1)
        g.P0, g.G0 = q.P, q.G
    ev["deq"].on_wait = wait
    ev["deq"].on_null = lambda: wait(ev["deq"])
    g.P0, g.G0 = q.P, q.G
    ctx.hints = spec
    ctx.focus = lambda n: True
    ctx.focus_all = True
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, name), [it], {}))
    ctx.prove(len(log) == 1 and len(made) == 1 and log[0] is made[0], "the frame is queued once, as a copy")
    ctx.prove(And(q.P == g.P0+1, q.G == g.G0), "nothing else is queued or lost")
    b, fr = w.S(g.P0)-w.S(g.G0), g.P0-g.G0
    ctx.prove(Not(Or(And(o.fields["queue_occupancy_limit_bytes"] > 0, b > o.fields["queue_occupancy_limit_bytes"]),
                     And(o.fields["queue_occupancy_limit_frames"] > 0, fr > o.fields["queue_occupancy_limit_frames"]))),
              "a full source accepts nothing")
    ctx.prove(ev["act"].state == 1, "the process is woken")
    ctx.prove(ev["idle"].state == 0, "the source is not idle")
    occ()


@unit(("C18", "C26"), "AXI stream clear", quick=[dict(cls=c) for c in CLS3], samples=40)
def _(ctx, cls):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    P, G = q.P, q.G
    g = ctx.ghost
    g.done, g.done_k, g.norm = 0, -1, -1
    E.call(ctx, getattr_(ctx, o, "clear"), [], {})
    ctx.prove(And(q.P == P, q.G == P), "exactly what was queued is dropped")
    ctx.prove(g.done == P-G, "the completion of every dropped frame is reported once")
    ctx.prove(And(ev["deq"].state == 1, ev["wake"].state == 1, ev["idle"].state == 1), "waiting tasks are woken")
    ctx.prove(ev["act"].state == 0, "nothing is waiting in the queue")
    occ()


@unit(("C21", "C26"), "AXI stream count, empty, full, idle", quick=[dict(cls=c) for c in CLS3], samples=40)
def _(ctx, cls):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    a = o.fields["active"]
    c = lambda n: E.call(ctx, getattr_(ctx, o, n), [], {})       # noqa
    ctx.prove(c("count") == q.P-q.G, "count is the number of queued frames")
    ctx.prove(E.equal(ctx, toint(c("empty")), toint(q.P == q.G)), "empty")
    if cls is not AxiStreamMonitor:
        ctx.prove(E.equal(ctx, toint(c("full")), toint(full())), "full exactly when an occupancy limit is exceeded")
    if cls is AxiStreamSource:
        ctx.prove(E.equal(ctx, toint(c("idle")), toint(And(q.P == q.G, Not(a)))), "a source is idle when nothing is queued or being sent")
    else:
        ctx.prove(E.equal(ctx, toint(c("idle")), toint(Not(a))), "a monitor is idle when no frame is being received")


@unit(("C19", "C21", "C26"), "AXI stream recv, recv_nowait", quick=[dict(cls=c, aw=a) for c in CLS3[1:] for a in (0, 1)], samples=40)
def _(ctx, cls, aw):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    G, P = q.G, q.P
    compact = ctx.fresh_bool("compact")
    g = ctx.ghost
    g.compacted = -1
    kw = {"compact": compact}
    if ctx.choice(2):
        kw, compact = {}, True
    if aw:
        def wait(q):
            env_put(ctx, q)
            if ctx.mode == "conc" and q.P == q.G:
                q.setP(q.P+1)
            w.more(q.G, q.P)
            E.setattr_(ctx, o, "queue_occupancy_bytes", w.S(q.P)-w.S(q.G))
            E.setattr_(ctx, o, "queue_occupancy_frames", q.P-q.G)
            ev["wake"].put(toint(ctx.fresh_bool("w")))
            ev["act"].put(1)
            ctx.cover("waits")
        q.on_wait = wait
        r = E.await_(ctx, E.call(ctx, getattr_(ctx, o, "recv"), [], kw))
    else:
        bad, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, o, "recv_nowait"), [], kw), P > G, (QueueEmpty,), "an empty queue")
        if bad:
            ctx.prove(q.G == G, "nothing is taken")
            occ()
            return
    ctx.prove(isinstance(r, FrameRef), "a frame is returned")
    ctx.prove(And(r.k == G, q.G == G+1), "the oldest frame is returned and taken once")
    ctx.prove(not log, "nothing is queued")
    ctx.prove(g.compacted == ite(compact, r.k, -1), "the frame is compacted exactly when asked for")
    occ("occupancy is the size and number of the frames waiting")
    if cls is AxiStreamSink:
        ctx.prove(ev["wake"].state == 1, "the process is woken when room was made")


@unit(("C20", "C21"), "AXI stream pause", quick=[dict(cls=c) for c in (AxiStreamSource, AxiStreamSink)], samples=30)
def _(ctx, cls):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    p0 = o.fields["_pause"]
    v = ctx.fresh_bool("v")
    E.setattr_(ctx, o, "pause", v)
    ctx.prove(E.equal(ctx, toint(getattr_(ctx, o, "pause")), toint(v)), "pause reads back")
    if cls is AxiStreamSink:
        ctx.prove(Implies(Not(E.equal(ctx, toint(p0), toint(v))), ev["wake"].state == 1), "a change of pause wakes the process")


@unit(("C20", "C21"), "AXI stream _run_pause", quick=[dict(cls=c) for c in (AxiStreamSource, AxiStreamSink)], samples=30, forever=True)
def _(ctx, cls):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    n = ctx.fresh_int("n", 0, sample=lambda r: r.randint(0, 6))
    vals = E.relabel(ctx, ctx.fresh_bytes("vals", n, "list", 1))
    ref = SSeq("tuple", items=list(vals.items)) if vals.items is not None else SSeq("tuple", n=vals._n, f=vals.f, elem_bits=1)
    o.fields["_pause_generator"] = ref
    g = ctx.ghost
    g.t = 0

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "one value per clock edge")

        def go():
            ctx.prove(g.t < n, "one edge per value")
            ctx.prove(E.equal(ctx, toint(o.fields["_pause"]), ref.at(g.t)), "pause follows the generator")
            g.t = g.t+1
            E.setattr_(ctx, o, "_pause", ctx.fresh_bool("p"))
        return Aw(go)
    ctx.handlers[RisingEdge] = edge
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run_pause"), [], {}))
    ctx.prove(g.t == n, "every value of the generator is used")


@unit("C21", "AXI stream tvalid and tready watchers", quick=[dict(cls=c, which=x) for c in CLS3[1:] for x in ("tvalid", "tready")], samples=10, forever=True)
def _(ctx, cls, which):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls)
    g = ctx.ghost
    g.edges = 0
    n = [0]

    def edge(sig):
        ctx.prove(sig is S[which], "the %s signal is watched" % which)

        def go():
            ctx.prove(Implies(g.edges > 0, ev["wake"].state == 1), "a rising edge wakes the process")
            n[0] += 1
            if ctx.mode == "conc" and n[0] > 5:
                raise PathEnd("end of the run")
            ev["wake"].put(0)
            g.edges = 1
        return Aw(go)
    ctx.handlers[RisingEdge] = edge
    ctx.focus = True
    ctx.hints = lambda: {"wakes": Implies(g.edges > 0, ev["wake"].state == 1)}
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run_%s_monitor" % which), [], {}))


@unit(("C18", "C20", "C21", "C22"), "AXI stream _handle_reset", quick=[dict(cls=c, sigs=s) for c in CLS3 for s in SIGS], samples=30)
def _(ctx, cls, sigs):
    o, q, ev, log, w, full, occ, S = aend(ctx, cls, sigs)
    g = ctx.ghost
    g.done, g.done_k, g.norm = 0, -1, -1
    tv, tr = S.get("tvalid"), S.get("tready")
    old = Task("old") if ctx.choice(2) else None
    o.fields["_run_cr"] = old
    cur = None
    if cls is AxiStreamSource and ctx.choice(2):
        cur = w.make(q.G-1 if ctx.mode == "sym" else 100)
        o.fields["current_frame"] = cur
    started = []

    def start(c):
        t = Task(c)
        started.append(t)
        return t
    ctx.handlers[cocotb.start_soon] = start
    ran = []
    ctx.handlers[cls._run] = lambda self: ran.append(self) or "coro"
    G, P = q.G, q.P
    state = ctx.fresh_bool("state")
    E.call(ctx, getattr_(ctx, o, "_handle_reset"), [state], {})
    ctx.prove(And(q.G == G, q.P == P), "the queue is kept")
    occ()
    if truth(ctx, state):
        ctx.cover("reset")
        if old:
            ctx.prove(old.killed == 1, "the process is stopped by the reset")
        ctx.prove(o.fields["_run_cr"] is None, "no process runs during reset")
        ctx.prove(not started, "nothing is started during reset")
        if cls is AxiStreamSource and tv:
            ctx.prove(tv.nxt == 0, "valid is low during reset")
        if cls is AxiStreamSink and tr:
            ctx.prove(tr.nxt == 0, "ready is low during reset")
        if cls is AxiStreamSource:
            ctx.prove(g.done == (1 if cur else 0), "the completion of a flushed frame is reported once")
            if cur:
                ctx.prove(g.done_k == cur.k, "the flushed frame's completion is reported")
            ctx.prove(o.fields["current_frame"] is None, "no frame is in progress after a reset")
    else:
        ctx.prove(g.done == 0, "releasing the reset completes nothing")
        if old:
            ctx.prove(not started and old.killed == 0 and o.fields["_run_cr"] is old, "a running process is left alone")
        else:
            ctx.prove(len(started) == 1 and len(ran) == 1 and ran[0] is o, "one process is started after the reset")
            ctx.prove(o.fields["_run_cr"] is started[0], "the process is remembered")
