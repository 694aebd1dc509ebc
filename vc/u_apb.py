"""C06, C10, C22, C23: APB masters and slaves"""
from bus import *       # noqa
import engine as E
import cocotb
from cocotb.triggers import RisingEdge
from unit import unit
from u_stream import Task, STEPS
from u_axis import DataSig, lane
from cocotbext.axi import apb
from cocotbext.axi.constants import AxiResp, AxiProt
from cocotbext.axi.apb import ApbMaster, ApbSlave, ApbWriteCmd, ApbReadCmd, ApbWriteResp, ApbReadResp


class Cmds:
    """the commands that ever are in the queue, numbered.  Their arguments are what the issuing calls let through
    (see the validation units): an address range inside the address space."""

    def __init__(self, ctx, lanes, span=1 << 32, kinds=(0, 1)):
        self.ctx, self.lanes, self.span, self.kinds = ctx, lanes, span, kinds
        ctx.world = self
        self.cache = {}
        self.rd = {}
        if ctx.mode == "sym":
            I = z3.IntSort()
            self.f = {n: z3.Function(ctx.fresh_name(n), I, I) for n in "WALP"}
            self.d = {n: z3.Function(ctx.fresh_name(n), I, I, I) for n in ("D", "R")}

    def rec(self, k):
        if k not in self.cache:
            r = self.ctx.rng
            n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 9, 16])
            if r.random() < 0.5:
                a = r.randint(0, 3*self.lanes)
            else:
                a = self.span-n-r.randint(0, 2*self.lanes)
            if n == 0:
                a -= a % self.lanes
            self.cache[k] = dict(W=r.choice(self.kinds), A=a, L=n, P=r.randint(0, 7), D=bytes(r.getrandbits(8) for _ in range(n)))
        return self.cache[k]

    def get(self, n, k):
        ctx = self.ctx
        if ctx.mode == "conc":
            return self.rec(k)[n]
        e = self.f[n](zi(k))
        if n == "L":
            ctx.axiom(e >= 0)
            ctx.axiom(self.f["A"](zi(k))+e <= zi(self.span))
        elif n == "A":
            ctx.axiom(z3.And(e >= 0, e < zi(self.span)))
        elif n == "W":
            ctx.axiom(z3.And(e >= 0, e <= 1))
        elif n == "P":
            ctx.axiom(z3.And(e >= 0, e <= 7))
        return SInt(e)

    def byte(self, n, k, i):
        """D: i-th byte of the data to write; R: byte i of the range (relative to its start) as presented by the slave"""
        ctx = self.ctx
        if ctx.mode == "conc":
            if n == "D":
                d = self.rec(k)["D"]
                return d[i] if 0 <= i < len(d) else 0
            if (k, i) not in self.rd:
                self.rd[k, i] = ctx.rng.getrandbits(8)
            return self.rd[k, i]
        e = self.d[n](zi(k), zi(i))
        ctx.axiom(z3.And(e >= 0, e <= 255))
        return SInt(e, bits=8)

    def seq(self, n, k, kind="bytes"):
        L = self.get("L", k)
        if self.ctx.mode == "conc":
            return SSeq(kind, items=[self.byte(n, k, i) for i in range(L)], elem_bits=8)
        return SSeq(kind, n=L, f=lambda i: self.byte(n, k, i), elem_bits=8)

    # the words of the range
    def off(self, k):
        return mod(self.get("A", k), self.lanes)

    def beats(self, k):
        """words spanned by the range (one for an empty range inside a word)"""
        return floordiv(self.get("L", k)+self.off(k)+self.lanes-1, self.lanes)

    def make(self, k):
        return CmdRef(k)


class CmdRef(Contract):
    write, read, event_hook = ApbWriteCmd, ApbReadCmd, None

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return CmdRef

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def truth(self):
        return True

    @property
    def w(self):
        return CTX[0].world

    def isinstance(self, t):
        if t in (self.w.wcls, self.w.rcls):
            wr = truth(CTX[0], self.w.get("W", self.k) != 0)
            return wr == (t is self.w.wcls)
        return False

    address = property(lambda s: s.w.get("A", s.k))
    prot = property(lambda s: s.w.get("P", s.k))
    event = property(lambda s: CmdEvent(s.k))

    @property
    def data(self):
        c = CTX[0]
        c.prove(self.w.get("W", self.k) != 0, "only write commands have data")
        return self.w.seq("D", self.k)

    @property
    def length(self):
        CTX[0].prove(self.w.get("W", self.k) == 0, "only read commands have a length")
        return self.w.get("L", self.k)

    # see Contract: the length of the named tuple is not used


class CmdEvent(Contract):
    def __init__(self, k):
        self.k = k

    def vkind(self):
        return CmdEvent

    def vargs(self):
        return (self.k,)

    def truth(self):
        return True

    def set(self, data=None):
        CTX[0].world.complete(self.k, data)


class Phased(Sig):
    """an input that is only defined in some cycles"""
    when, what = None, ""

    def get(self):
        if self.when is not None:
            self.ctx.prove(self.when(), "%s is only looked at when the other side drives it" % self.name)
        return self.cur
    value = property(get, lambda s, v: Sig.value.fset(s, v))


class PhasedData(DataSig):
    when = None

    def get(self):
        if self.when is not None:
            self.ctx.prove(self.when(), "%s is only looked at when the other side drives it" % self.name)
        return self.cur
    value = property(get, lambda s, v: DataSig.value.fset(s, v))


@unit(("C06", "C22", "C23", "C24"), "ApbMaster._run",
      quick=[dict(lanes=l, opt=1) for l in (1, 2, 4)]+[dict(lanes=4, opt=0)],
      thorough=[dict(lanes=l, opt=o) for l in (1, 2, 4, 8, 16, 3) for o in (0, 1)],
      samples=40, forever=True, covers=("write", "read"))
def _(ctx, lanes, opt):
    o = ctx.new_obj(ApbMaster)
    g = ctx.ghost
    w = Cmds(ctx, lanes)
    w.wcls, w.rcls = ApbWriteCmd, ApbReadCmd
    S = {n: Sig(ctx, n, wd, init=0) for n, wd in (("paddr", 32), ("psel", 1), ("penable", 1), ("pwrite", 1))}
    S["pwdata"] = DataSig(ctx, "pwdata", lanes, 8)
    S["pstrb"] = DataSig(ctx, "pstrb", lanes, 1)
    if opt:
        S["pprot"] = Sig(ctx, "pprot", 3, init=0)
    S["pready"] = Phased(ctx, "pready", 1)
    if opt:
        S["pslverr"] = Phased(ctx, "pslverr", 1)
    S["prdata"] = PhasedData(ctx, "prdata", lanes, 8)
    bus = Bag(**S)
    outs = [n for n in S if n not in ("pready", "pslverr", "prdata")]
    hold = [n for n in outs if n not in ("psel", "penable")]
    st = dict(n=0)
    # ph: what is on the bus in the current cycle (0 nothing, 1 setup phase, 2 access phase); beat: transfers completed
    # for the command in progress (has, cmd); err: one of them failed
    g.ph = 0
    g.has, g.cmd, g.beat, g.err, g.err0, g.moved = 0, 0, 0, 0, 0, 0
    g.wr = g.moved0 = 0
    g.at_edge = 0
    g.fin = 0       # a transfer completed at the last clock edge

    def on_get(k):
        ctx.prove(g.has == 0, "a command is only taken when the one before is finished")
        g.has, g.cmd, g.beat, g.err, g.err0, g.moved, g.moved0, g.wr = 1, k, 0, 0, 0, 0, 0, w.get("W", k)
        ctx.refs["read"] = SSeq("bytes", n=1 << 60, f=lambda i: w.byte("R", k, i), elem_bits=8)
        ctx.refs["data"] = SSeq("bytes", n=1 << 60, f=lambda i: w.byte("D", k, i), elem_bits=8)
    q = Q(ctx, "q", w.make, get=on_get)

    def complete(k, resp):
        ctx.prove(And(g.has == 1, k == g.cmd), "only the command in progress completes, once")
        ctx.prove(And(g.beat == w.beats(k), S["psel"].nxt == 0), "an operation completes when all of its transfers are done")
        g.has = 0
        wr = truth(ctx, w.get("W", k) != 0)
        ctx.prove(E._isinstance(ctx, resp, ApbWriteResp if wr else ApbReadResp), "the result is of the kind requested")
        ctx.prove(E.equal(ctx, getattr_(ctx, resp, "address"), w.get("A", k)), "the result reports the requested address")
        ctx.prove(E.equal(ctx, toint(getattr_(ctx, resp, "resp")), ite(g.err != 0, int(AxiResp.SLVERR), int(AxiResp.OKAY))), "an error is reported exactly when a transfer failed")
        L = w.get("L", k)
        if wr:
            ctx.prove(E.equal(ctx, getattr_(ctx, resp, "length"), L), "the result reports the number of bytes written")
            ctx.cover("write")
        else:
            d = getattr_(ctx, resp, "data")
            ctx.prove(isinstance(d, SSeq) and d.kind == "bytes", "the data is bytes")
            ctx.prove(d.n == L, "as many bytes are returned as requested")
            i = ctx.fresh_int("i", 0, sample=lambda r: r.randint(0, 20))
            if truth(ctx, i < L):
                ctx.prove(d.at(i) == w.byte("R", k, i), "every byte returned is the one presented for its address")
            ctx.cover("read")
    w.complete = complete

    def same(n, v):
        s = S[n]
        if isinstance(s, DataSig):
            c = True
            for j in range(lanes):
                c = And(c, lane(s.nxt, s.g, j) == lane(s.cur, s.g, j))
            return c
        return s.nxt == s.cur

    def spec():
        e = g.at_edge != 0
        stay = And(e, Or(g.ph == 1, And(g.ph == 2, g.fin == 0)))      # a transfer is under way
        free = And(e, Not(stay))
        sel, en = S["psel"].nxt, S["penable"].nxt
        start = And(free, sel != 0)
        k, b = g.cmd, g.beat
        a, off, n, L = w.get("A", k), w.off(k), w.beats(k), w.get("L", k)
        wr = w.get("W", k) != 0
        d = {
            "outputs only change after a clock edge": Implies(Not(e), And(*[same(x, None) for x in outs])),
            "select and enable": And(sel >= 0, sel <= 1, en >= 0, en <= 1),
            "a transfer under way is in its access phase next": Implies(stay, And(sel == 1, en == 1)),
            "a transfer under way stays stable": Implies(stay, And(*[same(x, None) for x in hold])),
            "a transfer begins with a setup phase": Implies(free, en == 0),
            "transfers only start for a command in progress": Implies(start, And(g.has == 1, b >= 0, b < n)),
            "transfers are made in ascending order": Implies(start, S["paddr"].nxt == ite(b == 0, a, a-off+b*lanes)),
            "direction": Implies(start, S["pwrite"].nxt == ite(wr, 1, 0)),
            "no transfer starts while paused": Implies(start, g.p0 == 0),
        }
        for j in range(lanes):
            i = b*lanes+j-off
            inr = And(wr, i >= 0, i < L)
            d["lane %d is strobed exactly for requested bytes" % j] = Implies(start, lane(S["pstrb"].nxt, 1, j) == ite(inr, 1, 0))
            d["lane %d carries its byte" % j] = Implies(And(start, inr), lane(S["pwdata"].nxt, 8, j) == w.byte("D", k, i))
        if opt:
            d["the requested protection is used"] = Implies(start, S["pprot"].nxt == w.get("P", k))
        cc = o.fields["current_command"]
        d["the command in progress is known to the reset"] = (g.has == 0) if cc is None else And(g.has == 1, cc.k == g.cmd)
        d["operations in flight"] = o.fields["in_flight_operations"] == q.P-q.G+g.has
        d["idle event"] = Iff(idle.state != 0, q.P-q.G+g.has == 0)
        d["queue"] = And(q.P >= q.G, q.G >= 0, Or(g.has == 0, g.has == 1))
        d["bytes moved"] = g.moved == ite(g.beat == 0, 0, ite(g.beat == n, L, g.beat*lanes-off))
        d["kind"] = Implies(g.has == 1, g.wr == w.get("W", g.cmd))
        d["beats"] = Implies(g.has == 1, And(g.beat >= 0, g.beat <= n))
        d["a transfer under way belongs to the command in progress"] = Implies(sel != 0, And(g.has == 1, g.beat < n))
        return d

    def nextph():
        e = g.at_edge != 0
        stay = Or(g.ph == 1, And(g.ph == 2, g.fin == 0))
        return ite(e, ite(stay, 2, ite(S["psel"].nxt != 0, 1, 0)), g.ph)

    def suspend(more=True):
        ctx.prove_all(spec)
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > 3*STEPS:
            raise PathEnd("end of the run")
        g.ph = nextph()
        for n in outs:
            S[n].commit()
        P = q.P
        env_put(ctx, q)
        idle.put(ite(q.P > P, 0, idle.state))
        E.setattr_(ctx, o, "in_flight_operations", o.fields["in_flight_operations"]+q.P-P)
        E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.2))
        g.fin = 0

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            suspend()
            g.at_edge = 1
            g.p0 = toint(o.fields["_pause"])
            # the slave's answer in the cycle that ends here
            S["pready"].drive(env_bool(ctx, 0.5, "r"))
            if opt:
                S["pslverr"].drive(env_bool(ctx, 0.3, "err"))
            k, b, off = g.cmd, g.beat, w.off(g.cmd)
            if ctx.mode == "conc":
                S["prdata"].drive(sum(w.byte("R", k, b*lanes+j-off) << 8*j for j in range(lanes)))
            else:
                S["prdata"].drive(Wide(8, lanes, lambda j: w.byte("R", k, b*lanes+j-off)))
            fin = And(g.ph == 2, S["pready"].cur != 0)
            g.fin = ite(fin, 1, 0)
            g.err0, g.moved0 = g.err, g.moved
            if opt:
                g.err = ite(And(fin, S["pslverr"].cur != 0), 1, g.err)
            g.beat = ite(fin, g.beat+1, g.beat)
            g.moved = ite(fin, ite(g.beat == w.beats(k), w.get("L", k), g.beat*lanes-off), g.moved)
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def sleep(qq):
        ctx.prove(g.has == 0, "the process only waits for commands when none is in progress")
        suspend()
        g.at_edge = 0
    q.on_wait = sleep

    def idle_set():
        ctx.prove(And(q.P == q.G, g.has == 0), "idle is only announced when nothing is outstanding")
    idle = Ev(ctx, "idle", on_set=idle_set)
    idle.put(ite(q.P > q.G, 0, 1))
    S["pready"].when = lambda: g.ph == 2
    S["prdata"].when = lambda: And(g.fin != 0, w.get("W", g.cmd) == 0)
    if opt:
        S["pslverr"].when = lambda: g.fin != 0
    for n in outs:
        S[n].commit()
    o.fields.update(bus=bus, clock=Clock(), log=Log(), command_queue=q, current_command=None, in_flight_operations=q.P-q.G, _idle=idle,
                    address_width=32, width=8*lanes, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, pprot_present=bool(opt),
                    pstrb_present=True, pslverr_present=bool(opt), _pause=ctx.fresh_bool("pause", 0.2))
    g.p0 = 0

    def hints():
        """the states between the phases"""
        d = spec()
        none = And(S["psel"].nxt == 0, S["penable"].nxt == 0)
        d["phase"] = And(Or(g.ph == 0, g.ph == 1, g.ph == 2), Iff(g.ph == 0, S["psel"].cur == 0), Iff(g.ph == 2, S["penable"].cur != 0))
        d["no transfer"] = And(none, Or(g.ph == 0, And(g.ph == 2, g.fin == 1, g.at_edge == 1)), Implies(g.at_edge == 0, g.ph == 0))
        d["access phase"] = And(g.at_edge == 1, g.ph == 2, S["psel"].nxt == 1, S["penable"].nxt == 1, g.has == 1, g.beat <= n_(),
                                g.fin == S["pready"].cur, And(*[same(x, None) for x in hold]))
        d["transfer in progress"] = And(g.has == 1, g.beat < n_())
        d["errors"] = And(Or(g.err == 0, g.err == 1), g.err == ite(And(g.fin != 0, S["pslverr"].cur != 0), 1, g.err0) if opt else And(g.err == 0, g.err0 == 0))
        for j in range(lanes):
            d["read data %d" % j] = Implies(g.fin != 0, lane(S["prdata"].cur, 8, j) == w.byte("R", g.cmd, (g.beat-1)*lanes+j-w.off(g.cmd)))
        d["pause"] = Implies(g.at_edge == 1, g.p0 == toint(o.fields["_pause"]))
        b0 = g.beat-g.fin
        d["bytes moved before"] = g.moved0 == ite(b0 == 0, 0, ite(b0 == n_(), w.get("L", g.cmd), b0*lanes-w.off(g.cmd)))
        d["first edge"] = g.at_edge == 1
        return d

    def n_():
        return w.beats(g.cmd)
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    ctx.focus_conds = ("G:wr",)
    names = ("t", "guard", "G:has", "G:cmd", "G:beat", "G:wr", "G:err", "G:err0", "G:moved", "G:moved0", "G:at_edge", "G:ph", "G:fin", "G:psel_n", "G:penable_n",
             "G:psel", "G:penable", "resp", "offset", "cmd.k", "len:read_data", "S:read_data", "S:ref:read", "read_data")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "len:self", "it."))
    ctx.focus_data = lambda n: not n.startswith(("G:", "self.")) or n == "G:moved" or n.startswith(("S:", "W:"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))
