"""C01 to C04 (C22, C23): AXI masters"""
from chan import *      # noqa
from unit import unit
from u_stream import STEPS
from u_axis import lane
from u_apb import Cmds, CmdEvent
from u_slave import counted, split
from cocotbext.axi import axi_master as M
from cocotbext.axi.constants import AxiResp, AxiBurstType, AxiLockType

ATTRS = dict(lock=1, cache=4, prot=3, qos=4, region=4, user=5)


COMBOS = (1, 2, 5)     # ID given or not, no user data, one value, a list


class Ops(Cmds):
    """the commands, numbered in issue order: incrementing bursts with a beat size up to the bus width (see the validation units)"""

    full = False

    def __init__(self, ctx, lanes, write):
        super().__init__(ctx, lanes, kinds=(1,) if write else (0,))
        self.write = write
        self.mx = (lanes-1).bit_length()
        if ctx.mode == "sym":
            I = z3.IntSort()
            for n in ("S", "I", "wu", "wn")+tuple(ATTRS):
                self.f[n] = z3.Function(ctx.fresh_name(n), I, I)
            self.d["wl"] = z3.Function(ctx.fresh_name("wl"), I, I, I)

    def rec(self, k):
        new = k not in self.cache
        d = super().rec(k)
        if new:
            r = self.ctx.rng
            d.update(S=r.randint(0, self.mx), I=r.randint(0, 15), wu=r.getrandbits(6), wn=r.randint(0, 6), var=r.randint(0, 5),
                     wl=[r.getrandbits(6) for _ in range(6)], **{n: r.getrandbits(b) for n, b in ATTRS.items()})
            nb = 1 << d["S"]
            if r.random() < 0.6:
                n = r.choice([0, 1, 2, 5, 9, 17, 33])
                d["A"] = max(0, r.choice([0, 4096, 8192])+r.randint(-n-nb, nb))
            else:
                n = d["L"]
            if n == 0:
                d["A"] -= d["A"] % self.lanes
            d["A"] = min(d["A"], self.span-n)
            d["L"], d["D"] = n, bytes(r.getrandbits(8) for _ in range(n))
        return d

    def get(self, n, k):
        ctx = self.ctx
        if n == "W":
            return self.kinds[0]
        if n in ("A", "L"):
            return super().get(n, k)
        if ctx.mode == "conc":
            return self.rec(k)[n]
        e = self.f[n](zi(k))
        lim = {"S": self.mx+1, "I": 16, "wu": 64}.get(n) or 1 << ATTRS.get(n, 0)
        ctx.axiom(e >= 0)
        if n != "wn":
            ctx.axiom(e < lim)
        return SInt(e)

    def pick(self, k):
        """beat size, ID and user data are looked at case by case"""
        ctx = self.ctx
        if ctx.mode == "conc":
            self.size, v = self.rec(k)["S"], self.rec(k)["var"]
        else:
            self.size = split(ctx, self.get("S", k), range(self.mx+1))
            v = COMBOS[ctx.choice(3)] if self.write and not self.full else ctx.choice(6 if self.write else 2)
        self.own_id, self.wkind = v & 1, v >> 1
        self.nb = 1 << self.size

    # the beats of the range
    def aligned(self, k):
        a = self.get("A", k)
        return a-mod(a, self.nb)

    def beats(self, k):
        """beats spanned by the range (one for an empty range inside a beat)"""
        return floordiv(self.get("L", k)+self.get("A", k)-self.aligned(k)+self.nb-1, self.nb)

    def beat(self, k, i):
        return ite(i == 0, self.get("A", k), self.aligned(k)+i*self.nb)

    def make(self, k):
        return OpRef(k)

    def wuser(self, k, i):
        """the requested user value of beat i"""
        if self.wkind == 1:
            return self.get("wu", k)
        if self.wkind == 2:
            return ite(i < self.get("wn", k), self.wl(k, i), 0)
        return 0

    def wl(self, k, i):
        if self.ctx.mode == "conc":
            l = self.rec(k)["wl"]
            return l[i] if 0 <= i < len(l) else 0
        e = self.d["wl"](zi(k), zi(i))
        self.ctx.axiom(z3.And(e >= 0, e < 64))
        return SInt(e)


class OpRef(Contract):
    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return OpRef

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def truth(self):
        return True

    w = property(lambda s: CTX[0].world)
    address = property(lambda s: s.w.get("A", s.k))
    burst = property(lambda s: AxiBurstType.INCR)
    event = property(lambda s: CmdEvent(s.k))

    @property
    def size(self):
        return self.w.size

    @property
    def awid(self):
        return self.w.get("I", self.k) if self.w.own_id else None
    arid = awid

    @property
    def data(self):
        CTX[0].prove(self.w.write, "only write commands have data")
        return self.w.seq("D", self.k)

    @property
    def length(self):
        CTX[0].prove(not self.w.write, "only read commands have a length")
        return self.w.get("L", self.k)

    @property
    def wuser(self):
        w = self.w
        if w.wkind == 0:
            return None
        if w.wkind == 1:
            return w.get("wu", self.k)
        n = w.get("wn", self.k)
        if w.ctx.mode == "conc":
            return E.relabel(w.ctx, SSeq("list", items=[w.wl(self.k, i) for i in range(n)]))
        return E.relabel(w.ctx, SSeq("list", n=n, f=lambda i: w.wl(self.k, i)))


for _n in ATTRS:
    setattr(OpRef, _n, property(lambda s, n=_n: s.w.get(n, s.k)))


class Active(Contract):
    """the count of bursts waiting for a response for each ID, of which that of one arbitrary ID matters"""

    def __init__(self, ctx, x):
        self.ctx, self.x = ctx, x
        ctx.ghost.act = 0

    def getitem(self, i):
        if truth(self.ctx, i == self.x):
            return self.ctx.ghost.act
        return self.ctx.fresh_int("act", 0)

    def setitem(self, i, v):
        if truth(self.ctx, i == self.x):
            self.ctx.ghost.act = v


class TagMgr(Contract):
    def __init__(self, start):
        self.start = start

    def start_cmd(self, tag, cmd):
        self.start(tag, cmd)


def request_unit(ctx, write, lanes, opt):
    cls = M.AxiMasterWrite if write else M.AxiMasterRead
    o = ctx.new_obj(cls)
    g = ctx.ghost
    step = counted(ctx, 10*STEPS)
    ops = Ops(ctx, lanes, write)
    p, cur = ("aw", "current_write_command") if write else ("ar", "current_read_command")
    rcls = M.AxiWriteRespCmd if write else M.AxiReadRespCmd
    # the command in progress: its number and ID; started: handed to the response side; nb: bursts announced, pos: beats they have;
    # blen: length of the last one, bursts: of all; bt: data beats sent
    g.has = g.cmd = g.id = g.started = g.nb = g.pos = g.blen = g.bt = g.moved = g.moved0 = 0
    g.bursts = SSeq("list", items=[])
    mb = ctx.fresh_int("max_burst_len", None, sample=lambda r: r.choice([-1, 0, 1, 2, 3, 5, 16, 256, 1000]))
    X = ctx.fresh_int("X", 0, 15)
    active = Active(ctx, X)
    g.announced = 0                 # bursts announced with ID X

    def n_():
        return ops.beats(g.cmd)

    def finished():
        return Or(g.has == 0, g.started == 1)

    def on_get(k):
        ctx.prove(finished(), "a command is only taken when all bursts of the one before were issued")
        ctx.prove(o.fields[cur] is None, "the command before is not in progress any more")
        ops.pick(k)
        g.has, g.cmd, g.started, g.nb, g.pos, g.blen, g.bt, g.moved, g.moved0 = 1, k, 0, 0, 0, 0, 0, 0, 0
        g.bursts = SSeq("list", items=[])
        g.id = ops.get("I", k) if ops.own_id else o.fields["cur_id"]
        if write:
            ctx.refs["data"] = SSeq("bytes", n=1 << 60, f=lambda i: ops.byte("D", k, i), elem_bits=8)
    q = Q(ctx, "q", ops.make, get=on_get)
    q.on_wait = lambda qq: suspend()

    def start(tag, x):
        k = g.cmd
        ctx.prove(And(g.has == 1, g.started == 0, g.pos == n_()), "an operation awaits its responses when all of its bursts were announced, once")
        if write:
            ctx.prove(g.bt == g.pos, "all data of an operation is sent")
        ctx.prove(tag == g.id, "the responses are awaited under the ID of the bursts")
        ctx.prove(E._isinstance(ctx, x, rcls), "the response side gets a response command")
        ctx.prove(getattr_(ctx, x, "address") == ops.get("A", k), "the response side knows the address")
        ctx.prove(getattr_(ctx, x, "length") == ops.get("L", k), "the response side knows the length")
        ctx.prove(getattr_(ctx, x, "size") == ops.size, "the response side knows the beat size")
        ctx.prove(getattr_(ctx, x, "event").k == k, "the response side completes the operation itself")
        bl = getattr_(ctx, x, "burst_list")
        ctx.prove(And(isinstance(bl, SSeq), bl.n == g.nb), "the response side expects as many bursts as were announced")
        bs = g.bursts
        forall(ctx, g.nb, lambda i: bl.at(i) == bs.at(i), "the response side knows the length of every burst")
        g.started = 1
        ctx.cover("issued")

    def suspend():
        # a reset may come now: the command taken must be known to it
        c = o.fields[cur]
        ctx.prove(Or(g.has == 0, g.started == 1, False if c is None else c.k == g.cmd), "the command in progress is known to the reset")
        ctx.prove(g.act == g.announced, "every announced burst is counted before it can be answered")
        step()
        env_put(ctx, q)

    def send_a(v):
        k, i = g.cmd, g.pos
        n = v[p+"len"]+1
        ctx.prove(And(g.has == 1, g.started == 0), "bursts belong to the command in progress")
        if write:
            ctx.prove(g.bt == g.pos, "the data of a burst is complete before the next burst")
        ctx.prove(And(n >= 1, n <= 256, Or(n <= mb, n == 1)), "a burst has 1 to 256 beats, at most the configured number")
        ctx.prove(i+n <= n_(), "the bursts cover no more than the range")
        ctx.prove(v[p+"addr"] == ops.beat(k, i), "every burst starts where the one before ended")
        ctx.prove(mod(ops.aligned(k)+i*ops.nb, 4096)+n*ops.nb <= 4096, "no burst crosses a 4096-byte boundary")
        ctx.prove(v[p+"id"] == g.id, "every burst carries the ID of the operation")
        ctx.prove(v[p+"size"] == ops.size, "every burst has the requested beat size")
        ctx.prove(v[p+"burst"] == 1, "every burst has the requested type")
        for a in ATTRS:
            if p+a in v:
                ctx.prove(v[p+a] == ops.get(a, k), "every burst carries the requested attributes (%s)" % a)
        g.announced = ite(g.id == X, g.announced+1, g.announced)
        ctx.prove(g.act == g.announced, "every announced burst is counted for its ID")
        old = g.bursts
        g.bursts = SSeq("list", n=old.n+1, f=lambda i: ite(i < old.n, old.at(i), n))
        g.nb = g.nb+1
        g.pos = i+n
        g.blen = n

    def send_w(v):
        k, i = g.cmd, g.bt
        ctx.prove(And(g.has == 1, g.started == 0, i < g.pos), "as many data beats are sent as were announced")
        ctx.prove(v["wlast"] == ite(i+1 == g.pos, 1, 0), "last is flagged exactly on the final beat of each burst")
        a, L = ops.get("A", k), ops.get("L", k)
        al = ops.aligned(k)+i*ops.nb                  # the container of the beat
        wd = al-mod(al, lanes)
        for j in range(lanes):
            x = wd+j-a
            inr = And(x >= 0, x < L, wd+j >= al, wd+j < al+ops.nb)
            if "wstrb" in v:
                ctx.prove(lane(v["wstrb"], 1, j) == ite(inr, 1, 0), "lane %d is strobed exactly for the bytes of the beat in the range" % j)
            ctx.prove(Implies(inr, lane(v["wdata"], 8, j) == ops.byte("D", k, x)), "lane %d carries its byte" % j)
        if "wuser" in v:
            ctx.prove(v["wuser"] == ops.wuser(k, i), "every data beat carries its user value")
        g.bt = i+1
        g.moved = ite(g.bt == n_(), L, ops.aligned(k)+g.bt*ops.nb-a)
        ctx.cover("data")
    fields = {p+"id": 4, p+"addr": 32, p+"len": 8, p+"size": 3, p+"burst": 2}
    if opt:
        fields.update({p+a: b for a, b in ATTRS.items()})
    o.fields.update(log=Log(), address_width=32, width=8*lanes, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, id_count=16, id_width=4,
                    cur_id=ctx.fresh_int("cur_id", 0, 15), max_burst_len=mb, max_burst_size=ops.mx, active_id=active, tag_context_manager=TagMgr(start),
                    **{p+"_channel": Tx(ctx, p, fields, suspend, send_a), cur: None})
    if write:
        wf = dict(wdata=("data", lanes, 8), wlast=1)
        if opt:
            wf.update(wstrb=("data", lanes, 1), wuser=6)
        o.fields.update(write_command_queue=q, wstrb_present=bool(opt), w_channel=Tx(ctx, "w", wf, suspend, send_w))
    else:
        o.fields.update(read_command_queue=q)
        ctx.extra_pool["beat"] = None

    known = lambda: hasattr(ops, "size")

    def hints():
        c = o.fields[cur]
        d = {"finished": finished(), "queue": And(q.P >= q.G, q.G >= 0), "none": c is None, "order": Implies(g.has == 1, q.G == g.cmd+1),
             "counted": g.act == g.announced, "current": False if c is None else c.k == g.cmd, "id": And(o.fields["cur_id"] >= 0, o.fields["cur_id"] < 16)}
        if known():
            n = n_()
            d.update({"one": And(g.has == 1, g.started == 0, g.bt >= 0, g.pos >= 0, g.pos <= n, g.nb >= 0, g.id >= 0, g.id < 16), "left": g.bt <= g.pos,
                      "blen": And(g.blen >= 0, g.blen <= 256, Implies(g.pos > 0, g.blen >= 1)),
                      "page": Implies(g.pos > 0, mod(ops.aligned(g.cmd)+(g.pos-g.blen)*ops.nb, 4096)+g.blen*ops.nb <= 4096),
                      "bytes moved": g.moved == ite(g.bt == 0, 0, ite(g.bt == n, ops.get("L", g.cmd), ops.aligned(g.cmd)+g.bt*ops.nb-ops.get("A", g.cmd)))})
        return d
    ctx.hints = hints
    P = ctx.extra_pool
    P.pop("beat", None)

    def when(f):
        return lambda t: f() if known() else 0
    if write:
        P["x:addr"] = when(lambda: ops.beat(g.cmd, g.bt))
        P["x:lane"] = when(lambda: mod(ops.aligned(g.cmd)+g.bt*ops.nb, lanes))
        P["x:done"] = when(lambda: g.blen-(g.pos-g.bt))
    else:
        # the loop counts beats, of which the announced bursts have pos
        def at(f):
            return lambda t: f(t) if known() and t is not None else 0
        P["x:addr"] = at(lambda t: ops.beat(g.cmd, t))
        P["x:n"] = at(lambda t: ite(g.pos == 0, 0, g.blen-1-(g.pos-t)))
        P["inv:ahead"] = at(lambda t: toint(And(g.pos >= t, Implies(t > 0, g.pos > 0)))) 
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:cmd", "G:started", "G:nb", "G:pos", "G:blen", "G:bt", "G:moved", "G:id", "S:ref:data", "S:G:bursts", "len:G:bursts", "G:act", "G:announced")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "len:self", "it."))
    ctx.focus_data = lambda n: not n.startswith(("G:", "self.")) or n == "G:moved" or n.startswith(("S:", "W:"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write" if write else "_process_read"), [], {}))


@unit("C01", "AxiMasterWrite._process_write, wide", quick=[dict(lanes=4, opt=1)], thorough=[dict(lanes=l, opt=s) for l in (4, 8) for s in (0, 1)], samples=40, forever=True,
      covers=("issued", "data"), budget=500)
@unit(("C01", "C02", "C04", "C22"), "AxiMasterWrite._process_write", quick=[dict(lanes=l, opt=1) for l in (1, 2)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4) for s in (0, 1)], samples=40, forever=True, covers=("issued", "data"), budget=500)
def _(ctx, lanes, opt):
    request_unit(ctx, True, lanes, opt)


@unit(("C02", "C04", "C22"), "AxiMasterRead._process_read", quick=[dict(lanes=l, opt=1) for l in (1, 2, 4, 8)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4, 8, 16) for s in (0, 1)], samples=40, forever=True, covers=("issued",), budget=500)
def _(ctx, lanes, opt):
    request_unit(ctx, False, lanes, opt)


# ---- responses --------------------------------------------------------------------------------------------


class RespRef(Contract):
    """a received response, numbered"""

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return RespRef

    def vargs(self):
        return (self.k,)

    def truth(self):
        return True

    def get(self, n):
        return CTX[0].resps.get(n, self.k)
    bid = rid = property(lambda s: s.get("id"))
    bresp = rresp = property(lambda s: s.get("resp"))
    buser = ruser = property(lambda s: s.get("user"))
    rdata = property(lambda s: s.get("data"))
    rlast = property(lambda s: s.get("last"))


class RespCmd(Contract):
    """what the response side is told about operation k (see the request processes)"""

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return RespCmd

    def vargs(self):
        return (self.k,)

    def truth(self):
        return True
    w = property(lambda s: CTX[0].world)
    address = property(lambda s: s.w.get("A", s.k))
    length = property(lambda s: s.w.get("L", s.k))
    size = property(lambda s: s.w.size)
    cycles = property(lambda s: s.w.beats(s.k))
    prot = property(lambda s: s.w.get("prot", s.k))
    event = property(lambda s: CmdEvent(s.k))
    burst_list = property(lambda s: s.w.burst_list())


class Resps:
    """the responses to operation 0: numbered in the order in which they arrive"""

    def __init__(self, ctx, ops, opt, write):
        self.ctx, self.ops, self.opt, self.write = ctx, ops, opt, write
        ctx.resps = self
        self.cache = {}
        if ctx.mode == "sym":
            I = z3.IntSort()
            self.F = {n: z3.Function(ctx.fresh_name("r."+n), I, I) for n in ("resp", "user")}
            self.junk = z3.Function(ctx.fresh_name("r.junk"), I, I, I)

    def rec(self, k):
        if k not in self.cache:
            r = self.ctx.rng
            self.cache[k] = dict(resp=r.choice((0, 0, 0, 1, 2, 3)) if self.opt else 0, user=r.getrandbits(6) if self.opt else 0, junk=r.getrandbits(8*self.ops.lanes))
        return self.cache[k]

    def get(self, n, k):
        ctx, g, ops = self.ctx, self.ctx.ghost, self.ops
        if n == "id":
            return self.tag
        if n in ("resp", "user"):
            if not self.opt:
                return 0
            if ctx.mode == "conc":
                return self.rec(k)[n]
            e = self.F[n](zi(k))
            ctx.axiom(z3.And(e >= 0, e < (4 if n == "resp" else 64)))
            return SInt(e)
        ctx.prove(k == g.got-1, "a response is used until the next one is taken")
        if n == "last":
            return g.last
        al = ops.aligned(0)+k*ops.nb
        base = al-mod(al, ops.lanes)-ops.get("A", 0)
        lo = mod(al, ops.lanes)

        def lane_(j):
            if ctx.mode == "conc":
                junk = self.rec(k)["junk"] >> 8*j & 255
            else:
                e = self.junk(zi(k), zi(j))
                ctx.axiom(z3.And(e >= 0, e < 256))
                junk = SInt(e, bits=8)
            return ite(And(j >= lo, j < lo+ops.nb), ops.byte("R", 0, base+j), junk)
        if ctx.mode == "conc":
            return sum(lane_(j) << 8*j for j in range(ops.lanes))
        return Wide(8, ops.lanes, lane_)


class RContext(Contract):
    def __init__(self, tag, take):
        self.current_tag, self.take = tag, take

    def get_resp(self):
        return Aw(self.take)

    def get_resp_nowait(self):
        raise Unsupported("get_resp_nowait")


def id_unit(ctx, write, lanes, opt):
    cls = M.AxiMasterWrite if write else M.AxiMasterRead
    o = ctx.new_obj(cls)
    g = ctx.ghost
    step = counted(ctx, 1000)
    ops = Ops(ctx, lanes, write)
    ops.pick(0)
    tag = ctx.fresh_int("tag", 0, 15)
    rs = Resps(ctx, ops, opt, write)
    rs.tag = tag
    rcls = M.AxiWriteResp if write else M.AxiReadResp
    # the bursts of the operation: number, lengths, beats before each
    n = ops.beats(0)
    if ctx.mode == "conc":
        lens = []
        while sum(lens) < n:
            lens.append(ctx.rng.randint(1, min(n-sum(lens), ctx.rng.choice((1, 4, 100)))))
        NB = len(lens)
        U = lambda i: lens[i] if 0 <= i < len(lens) else 0
        PS = lambda i: sum(lens[:i])
        ops.burst_list = lambda: E.relabel(ctx, SSeq("list", items=list(lens)))
    else:
        I = z3.IntSort()
        fU, fP = z3.Function(ctx.fresh_name("U"), I, I), z3.Function(ctx.fresh_name("PS"), I, I)
        NB = ctx.fresh_int("NB", 0)
        ctx.assume(SInt(fP(z3.IntVal(0))) == 0)
        ctx.assume(SInt(fP(zi(NB))) == n)

        def U(i):
            i = zi(i)
            inr = z3.And(i >= 0, i < zi(NB))
            ctx.axiom(z3.Implies(inr, z3.And(fU(i) >= 1, fP(i+1) == fP(i)+fU(i), fP(i) >= 0, fP(i+1) <= zi(n))))
            return SInt(fU(i))
        PS = lambda i: SInt(fP(zi(i)))
        ops.burst_list = lambda: E.relabel(ctx, SSeq("list", n=NB, f=U))
    # got: responses taken; bi, inb: bursts completed and beats of the next one; err...: errors among them
    g.got = g.bi = g.inb = g.err = g.err1 = g.errm = g.exo = g.okx = g.last = g.moved = g.completed = 0
    total = NB if write else n
    active = Active(ctx, tag)
    g.act = ctx.fresh_int("act", 1, sample=lambda r: NB+r.randint(0, 2))
    ctx.assume(g.act >= NB)
    g.act0 = g.act              # bursts of this ID that are not answered, as the bus sees it

    def suspend():
        ctx.prove(o.fields["in_flight_operations"] == g.out, "operations in flight")
        step()
        more = ctx.fresh_int("issued", 0, None if ctx.mode == "sym" else 2)
        g.out = g.out+more
        idle.put(ite(more > 0, 0, idle.state))
        E.setattr_(ctx, o, "in_flight_operations", o.fields["in_flight_operations"]+more)
        new = ctx.fresh_int("announced", 0, None if ctx.mode == "sym" else 2)
        g.act = g.act+new
        g.act0 = g.act0+new

    def take():
        U(g.bi)
        ctx.prove(And(g.got < total, g.completed == 0), "as many responses are taken as belong to the operation")
        suspend()
        k = g.got
        g.got = k+1
        r = rs.get("resp", k)
        bad = r >= 2
        g.err1 = ite(And(g.err == 0, bad), r, g.err1)
        g.err = ite(bad, r, g.err)
        g.errm = ite(bad, smax(g.errm, r), g.errm)
        g.exo = ite(r == 1, 1, g.exo)
        if write:
            g.bi = g.got
            g.act0 = g.act0-1
        else:
            u = U(g.bi)
            g.last = ite(g.inb+1 == u, 1, 0)
            g.bi, g.inb = g.bi+g.last, ite(g.last != 0, 0, g.inb+1)
            g.act0 = g.act0-g.last
            g.moved = ops.aligned(0)+g.got*ops.nb-ops.get("A", 0)
        return RespRef(k)
    ctx.refs["read"] = SSeq("bytes", n=1 << 60, f=lambda i: ops.byte("R", 0, i), elem_bits=8)
    ctx.refs["user"] = SSeq("list", n=1 << 60, f=lambda i: rs.get("user", i))

    def complete(k, resp):
        ctx.prove(g.completed == 0, "an operation completes once")
        ctx.prove(g.got == total, "an operation completes when all of its responses arrived")
        g.completed = 1
        g.out = g.out-1
        ctx.prove(E._isinstance(ctx, resp, rcls), "the result is of the kind requested")
        ctx.prove(getattr_(ctx, resp, "address") == ops.get("A", 0), "the result reports the requested address")
        r = toint(getattr_(ctx, resp, "resp"))
        ctx.prove(ite(g.err != 0, Or(r == 2, r == 3), Or(r == 0, And(r == 1, g.exo != 0))), "an error is reported exactly when a response reported one")
        L = ops.get("L", 0)
        if write:
            ctx.prove(getattr_(ctx, resp, "length") == L, "the result reports the number of bytes written")
        else:
            d = getattr_(ctx, resp, "data")
            ctx.prove(isinstance(d, SSeq) and d.kind == "bytes", "the data is bytes")
            ctx.prove(d.n == L, "as many bytes are returned as requested")
            i = ctx.fresh_int("i", 0, sample=lambda r: r.randint(0, 20))
            if truth(ctx, i < L):
                ctx.prove(d.at(i) == ops.byte("R", 0, i), "every byte returned is the one presented for its address")
        u = getattr_(ctx, resp, "user")
        if opt:
            ctx.prove(isinstance(u, SSeq) and u.n == total, "one user value per response is returned")
            forall(ctx, total, lambda i: u.at(i) == rs.get("user", i), "the user values are those received, in order")
        ctx.cover("completed")
    ops.complete = complete
    g.out = 1+ctx.fresh_int("out", 0, sample=lambda r: r.randint(0, 2))

    def idle_set():
        ctx.prove(g.out == 0, "idle is only announced when nothing is outstanding")
    idle = Ev(ctx, "idle", on_set=idle_set)
    idle.put(0)
    o.fields.update(log=Log(), address_width=32, width=8*lanes, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, in_flight_operations=g.out, _idle=idle,
                    active_id=active, buser_present=bool(opt), ruser_present=bool(opt))

    def hints():
        d = {"in flight": And(o.fields["in_flight_operations"] == g.out, g.out >= 1, idle.state == 0),
             "got": And(g.got >= 0, g.got <= total, g.completed == 0), "bursts": And(g.bi >= 0, g.bi <= NB),
             "counted": And(g.act-g.act0 >= 0, g.act-g.act0 <= 1, g.act0 >= NB-g.bi), "settled": g.act == g.act0, "in burst": And(g.inb >= 0, Or(g.inb < U(g.bi), g.inb == 0)),
             "beats": g.got == (g.bi if write else PS(g.bi)+g.inb), "between": g.inb == 0,
             "moved": g.moved == ite(g.got == 0, 0, ops.aligned(0)+g.got*ops.nb-ops.get("A", 0)),
             "err": And(*[Or(x == 0, x == 2, x == 3) for x in (g.err, g.err1, g.errm)], Iff(g.err == 0, g.err1 == 0), Iff(g.err == 0, g.errm == 0), Or(g.exo == 0, g.exo == 1))}
        return d
    ctx.hints = hints
    P = ctx.extra_pool
    P["x:last"] = lambda t: ite(g.err != 0, g.err, g.exo)
    P["x:first"] = lambda t: ite(g.err != 0, g.err1, g.exo)
    P["x:max"] = lambda t: ite(g.err != 0, g.errm, g.exo)
    if not write:
        # inside a burst: after its last beat (t > 0, no beat of the next one) the burst is complete, but the code has yet to account for it
        over = lambda t: And(g.inb == 0, t > 0) if t is not None else False
        U0 = lambda t: U(ite(over(t), g.bi-1, g.bi))
        P["x:blen"] = U0
        P["x:k"] = lambda t: ite(over(t), U0(t), g.inb)
        P["x:bi"] = lambda t: g.bi-ite(over(t), 1, 0)
        P["inv:accounted"] = lambda t: toint(g.act-g.act0 == ite(over(t), 1, 0))
        P["x:lane"] = lambda t: mod(ops.aligned(0)+g.got*ops.nb, lanes)
    ctx.focus_all = True
    ctx.focus_flags = True
    names = ("G:got", "G:bi", "G:inb", "G:moved", "S:ref:read", "S:ref:user", "@G:bi", "@G:inb", "@G:got")
    ctx.entry_keep = {"@x:bi"}
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "len:self", "it."))
    ctx.focus_data = lambda n: not n.startswith(("G:", "self.")) or n == "G:moved" or n.startswith(("S:", "W:"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write_resp_id" if write else "_process_read_resp_id"), [RContext(tag, take), RespCmd(0)], {}))
    ctx.prove(g.completed == 1, "the operation completes")
    ctx.prove(g.act == g.act0, "exactly the answered bursts are not outstanding any more")
    ctx.prove(o.fields["in_flight_operations"] == g.out, "operations in flight")
    ctx.prove(Iff(idle.state != 0, g.out == 0), "idle exactly when nothing is outstanding")


@unit(("C04", "C22", "C23"), "AxiMasterWrite._process_write_resp_id", quick=[dict(lanes=4, opt=1), dict(lanes=4, opt=0)], samples=40, covers=("completed",), budget=400)
def _(ctx, lanes, opt):
    id_unit(ctx, True, lanes, opt)


@unit(("C03", "C04", "C22", "C23"), "AxiMasterRead._process_read_resp_id", quick=[dict(lanes=l, opt=1) for l in (1, 2, 4)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, covers=("completed",), budget=500)
def _(ctx, lanes, opt):
    id_unit(ctx, False, lanes, opt)


class TagPut(Contract):
    def __init__(self, put):
        self.put = put

    def put_resp(self, tag, r):
        self.put(tag, r)


@unit("C04", "AxiMaster._process_resp", quick=[dict(write=w) for w in (0, 1)], samples=20, forever=True, covers=("routed",))
def _(ctx, write):
    o = ctx.new_obj(M.AxiMasterWrite if write else M.AxiMasterRead)
    g = ctx.ghost
    step = counted(ctx, STEPS)
    p = "b" if write else "r"
    g.n = 0

    class Act(Contract):
        # responses only come for bursts that are outstanding (the slave's obligation)
        def getitem(self, i):
            ctx.prove(i == ch.get(p+"id", g.n), "the ID of the response is looked at")
            return ctx.fresh_int("act", 1)
    ch = Rx(ctx, p, {p+"id": 4, p+"resp": 2, p+"user": 6, **({} if write else dict(rdata=("data", 4, 8), rlast=1))}, step)

    def put(tag, r):
        ctx.prove(And(isinstance(r, ch.cls), r.k == g.n, ch.G == g.n+1), "every response is handed on once, in order")
        ctx.prove(tag == ch.get(p+"id", g.n), "every response goes to the operations with its ID")
        g.n = g.n+1
        ctx.cover("routed")
    o.fields.update(log=Log(), active_id=Act(), tag_context_manager=TagPut(put), **{p+"_channel": ch})
    ctx.hints = lambda: {"order": ch.G == g.n}
    ctx.focus_all = True
    ctx.focus_flags = False
    ctx.focus = lambda n: n in ("G:n", "G:%s_G" % p)
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write_resp" if write else "_process_read_resp"), [], {}))
