"""C22, C23: what a bus reset does to masters and slaves; response contexts by ID"""
from bus import *       # noqa
import engine as E
import cocotb
from collections import Counter
from unit import unit
from u_stream import Task
from cocotbext.axi import axi_master, axil_master, apb, axi_slave, axil_slave
from cocotbext.axi.axi_master import TagContext, TagContextManager

# class, processes (handle, coroutine), command queues, current commands, channels
MASTERS = dict(
    AxiMasterWrite=(axi_master, (("_process_write_cr", "_process_write"), ("_process_write_resp_cr", "_process_write_resp")),
                    ("write_command_queue",), ("current_write_command",), ("aw_channel", "w_channel", "b_channel"), True),
    AxiMasterRead=(axi_master, (("_process_read_cr", "_process_read"), ("_process_read_resp_cr", "_process_read_resp")),
                   ("read_command_queue",), ("current_read_command",), ("ar_channel", "r_channel"), True),
    AxiLiteMasterWrite=(axil_master, (("_process_write_cr", "_process_write"), ("_process_write_resp_cr", "_process_write_resp")),
                        ("write_command_queue", "int_write_resp_command_queue"), ("current_write_command", "current_write_resp_command"),
                        ("aw_channel", "w_channel", "b_channel"), False),
    AxiLiteMasterRead=(axil_master, (("_process_read_cr", "_process_read"), ("_process_read_resp_cr", "_process_read_resp")),
                       ("read_command_queue", "int_read_resp_command_queue"), ("current_read_command", "current_read_resp_command"),
                       ("ar_channel", "r_channel"), False),
    ApbMaster=(apb, (("_run_cr", "_run"),), ("command_queue",), ("current_command",), (), False),
    AxiSlaveWrite=(axi_slave, (("_process_write_cr", "_process_write"),), (), (), ("aw_channel", "w_channel", "b_channel"), False),
    AxiSlaveRead=(axi_slave, (("_process_read_cr", "_process_read"),), (), (), ("ar_channel", "r_channel"), False),
    AxiLiteSlaveWrite=(axil_slave, (("_process_write_cr", "_process_write"),), (), (), ("aw_channel", "w_channel", "b_channel"), False),
    AxiLiteSlaveRead=(axil_slave, (("_process_read_cr", "_process_read"),), (), (), ("ar_channel", "r_channel"), False),
    ApbSlave=(apb, (("_run_cr", "_run"),), (), (), (), False),
)


class FCmd(Contract):
    """an outstanding command, of which only the event matters here"""

    def __init__(self, src, k):
        self.__dict__.update(src=src, k=k)

    def vkind(self):
        return FCmd

    def vargs(self):
        return (self.src, self.k)

    def truth(self):
        return True

    @property
    def event(self):
        return FEv(self.src, self.k)


class FEv(Contract):
    def __init__(self, src, k):
        self.__dict__.update(src=src, k=k)

    def truth(self):
        return True

    def set(self, data=None):
        CTX[0].world.done(self.src, self.k, data)


class Channel(Contract):
    def __init__(self):
        self.cleared = 0

    def clear(self):
        self.cleared += 1


class Tags(Contract):
    def __init__(self, ctx):
        self.ctx = ctx
        self.n = ctx.fresh_int("tags", 0, sample=lambda r: r.randint(0, 3))
        self.flushed = 0

    def flush(self):
        self.flushed += 1
        if self.ctx.mode == "conc":
            return E.relabel(self.ctx, SSeq("list", items=[FCmd("tag", k) for k in range(self.n)]))
        return E.relabel(self.ctx, SSeq("list", n=self.n, f=lambda i: FCmd("tag", i)))


class W_:
    pass


@unit(("C22", "C23"), "handle_reset", quick=[dict(cls=c) for c in MASTERS], samples=40, covers=("reset", "release"))
def _(ctx, cls):
    mod_, procs, queues, currents, channels, tags = MASTERS[cls]
    o = ctx.new_obj(getattr(mod_, cls))
    real = getattr(mod_, cls)
    g = ctx.ghost
    w = ctx.world = W_()
    master = "Master" in cls
    qs, K = {}, {}
    for n in queues:
        qs[n] = Q(ctx, n, item=lambda k, n=n: FCmd(n, k))
        K[n] = ctx.fresh_int("K_"+n, 0, sample=lambda r: r.randint(0, 5))
        setattr(g, "done_"+n, 0)
        setattr(g, "pos_"+n, qs[n].G)
        o.fields[n] = qs[n]
    start = {n: (q.G, q.P) for n, q in qs.items()}
    cur = {}
    for n in currents:
        cur[n] = FCmd(n, 0) if ctx.choice(2) else None
        o.fields[n] = cur[n]
        setattr(g, "done_"+n, 0)
    if tags:
        tm = Tags(ctx)
        o.fields.update(tag_context_manager=tm, cur_id=ctx.fresh_int("cur_id", 0, 15), active_id=Bag())
        K["tag"] = ctx.fresh_int("K_tag", 0, sample=lambda r: r.randint(0, 3))
        g.done_tag = 0
        g.pos_tag = 0

    def done(src, k, data):
        ctx.prove(data is None, "a cancelled operation has an empty result")
        if src in currents:
            setattr(g, "done_"+src, getattr(g, "done_"+src)+1)
            return
        ctx.prove(k == getattr(g, "pos_"+src), "every cancelled operation completes once")
        setattr(g, "pos_"+src, k+1)
        setattr(g, "done_"+src, ite(k == K[src], 1, getattr(g, "done_"+src)))
    w.done = done
    ch = {n: Channel() for n in channels}
    old = {h: Task(h) if ctx.choice(2) else None for h, _ in procs}
    n0 = ctx.fresh_int("in_flight", 0)
    idle = Ev(ctx, "idle")
    o.fields.update(log=Log(), _idle=idle, in_flight_operations=n0, **ch, **old)
    S = {}
    if cls.startswith("Apb"):
        S = {n: Sig(ctx, n) for n in (("psel", "penable") if master else ("pready",))}
        o.fields["bus"] = Bag(**S)
    started, ran = [], []

    def start_soon(c):
        t = Task(c)
        started.append(t)
        return t
    ctx.handlers[cocotb.start_soon] = start_soon
    ctx.handlers[Counter] = lambda *a: Bag(empty=True)
    for _h, p in procs:
        ctx.handlers[getattr(real, p)] = lambda self, p=p: ran.append((self, p)) or ("coro", p)

    # each command of a queue is completed when it is taken
    def inv():
        c = True
        for n, q in qs.items():
            G, P = start[n]
            c = And(c, getattr(g, "pos_"+n) == q.G, q.G >= G, q.P == P, q.G <= P, getattr(g, "done_"+n) == ite(And(K[n] >= G, K[n] < q.G), 1, 0))
        if tags:
            c = And(c, g.done_tag == ite(K["tag"] < g.pos_tag, 1, 0), g.pos_tag >= 0)
        return toint(c)
    ctx.extra_pool["inv:queues"] = lambda t: inv()
    state = ctx.fresh_bool("state")
    E.call(ctx, getattr_(ctx, o, "_handle_reset"), [state], {})
    if truth(ctx, state):
        ctx.cover("reset")
        for h, t in old.items():
            ctx.prove(t is None or t.killed == 1, "the processes are stopped by the reset")
            ctx.prove(o.fields[h] is None, "no process runs during reset")
        ctx.prove(not started and not ran, "nothing is started during reset")
        for n, c in ch.items():
            ctx.prove(c.cleared >= 1, "everything queued in channel %s is dropped" % n[:-8])
        for n, q in qs.items():
            G, P = start[n]
            ctx.prove(q.G == q.P, "no command is left")
            ctx.prove(Implies(And(K[n] >= G, K[n] < P), getattr(g, "done_"+n) == 1), "every queued operation is completed with an empty result")
        for n, c in cur.items():
            ctx.prove(o.fields[n] is None, "no command is in progress after the reset")
            ctx.prove(getattr(g, "done_"+n) == (1 if c else 0), "the operation in progress is completed with an empty result")
        if tags:
            ctx.prove(tm.flushed == 1, "the response contexts are emptied")
            ctx.prove(Implies(K["tag"] < tm.n, g.done_tag == 1), "every operation waiting for its response is completed with an empty result")
            ctx.prove(o.fields["active_id"].__dict__.get("empty") is True, "no ID is in use after the reset")
        if master:
            ctx.prove(And(o.fields["in_flight_operations"] == 0, idle.state != 0), "the master is idle after the reset")
        for n, s in S.items():
            ctx.prove(s.nxt == 0, "%s is low during reset" % n)
    else:
        ctx.cover("release")
        for h, p in procs:
            t = o.fields[h]
            if old[h]:
                ctx.prove(t is old[h] and old[h].killed == 0 and (o, p) not in ran, "a running process is left alone")
            else:
                ctx.prove(t in started and t.what == ("coro", p) and sum(1 for x in ran if x == (o, p)) == 1, "process %s is started after the reset" % p)
        ctx.prove(len(started) == sum(1 for t in old.values() if t is None), "no other process is started")
        for n, q in qs.items():
            ctx.prove(And(q.G == start[n][0], q.P == start[n][1]), "nothing is taken from the queues")
        if master:
            ctx.prove(o.fields["in_flight_operations"] == n0, "the operations in flight are not touched")


# ---- response contexts: one per ID in use -----------------------------------------------------------------
# commands and responses are stood for by numbers: the contexts only hand them on


class Mgr(Contract):
    def __init__(self, qs=()):
        self.idled, self.calls, self.qs = [], [], qs

    on_idle = None

    def _set_idle(self, c):
        self.idled.append(c)
        if self.on_idle:
            self.on_idle(c)

    def _process(self, context, cmd):
        self.calls.append((context, cmd))
        return Aw(lambda: self.on_process(context, cmd))


@unit("C22", "TagContext._flush", samples=40, covers=("end",))
def _(ctx):
    o = ctx.new_obj(TagContext)
    mgr = Mgr()
    qc, qr = Q(ctx, "qc", item=lambda k: k), Q(ctx, "qr", item=lambda k: k)
    G, P = qc.G, qc.P
    cur = ctx.fresh_int("cur", 0, sample=lambda r: r.randint(0, 9)) if ctx.choice(2) else None
    old = Task("cr") if ctx.choice(2) else None
    o.fields.update(_manager=mgr, _cmd_queue=qc, _resp_queue=qr, _current_cmd=cur, _cr=old, current_tag=ctx.fresh_int("tag", 0, 15))
    c0 = 0 if cur is None else 1

    def exp(i):
        return G+i if cur is None else ite(i < 1, cur, G+i-1)
    ctx.refs["exp"] = SSeq("list", n=1 << 60, f=exp)
    ctx.extra_pool["inv:queues"] = lambda t: toint(And(qc.G >= G, qc.P == P, qc.G <= P, qr.G <= qr.P))
    ctx.extra_pool["taken"] = lambda t: qc.G-G
    r = E.call(ctx, getattr_(ctx, o, "_flush"), [], {})
    ctx.cover("end")
    ctx.prove(old is None or old.killed == 1, "the process of the context is stopped")
    ctx.prove(o.fields["_cr"] is None and o.fields["_current_cmd"] is None, "nothing is in progress")
    ctx.prove(And(qc.G == qc.P, qr.G == qr.P), "nothing is left in the context")
    ctx.prove(len(mgr.idled) == 1 and mgr.idled[0] is o, "the context is free again")
    ctx.prove(isinstance(r, SSeq), "the flushed commands are returned")
    ctx.prove(r.n == c0+P-G, "as many commands are returned as were outstanding")
    forall(ctx, r.n, lambda i: r.at(i) == exp(i), "every outstanding command is returned, in order")


@unit(("C04", "C22"), "TagContext._process_queue", samples=40, covers=("idle",), forever=True)
def _(ctx):
    o = ctx.new_obj(TagContext)
    g = ctx.ghost
    mgr = Mgr()
    g.done = 0
    g.busy = 0

    def step(q):
        # nothing runs: the context hands no command on
        ctx.prove(g.busy == 0, "one command at a time")
        ctx.prove(o.fields["_current_cmd"] is None, "no command is in progress while waiting for one")
        env_put(ctx, qc)
        env_put(ctx, qr)
    qc = Q(ctx, "qc", item=lambda k: k, wait=step)
    qr = Q(ctx, "qr", item=lambda k: k)
    g.done = qc.G

    def process(context, cmd):
        ctx.prove(And(context is o, cmd == g.done), "commands of an ID are processed in order, each once")
        c = o.fields["_current_cmd"]
        ctx.prove(c is not None and c == cmd, "the command in progress is known to a reset")
        g.done = g.done+1
        env_put(ctx, qc)
        env_put(ctx, qr)
        n = ctx.fresh_int("resp", 0, None if ctx.mode == "sym" else 2)
        ctx.assume(n <= qr.P-qr.G)
        qr.setG(qr.G+n)
    mgr.on_process = process

    def idled(c):
        ctx.prove(And(c is o, qc.G == qc.P, qr.G == qr.P), "a context is given up only when no command and no response is left in it")
        ctx.prove(o.fields["_current_cmd"] is None, "a context is given up only when it processes no command")
        ctx.cover("idle")
    mgr.on_idle = idled
    o.fields.update(_manager=mgr, _cmd_queue=qc, _resp_queue=qr, _current_cmd=None, _cr=Task("cr"), current_tag=ctx.fresh_int("tag", 0, 15))
    ctx.extra_pool["inv:queues"] = lambda t: toint(And(qc.G == g.done, qc.G <= qc.P, qr.G <= qr.P))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_queue"), [], {}))


class Sink_(Contract):
    def __init__(self, l):
        self.l = l

    def put_nowait(self, x):
        self.l.append(x)


class Ctx_(Contract):
    """a context, as far as the manager uses it"""

    def __init__(self, ctx, name):
        self.name = name
        self.cmds, self.resps, self.started = [], [], 0
        self._cmd_queue, self._resp_queue = Sink_(self.cmds), Sink_(self.resps)
        self.ctx = ctx
        self.flushed = 0
        self.current_tag = None
        self.log = []

    def _start(self):
        self.started += 1

    def _flush(self):
        self.flushed += 1
        k, n = self.k, self.n
        if self.ctx.mode == "conc":
            return E.relabel(self.ctx, SSeq("list", items=[100*k+i for i in range(n)]))
        return E.relabel(self.ctx, SSeq("list", n=n, f=lambda i: 100*k+i))


class TagMap(Contract):
    """the mapping from IDs in use to contexts: a Python dict, of which the entry for one arbitrary ID matters"""

    def __init__(self, ctx, tag, c):
        self.ctx, self.tag, self.c, self.sets, self.dels = ctx, tag, c, 0, 0

    def check(self, t):
        self.ctx.prove(t == self.tag, "only the entry of the ID in question is used")

    def contains(self, t):
        self.check(t)
        return self.c is not None

    def getitem(self, t):
        self.check(t)
        return self.c

    def setitem(self, t, c):
        self.check(t)
        self.c = c
        self.sets += 1

    def delitem(self, t):
        self.check(t)
        self.c = None
        self.dels += 1


@unit(("C04", "C22"), "TagContextManager", quick=[dict(op=o, state=s) for o in ("start_cmd", "put_resp") for s in ("mapped", "idle", "new")],
      samples=20, covers=("end",))
def _(ctx, op, state):
    o = ctx.new_obj(TagContextManager)
    tag = ctx.fresh_int("tag", 0, sample=lambda r: r.randint(0, 300))
    x = ctx.fresh_int("x", 0)
    mine, free, other = Ctx_(ctx, "mine"), Ctx_(ctx, "free"), Ctx_(ctx, "other")
    made = []

    def make(manager):
        c = Ctx_(ctx, "new")
        ctx.prove(manager is o, "a new context belongs to its manager")
        made.append(c)
        return c
    ctx.handlers[TagContext] = make
    m = TagMap(ctx, tag, mine if state == "mapped" else None)
    idle = [free] if state != "new" else []
    all_ = [mine, free, other]
    o.fields.update(_context_list=E.relabel(ctx, SSeq("list", items=list(all_))), _context_idle_list=E.relabel(ctx, SSeq("list", items=list(idle))),
                    _context_mapping=m, _process="process")
    E.call(ctx, getattr_(ctx, o, op), [tag, x], {})
    ctx.cover("end")
    c = {"mapped": mine, "idle": free, "new": made[0] if made else None}[state]
    ctx.prove(c is not None and m.c is c, "the ID is mapped to its context")
    L = o.fields["_context_list"]
    ctx.prove(any(y is c for y in L.items), "every context in use is known to a reset")
    I = o.fields["_context_idle_list"]
    ctx.prove(all(y is not c for y in I.items), "a context in use is not free")
    ctx.prove(len(made) == (1 if state == "new" else 0), "a context is made only if none is free")
    if state != "mapped":
        ctx.prove(c.started >= 1, "the context's process is started")
        ctx.prove(And(c.current_tag is not None, c.current_tag == tag), "the context knows its ID")
    got = c.cmds if op == "start_cmd" else c.resps
    ctx.prove(len(got) == 1 and len(c.cmds)+len(c.resps) == 1, "it is queued once, in the context of its ID")
    ctx.prove(got[0] == x, "it is queued as it is")
    for y in all_:
        if y is not c:
            ctx.prove(not y.cmds and not y.resps and not y.started, "the contexts of other IDs are left alone")


@unit(("C04", "C22"), "TagContextManager._set_idle", quick=[dict(mapped=b) for b in (0, 1)], samples=10, covers=("end",))
def _(ctx, mapped):
    o = ctx.new_obj(TagContextManager)
    tag = ctx.fresh_int("tag", 0, sample=lambda r: r.randint(0, 300))
    mine, free = Ctx_(ctx, "mine"), Ctx_(ctx, "free")
    mine.current_tag = tag
    m = TagMap(ctx, tag, mine if mapped else None)
    o.fields.update(_context_list=E.relabel(ctx, SSeq("list", items=[mine, free])),
                    _context_idle_list=E.relabel(ctx, SSeq("list", items=[free] if mapped else [free, mine])), _context_mapping=m, _process="process")
    E.call(ctx, getattr_(ctx, o, "_set_idle"), [mine], {})
    ctx.cover("end")
    ctx.prove(m.c is None, "the ID is not in use any more")
    I = o.fields["_context_idle_list"]
    ctx.prove(sum(1 for y in I.items if y is mine) == 1, "the context is free once")
    ctx.prove(mine.current_tag is None, "a free context has no ID")


@unit("C22", "TagContextManager.flush", quick=[dict(n=n) for n in range(4)], samples=20, covers=("end",),
      bounded="up to 3 contexts (one per ID that was ever in use at a time)")
def _(ctx, n):
    o = ctx.new_obj(TagContextManager)
    cs, lens = [], []
    for k in range(n):
        c = Ctx_(ctx, "c%d" % k)
        ln = ctx.fresh_int("n%d" % k, 0, sample=lambda r: r.randint(0, 3))
        lens.append(ln)
        c.k, c.n = k, ln
        cs.append(c)
    o.fields.update(_context_list=E.relabel(ctx, SSeq("list", items=list(cs))), _context_idle_list=E.relabel(ctx, SSeq("list", items=[])),
                    _context_mapping=None, _process="process")
    r = E.call(ctx, getattr_(ctx, o, "flush"), [], {})
    ctx.cover("end")
    ctx.prove(all(c.flushed == 1 for c in cs), "every context is flushed")
    tot = 0
    for ln in lens:
        tot = tot+ln
    ctx.prove(r.n == tot, "all flushed commands are returned")
    base = 0
    for k, ln in enumerate(lens):
        forall(ctx, ln, lambda i, b=base, k=k: r.at(b+i) == 100*k+i, "all flushed commands are returned in order")
        base = base+ln
