"""C20, C21: sources, sinks and monitors of ready/valid streams (every AXI, AXI-Lite channel is one)"""
from bus import *       # noqa
import engine as E
import cocotb
from cocotb.triggers import RisingEdge, Event, First, Timer
from cocotb.queue import QueueFull
from unit import unit
from cocotbext.axi import stream
from cocotbext.axi.stream import StreamSource, StreamSink, StreamMonitor, StreamBase

STEPS = 24


class Item(Contract):
    """the k-th item of a queue"""

    def __init__(self, k):
        self.k = k
        self.serial = E.CTX[0].new_serial()

    def vkind(self):
        return Item

    def vargs(self):
        return (self.k if self.k is not None else -1,)

    def pool(self):
        return {"k": self.k}


class StreamBusC(Contract):
    """the payload signals, as one value: the number of the item on them (-1: none)"""

    def __init__(self, ctx, **sig):
        self.ctx = ctx
        self.__dict__.update(sig)
        ctx.ghost.pay = ctx.ghost.pay_n = ctx.fresh_int("pay", -1, 3)

    def drive(self, obj, strict=False):
        self.ctx.ghost.pay_n = obj.k

    def sample(self, obj, strict=False):
        obj.k = self.ctx.ghost.pay


CONF = [dict(valid=v, ready=r) for v in (1, 0) for r in (1, 0)]


def common(ctx, cls, valid, ready):
    o = ctx.new_obj(cls)
    sv = Sig(ctx, "valid", 1) if valid else None
    sr = Sig(ctx, "ready", 1) if ready else None
    sig = {}
    if valid:
        sig["avalid"] = sv
    if ready:
        sig["aready"] = sr
    bus = StreamBusC(ctx, **sig)
    o.fields.update(bus=bus, clock=Clock(), valid=sv, ready=sr, log=Log(), active=ctx.fresh_bool("active"),
                    _pause=ctx.fresh_bool("pause", 0.3), queue_occupancy_limit=-1, _run_cr=None)
    return o, sv, sr, bus


@unit("C20", "StreamSource._run", quick=CONF, samples=40, forever=True, covers=("edge", "sleep"))
def _(ctx, valid, ready):
    o, sv, sr, bus = common(ctx, StreamSource, valid, ready)
    g = ctx.ghost
    q = Q(ctx, "q", Item)
    st = dict(n=0)
    g.at_edge = 0

    def spec():
        """what the step from the last clock edge to here did"""
        e = g.at_edge != 0
        v = sv.cur != 0 if valid else True
        r = sr.cur != 0 if ready else True
        stall = And(v, Not(r))
        go = And(Not(stall), g.P0 > g.G0, g.p0 == 0)
        rest = And(Not(stall), Not(go))
        return {
            "the payload only changes after a clock edge": Implies(Not(e), g.pay_n == g.pay),
            "items are only taken after a clock edge": Implies(Not(e), q.G == g.G0),
            "valid only changes after a clock edge": Implies(Not(e), sv.nxt == sv.cur) if valid else True,
            "a stalled payload stays unchanged and nothing is lost": Implies(And(e, stall), And(g.pay_n == g.pay, q.G == g.G0)),
            "the oldest queued item is offered when the bus is free": Implies(And(e, go), And(g.pay_n == g.G0, q.G == g.G0+1)),
            "no item is taken without being offered": Implies(And(e, rest), q.G == g.G0),
            "a stalled transfer is not withdrawn": Implies(And(e, stall), sv.nxt == sv.cur) if valid else True,
            "valid announces the item": Implies(And(e, go), sv.nxt == 1) if valid else True,
            "valid is low when nothing is offered, and no transfer starts while paused": Implies(And(e, rest), sv.nxt == 0) if valid else True,
            "queueing wakes the process": Or(q.P == q.G, act.state != 0),
            "queue": And(q.P >= q.G, q.G >= 0),
        }

    def suspend():
        for label, c in spec().items():
            ctx.prove(c, label)
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > STEPS:
            raise PathEnd("end of the run")
        # writes become visible; other tasks run
        if valid:
            sv.commit()
        g.pay = g.pay_n
        if ready:
            sr.drive(env_bool(ctx, 0.5, "r"))
        if ctx.choice(2):
            q.setG(q.P)                 # clear()
            act.clear()
        P = q.P
        env_put(ctx, q)
        act.put(ite(q.P > P, 1, act.state))      # every put is followed by active_event.set(), see the send units
        E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.3))

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            suspend()
            g.at_edge = 1
            g.G0, g.P0, g.p0 = q.G, q.P, toint(o.fields["_pause"])
            ctx.cover("edge")
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def sleep(ev):
        ctx.prove(ev is act, "the process sleeps until something is queued")
        ctx.prove(q.P == q.G, "the process never sleeps while items are queued")
        if valid:
            ctx.prove(sv.nxt == 0, "valid is low while the process sleeps")
        suspend()
        g.at_edge = 0
        ctx.assume(act.state != 0)
        g.G0 = q.G
        ctx.cover("sleep")

    def null():
        suspend()
        g.at_edge = 0
    act = Ev(ctx, "act", wait=sleep, null=null)
    act.put(ite(q.P > q.G, 1, act.state))
    if valid:
        sv.commit()
    g.pay = g.pay_n
    g.G0, g.P0, g.p0 = q.G, q.P, toint(o.fields["_pause"])
    ctx.focus = True
    ctx.hints = spec
    o.fields.update(queue=q, dequeue_event=Ev(ctx, "deq"), idle_event=Ev(ctx, "idle"), active_event=act, wake_event=Ev(ctx, "wake"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))


def sink_unit(ctx, cls, valid, ready):
    sink = cls is StreamSink
    o, sv, sr, bus = common(ctx, cls, valid, ready)
    g = ctx.ghost
    lim = ctx.fresh_int("limit", -1, sample=lambda r: r.choice([-1, 0, 1, 2, 3]))
    o.fields["queue_occupancy_limit"] = lim
    own = sink and ready        # the process drives ready
    st = dict(n=0, serial=ctx.new_serial())
    g.at_edge, g.puts, g.last = 0, 0, -2
    g.pe = g.pp = 0

    def on_put(k, x):
        ctx.prove(isinstance(x, Item), "the queue holds transactions")
        ctx.prove(x.serial > st["serial"], "every transfer is recorded in an object of its own")
        g.puts = g.puts+1
        g.last = x.k
    q = Q(ctx, "q", Item, put=on_put)

    def full():
        return And(lim > 0, q.P-q.G >= lim)

    def pause():
        return toint(o.fields["_pause"])

    def spec():
        e = g.at_edge != 0
        v = sv.cur != 0 if valid else True
        r = sr.cur != 0 if ready else True
        t = And(v, r)
        d = {
            "a transfer is recorded once": Implies(And(e, t), g.puts == 1),
            "the recorded payload is the one on the bus at the clock edge": Implies(And(e, t), g.last == g.pay),
            "nothing is recorded without a transfer": Implies(And(e, Not(t)), g.puts == 0),
            "nothing is recorded between clock edges": Implies(Not(e), g.puts == 0),
            "receivers are notified": Implies(And(e, t), act.state != 0),
            "queue": And(q.P >= q.G, q.G >= 0),
        }
        if own:
            d["ready follows pause and occupancy"] = Implies(And(e, g.pe == g.pp), sr.nxt == ite(Or(full(), g.pe != 0), 0, 1))
            d["ready is only raised when not paused and not full"] = Implies(And(e, sr.nxt != 0), And(Not(full()), Or(g.pe == 0, g.pp == 0)))
            d["ready only drops when paused or full"] = Implies(And(e, sr.nxt == 0), Or(full(), g.pe != 0, g.pp != 0))
            d["ready only changes after a clock edge"] = Implies(Not(e), sr.nxt == sr.cur)
        return d

    def suspend():
        for label, c in spec().items():
            ctx.prove(c, label)
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > STEPS:
            raise PathEnd("end of the run")
        if own:
            sr.commit()
        g.pp = pause()
        # other tasks: the other side of the bus, receivers, pausing
        if valid:
            sv.drive(env_bool(ctx, 0.6, "v"))
        if ready and not own:
            sr.drive(env_bool(ctx, 0.6, "r"))
        g.pay = ctx.fresh_int("payload", 0, 1000)
        q.setG(q.G+ctx.fresh_int("read", 0, None if ctx.mode == "sym" else 1))
        if ctx.mode == "conc" and q.G > q.P:
            q.setG(q.P)
        ctx.assume(q.G <= q.P)
        E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.3))
        act.put(env_bool(ctx, 0.5, "act"))
        wake.put(env_bool(ctx, 0.5, "wake"))
        g.puts = 0
        g.at_edge = 0

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            suspend()
            g.at_edge = 1
            g.pe = pause()
            st["serial"] = ctx.new_serial()
            ctx.cover("edge")
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def sleep(ev):
        """the process sleeps until valid or ready rises, or (sinks) pause changes, something is received or cleared"""
        ctx.prove(ev is wake, "the process sleeps until something changes")
        ctx.prove(g.at_edge != 0, "the process only sleeps on what it sampled at the last clock edge")
        v = sv.cur != 0 if valid else True
        if own:
            ctx.prove(Or(Not(v), sr.nxt == 0), "no transfer can happen while the process sleeps")
            ctx.prove(sr.nxt == ite(Or(full(), pause() != 0), 0, 1), "the process only sleeps when ready needs no change")
        elif ready:
            ctx.prove(Or(Not(v), sr.cur == 0), "no transfer can happen while the process sleeps")
        else:
            ctx.prove(Not(v), "no transfer can happen while the process sleeps")
        suspend()
        ctx.cover("sleep")

    def null():
        suspend()
    act = Ev(ctx, "act")
    wake = Ev(ctx, "wake", wait=sleep, null=null)
    if own:
        sr.commit()
    ctx.focus = True
    ctx.hints = spec
    o.fields.update(queue=q, dequeue_event=Ev(ctx, "deq"), idle_event=Ev(ctx, "idle"), active_event=act, wake_event=wake,
                    _transaction_obj=TransClass(Item))
    g.pp = pause()
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))


class TransClass(Contract):
    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *a, **k):
        return self.cls(None)


@unit("C21", "StreamMonitor._run", quick=CONF, samples=40, forever=True, covers=("edge",))
def _(ctx, valid, ready):
    sink_unit(ctx, StreamMonitor, valid, ready)


@unit("C21", "StreamSink._run", quick=CONF, samples=40, forever=True, covers=("edge",))
def _(ctx, valid, ready):
    sink_unit(ctx, StreamSink, valid, ready)


# ---- the methods other tasks call: what the processes rely on -----------------------------------------------


def endpoint(ctx, cls, **kw):
    """an endpoint in any state"""
    o, sv, sr, bus = common(ctx, cls, 1, 1)
    g = ctx.ghost
    g.woken = 0
    log = []

    def put(k, x):
        log.append(x)
    q = Q(ctx, "q", Item, put=put)
    ev = {n: Ev(ctx, n) for n in ("deq", "idle", "act", "wake")}
    o.fields.update(queue=q, dequeue_event=ev["deq"], idle_event=ev["idle"], active_event=ev["act"], wake_event=ev["wake"],
                    queue_occupancy_limit=ctx.fresh_int("limit", -1, sample=lambda r: r.choice([-1, 0, 1, 2, 3])), **kw)
    return o, q, ev, log


def is_full(o, q):
    lim = o.fields["queue_occupancy_limit"]
    return And(lim > 0, q.P-q.G >= lim)


@unit("C20", "StreamSource.send_nowait", samples=30)
def _(ctx):
    o, q, ev, log = endpoint(ctx, StreamSource)
    P, G, it = q.P, q.G, Item(7)
    f = is_full(o, q)
    r, _ = expect(ctx, lambda: E.call(ctx, getattr_(ctx, o, "send_nowait"), [it], {}), Not(f), (QueueFull,), "a full source")
    if r:
        ctx.prove(And(q.P == P, not log), "a refused item is not queued")
        return
    ctx.prove(len(log) == 1 and log[0] is it, "the item is queued once")
    ctx.prove(And(q.P == P+1, q.G == G), "nothing else is queued or lost")
    ctx.prove(ev["act"].state == 1, "the process is woken")
    ctx.prove(ev["idle"].state == 0, "the source is not idle")


@unit(("C20", "C26"), "StreamSource.send", samples=40)
def _(ctx):
    o, q, ev, log = endpoint(ctx, StreamSource)
    it = Item(7)
    g = ctx.ghost
    n = [0]

    def wait(e):
        ctx.prove(e is ev["deq"], "a full source waits for an item to be taken")
        ctx.prove(is_full(o, q), "only a full source waits")
        ctx.prove(not log, "nothing is queued before waiting")
        n[0] += 1
        if ctx.mode == "conc" and n[0] > 10:
            raise PathEnd("end of the run")
        # taken by the process, queued by others
        q.setG(q.G+ctx.fresh_int("taken", 0, None if ctx.mode == "sym" else 2))
        q.setP(q.P+ctx.fresh_int("more", 0, None if ctx.mode == "sym" else 1))
        if ctx.mode == "conc" and q.G > q.P:
            q.setG(q.P)
        ctx.assume(q.G <= q.P)
        e.put(1)
        g.P0, g.G0 = q.P, q.G
    ev["deq"].on_wait = wait
    ev["deq"].on_null = lambda: wait(ev["deq"])
    g.P0, g.G0 = q.P, q.G
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "send"), [it], {}))
    ctx.prove(len(log) == 1 and log[0] is it, "the item is queued once")
    ctx.prove(And(q.P == g.P0+1, q.G == g.G0), "nothing else is queued or lost")
    lim = o.fields["queue_occupancy_limit"]
    ctx.prove(Implies(lim > 0, q.P-q.G <= lim), "the occupancy limit is respected")
    ctx.prove(ev["act"].state == 1, "the process is woken")
    ctx.prove(ev["idle"].state == 0, "the source is not idle")


@unit(("C20", "C21"), "StreamBase.clear", quick=[dict(cls=c) for c in (StreamSource, StreamMonitor, StreamSink)], samples=30)
def _(ctx, cls):
    o, q, ev, log = endpoint(ctx, cls)
    P = q.P
    E.call(ctx, getattr_(ctx, o, "clear"), [], {})
    ctx.prove(And(q.P == P, q.G == P), "exactly what was queued is dropped")
    ctx.prove(And(ev["deq"].state == 1, ev["wake"].state == 1, ev["idle"].state == 1), "waiting tasks are woken")
    ctx.prove(ev["act"].state == 0, "nothing is waiting in the queue")


@unit(("C20", "C21"), "stream count, empty, full, idle", quick=[dict(cls=c) for c in (StreamSource, StreamMonitor, StreamSink)], samples=30)
def _(ctx, cls):
    o, q, ev, log = endpoint(ctx, cls)
    a = o.fields["active"]
    ctx.prove(E.call(ctx, getattr_(ctx, o, "count"), [], {}) == q.P-q.G, "count is the number of queued items")
    ctx.prove(E.equal(ctx, toint(E.call(ctx, getattr_(ctx, o, "empty"), [], {})), toint(q.P == q.G)), "empty")
    if cls is not StreamMonitor:
        ctx.prove(E.equal(ctx, toint(E.call(ctx, getattr_(ctx, o, "full"), [], {})), toint(is_full(o, q))), "full exactly at the occupancy limit")
    if cls is StreamSource:
        ctx.prove(E.equal(ctx, toint(E.call(ctx, getattr_(ctx, o, "idle"), [], {})), toint(And(q.P == q.G, Not(a)))), "idle")


@unit("C21", "stream recv, recv_nowait", quick=[dict(cls=c, aw=a) for c in (StreamMonitor, StreamSink) for a in (0, 1)], samples=30)
def _(ctx, cls, aw):
    o, q, ev, log = endpoint(ctx, cls)
    G, P = q.G, q.P
    from cocotb.queue import QueueEmpty
    if aw:
        def wait(q):
            ev["wake"].put(toint(ctx.fresh_bool("w")))
            env_put(ctx, q)
            if ctx.mode == "conc" and q.P == q.G:
                q.setP(q.P+1)
            ctx.cover("waits")
        q.on_wait = wait
        r = E.await_(ctx, E.call(ctx, getattr_(ctx, o, "recv"), [], {}))
    else:
        bad, r = expect(ctx, lambda: E.call(ctx, getattr_(ctx, o, "recv_nowait"), [], {}), P > G, (QueueEmpty,), "an empty queue")
        if bad:
            ctx.prove(q.G == G, "nothing is taken")
            return
    ctx.prove(isinstance(r, Item), "an item is returned")
    ctx.prove(And(r.k == G, q.G == G+1), "the oldest item is returned and taken once")
    ctx.prove(not log, "nothing is queued")
    if cls is StreamSink:
        ctx.prove(ev["wake"].state == 1, "the process is woken when room was made")


@unit(("C20", "C21"), "stream pause", quick=[dict(cls=c) for c in (StreamSource, StreamSink)], samples=30)
def _(ctx, cls):
    o, q, ev, log = endpoint(ctx, cls)
    p0 = o.fields["_pause"]
    w0 = ev["wake"].state
    v = ctx.fresh_bool("v")
    E.setattr_(ctx, o, "pause", v)
    ctx.prove(E.equal(ctx, toint(getattr_(ctx, o, "pause")), toint(v)), "pause reads back")
    if cls is StreamSink:
        ctx.prove(Implies(Not(E.equal(ctx, toint(p0), toint(v))), ev["wake"].state == 1), "a change of pause wakes the process")


@unit(("C20", "C21"), "stream _run_pause", quick=[dict(cls=c) for c in (StreamSource, StreamSink)], samples=30, forever=True)
def _(ctx, cls):
    o, q, ev, log = endpoint(ctx, cls)
    n = ctx.fresh_int("n", 0, sample=lambda r: r.randint(0, 6))
    vals = E.relabel(ctx, ctx.fresh_bytes("vals", n, "list", 1))
    ref = SSeq("tuple", items=list(vals.items)) if vals.items is not None else SSeq("tuple", n=vals._n, f=vals.f, elem_bits=1)
    o.fields["_pause_generator"] = ref
    g = ctx.ghost
    g.t = 0

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "one value per clock edge")

        def go():
            ctx.prove(g.t < n, "one edge per value")
            ctx.prove(E.equal(ctx, toint(o.fields["_pause"]), ref.at(g.t)), "pause follows the generator")
            g.t = g.t+1
            E.setattr_(ctx, o, "_pause", ctx.fresh_bool("p"))
        return Aw(go)
    ctx.handlers[RisingEdge] = edge
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run_pause"), [], {}))
    ctx.prove(g.t == n, "every value of the generator is used")


@unit("C21", "stream valid and ready watchers", quick=[dict(cls=c, which=w) for c in (StreamMonitor, StreamSink) for w in ("valid", "ready")], samples=10, forever=True)
def _(ctx, cls, which):
    o, q, ev, log = endpoint(ctx, cls)
    g = ctx.ghost
    g.edges = 0
    n = [0]

    def edge(sig):
        ctx.prove(sig is o.fields[which], "the %s signal is watched" % which)

        def go():
            ctx.prove(Implies(g.edges > 0, ev["wake"].state == 1), "a rising edge wakes the process")
            n[0] += 1
            if ctx.mode == "conc" and n[0] > 5:
                raise PathEnd("end of the run")
            ev["wake"].put(0)
            g.edges = 1
        return Aw(go)
    ctx.handlers[RisingEdge] = edge
    ctx.focus = True
    ctx.hints = lambda: {"wakes": Implies(g.edges > 0, ev["wake"].state == 1)}
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run_%s_monitor" % which), [], {}))


@unit("C21", "stream monitor wait", quick=[dict(cls=c) for c in (StreamMonitor, StreamSink)], samples=20)
def _(ctx, cls):
    o, q, ev, log = endpoint(ctx, cls)
    g = ctx.ghost
    g.waited = 0
    G = q.G
    # what the process and recv() maintain
    ctx.assume(Implies(q.P > q.G, ev["act"].state == 1))

    def wait(e):
        ctx.prove(e is ev["act"], "waits for a transfer")
        g.waited = 1
        env_put(ctx, q)
        if ctx.mode == "conc" and q.P == q.G:
            q.setP(q.P+1)
        ctx.assume(q.P > q.G)
        e.put(1)
    ev["act"].on_wait = wait
    ev["act"].on_null = lambda: None
    e0 = q.P == q.G
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "wait"), [], {}))
    ctx.prove(Implies(Not(e0), g.waited == 0), "a non-empty queue does not wait")
    ctx.prove(q.G == G, "waiting takes nothing")


class Task(Contract):
    def __init__(self, what):
        self.what, self.killed = what, 0

    def kill(self):
        self.killed += 1


@unit(("C20", "C21", "C22"), "stream _handle_reset", quick=[dict(cls=c, valid=v, ready=r) for c in (StreamSource, StreamMonitor, StreamSink)
                                                          for v, r in ((1, 1), (1, 0), (0, 1))], samples=30)
def _(ctx, cls, valid, ready):
    o, sv, sr, bus = common(ctx, cls, valid, ready)
    q = Q(ctx, "q", Item)
    ev = {n: Ev(ctx, n) for n in ("deq", "idle", "act", "wake")}
    o.fields.update(queue=q, dequeue_event=ev["deq"], idle_event=ev["idle"], active_event=ev["act"], wake_event=ev["wake"])
    old = Task("old") if ctx.choice(2) else None
    o.fields["_run_cr"] = old
    started = []

    def start(c):
        t = Task(c)
        started.append(t)
        return t
    ctx.handlers[cocotb.start_soon] = start
    ran = []
    ctx.handlers[cls._run] = lambda self: ran.append(self) or "coro"
    G, P = q.G, q.P
    state = ctx.fresh_bool("state")
    E.call(ctx, getattr_(ctx, o, "_handle_reset"), [state], {})
    ctx.prove(And(q.G == G, q.P == P), "the queue is kept")
    if truth(ctx, state):
        ctx.cover("reset")
        if old:
            ctx.prove(old.killed == 1, "the process is stopped by the reset")
        ctx.prove(o.fields["_run_cr"] is None, "no process runs during reset")
        ctx.prove(not started, "nothing is started during reset")
        if cls is StreamSource and valid:
            ctx.prove(sv.nxt == 0, "valid is low during reset")
        if cls is StreamSink and ready:
            ctx.prove(sr.nxt == 0, "ready is low during reset")
    else:
        if old:
            ctx.prove(not started and old.killed == 0 and o.fields["_run_cr"] is old, "a running process is left alone")
        else:
            ctx.prove(len(started) == 1 and len(ran) == 1 and ran[0] is o, "one process is started after the reset")
            ctx.prove(o.fields["_run_cr"] is started[0], "the process is remembered")
