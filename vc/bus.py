"""contracts of cocotb the bus processes are verified against: signals, clock edges, events, queues.

All of their state lives in ghost variables, so that the loop rule sees every change.
  * a signal has the value visible now and the value scheduled by this process; a scheduled value becomes visible at
    the next suspension (cocotb applies writes in the ReadWrite phase of the same time step)
  * code between two awaits is atomic; at every await other tasks may run (the unit says what they may change)"""
from engine import *        # noqa
import engine as E
from contracts import *     # noqa


class Sig(Contract):
    """a handle of a bus signal"""

    def __init__(self, ctx, name, width=1, init=None, checked=True):
        self.ctx, self.name, self.width, self.checked = ctx, name, width, checked
        self.reg(name, init)

    def reg(self, name, init):
        g = self.ctx.ghost
        v = init if init is not None else self.fresh("init")
        setattr(g, name, v)
        setattr(g, name+"_n", v)

    def fresh(self, what="v"):
        if isinstance(self.width, int) and self.width <= 64:
            return self.ctx.fresh_int(self.name+"_"+what, 0, (1 << self.width)-1, sample=lambda r: r.getrandbits(self.width))
        return self.ctx.fresh_int(self.name+"_"+what, 0)

    @property
    def value(self):
        return getattr(self.ctx.ghost, self.name)

    @value.setter
    def value(self, v):
        v = toint(v)
        if self.checked and isinstance(v, (int, SInt)) and isinstance(self.width, int):
            self.ctx.prove(And(v >= 0, v < (1 << self.width)), "value fits the signal %s" % self.name)
        setattr(self.ctx.ghost, self.name+"_n", v)

    def setimmediatevalue(self, v):
        setattr(self.ctx.ghost, self.name, toint(v))
        setattr(self.ctx.ghost, self.name+"_n", toint(v))

    def length(self):
        return self.width

    # used by the units
    @property
    def cur(self):
        return getattr(self.ctx.ghost, self.name)

    @property
    def nxt(self):
        return getattr(self.ctx.ghost, self.name+"_n")

    def commit(self):
        setattr(self.ctx.ghost, self.name, self.nxt)

    def drive(self, v):
        """another component's doing"""
        setattr(self.ctx.ghost, self.name, v)
        setattr(self.ctx.ghost, self.name+"_n", v)


class Ev(Contract):
    """cocotb Event: set/clear/is_set and wait, which may only be relied on to return once the event was set"""

    def __init__(self, ctx, name, init=None, wait=None, on_set=None, null=None):
        self.ctx, self.name, self.on_wait, self.on_set, self.on_null = ctx, name, wait, on_set, null
        setattr(ctx.ghost, "ev_"+name, toint(ctx.fresh_bool("ev_"+name)) if init is None else init)

    @property
    def state(self):
        return getattr(self.ctx.ghost, "ev_"+self.name)

    def put(self, v):
        setattr(self.ctx.ghost, "ev_"+self.name, v)

    def set(self, data=None):
        if self.on_set:
            self.on_set()
        self.put(1)

    def clear(self):
        self.put(0)

    def is_set(self):
        return self.state != 0

    def wait(self):
        return Trig(self.ctx, self.name, self)

    def await_(self):
        if self.on_wait is None:
            raise Unsupported("wait for event %s" % self.name)
        return self.on_wait(self)


class Trig(Contract):
    """what Event.wait() returns: a trigger, or one that is done already if the event was set then"""

    def __init__(self, ctx, name, ev):
        self.ctx, self.name, self.ev = ctx, name, ev
        self.done = truth(ctx, ev.state != 0)

    def await_(self):
        if self.done:
            return self.ev.on_null()
        # a trigger made before the event was set does not notice that it is set already
        self.ctx.prove(self.ev.state == 0, "no process waits for event %s with an old trigger while it is set" % self.name)
        return self.ev.await_()


class Log(Contract):
    """logging has no effect on the properties"""

    def info(self, *a, **k):
        pass
    debug = warning = error = critical = info

    def isEnabledFor(self, level):
        return False


class Bag(Contract):
    """attribute container; attributes that were not given are absent (like optional bus signals)"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Q(Contract):
    """cocotb Queue without size limit: items are numbered by their put; G got so far, P put so far"""

    def __init__(self, ctx, name, item=None, put=None, get=None, wait=None):
        self.ctx, self.name, self.item, self.on_put, self.on_get, self.on_wait = ctx, name, item, put, get, wait
        g = ctx.ghost
        G = ctx.fresh_int(name+"_G", 0, 3)
        n = ctx.fresh_int(name+"_N", 0, sample=lambda r: r.randint(0, 3))
        setattr(g, name+"_G", G)
        setattr(g, name+"_P", G+n)

    @property
    def G(self):
        return getattr(self.ctx.ghost, self.name+"_G")

    @property
    def P(self):
        return getattr(self.ctx.ghost, self.name+"_P")

    def setG(self, v):
        setattr(self.ctx.ghost, self.name+"_G", v)

    def setP(self, v):
        setattr(self.ctx.ghost, self.name+"_P", v)

    def empty(self):
        return self.P == self.G

    def qsize(self):
        return self.P-self.G

    def full(self):
        return False

    def get_nowait(self):
        import asyncio      # noqa
        from cocotb.queue import QueueEmpty
        ctx = self.ctx
        if truth(ctx, self.P == self.G):
            raise PyExc(QueueEmpty())
        k = self.G
        self.setG(k+1)
        if self.on_get:
            self.on_get(k)
        return self.item(k)

    def get(self):
        def go():
            if truth(self.ctx, self.P == self.G):
                if self.on_wait is None:
                    raise Unsupported("wait on queue %s" % self.name)
                self.on_wait(self)
                self.ctx.assume(self.P > self.G)
            return self.get_nowait()
        return Aw(go)

    def put_nowait(self, x):
        k = self.P
        self.setP(k+1)
        if self.on_put:
            self.on_put(k, x)

    def put(self, x):
        return Aw(lambda: self.put_nowait(x))

    def _queue_len(self):
        return self.P-self.G


class Clock(Contract):
    pass


def env_put(ctx, q, mx=2):
    """other tasks queue more items"""
    q.setP(q.P+ctx.fresh_int(q.name+"_more", 0, None if ctx.mode == "sym" else mx))


def env_bool(ctx, p=0.5, name="b"):
    return toint(ctx.fresh_bool(name, p))
