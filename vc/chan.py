"""contracts of the channel endpoints, as the masters and slaves use them:
  * a sink's recv() returns the received transfers, numbered, each once and in order; it may suspend
  * a source's send() takes a transfer object, whose fields are not changed any more after that; it may suspend
(what the endpoints themselves do is covered by C20 and C21)"""
from bus import *       # noqa
import engine as E


CLASSES = {}        # one class per channel, the same in every run of a unit


def txn_class(ctx, base, ch, fields):
    if not hasattr(ctx, "chans"):
        ctx.chans = {}
    ctx.chans[ch.name] = ch
    key = (base, ch.name, tuple(fields))
    if key not in CLASSES:
        ns = {n: property(lambda s, n=n: s.ch.read(n, s.k)) for n in fields}
        ns["ch"] = property(lambda s, n=ch.name: CTX[0].chans[n])
        CLASSES[key] = type(base.__name__+"_"+ch.name, (base,), ns)
    return CLASSES[key]


class RxBase(Contract):

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return type(self)

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def truth(self):
        return True


class Rx(Contract):
    """a sink; fields: name -> bits or ("data", lanes, bits).  on_recv(k) is called when transfer k is taken, `suspend`
    before (other tasks run meanwhile)"""

    def __init__(self, ctx, name, fields, suspend=None, on_recv=None, gen=None, check=None, axioms=None):
        self.ctx, self.name, self.fields_, self.suspend, self.on_recv, self.gen, self.check = ctx, name, fields, suspend, on_recv, gen, check
        self.axioms = axioms
        self.cache = {}
        self.lim = None
        setattr(ctx.ghost, name+"_G", 0)
        self.cls = txn_class(ctx, RxBase, self, fields)
        if ctx.mode == "sym":
            I = z3.IntSort()
            self.F = {n: z3.Function(ctx.fresh_name(name+"."+n), I, I) if isinstance(b, int) else z3.Function(ctx.fresh_name(name+"."+n), I, I, I)
                      for n, b in fields.items()}

    @property
    def G(self):
        return getattr(self.ctx.ghost, self.name+"_G")

    def rec(self, k):
        if k not in self.cache:
            r = self.ctx.rng
            d = {n: r.getrandbits(b) if isinstance(b, int) else r.getrandbits(b[1]*b[2]) for n, b in self.fields_.items()}
            if self.gen:
                self.gen(k, d)
            self.cache[k] = d
        return self.cache[k]

    def read(self, n, k):
        if self.check:
            self.check(n, k)
        return self.get(n, k)

    def get(self, n, k):
        if self.ctx.mode == "conc":
            return self.rec(k)[n]
        b = self.fields_[n]
        if isinstance(b, int):
            e = self.F[n](zi(k))
            self.ctx.axiom(z3.And(e >= 0, e < 1 << b))
            if self.axioms:
                self.axioms(n, k, e)
            return SInt(e, bits=b)
        return Wide(b[2], b[1], lambda j: self.lane(n, k, j))

    def lane(self, n, k, j):
        b = self.fields_[n]
        if self.ctx.mode == "conc":
            return self.rec(k)[n] >> (b[2]*j) & ((1 << b[2])-1)
        e = self.F[n](zi(k), zi(j))
        self.ctx.axiom(z3.And(e >= 0, e < 1 << b[2]))
        if not isinstance(j, int):
            return ite(And(j >= 0, j < b[1]), SInt(e, bits=b[2]), 0)
        return SInt(e, bits=b[2]) if j < b[1] else 0

    def recv(self):
        def go():
            if self.suspend:
                self.suspend()
            k = self.G
            if self.on_recv:
                self.on_recv(k)
            setattr(self.ctx.ghost, self.name+"_G", k+1)
            return self.cls(k)
        return Aw(go)


class TxBase(Contract):

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return type(self)

    def vargs(self):
        return (self.k,)

    def truth(self):
        return True

    def setattr(self, n, v):
        self.ch.setfield(self.k, n, v)


class Tx(Contract):
    """a source; on_send(values) is called with the fields of the transfer when it is sent"""

    def __init__(self, ctx, name, fields, suspend=None, on_send=None):
        self.ctx, self.name, self.fields_, self.suspend, self.on_send = ctx, name, fields, suspend, on_send
        self.cls = txn_class(ctx, TxBase, self, fields)
        self.sig = {}
        from u_axis import DataSig
        setattr(ctx.ghost, name+"_id", 0)
        setattr(ctx.ghost, name+"_sent", 1)
        for n, b in fields.items():
            if isinstance(b, int):
                setattr(ctx.ghost, name+"."+n, 0)
            else:
                self.sig[n] = DataSig(ctx, name+"."+n, b[1], b[2])

    def live(self, k, what):
        g = self.ctx.ghost
        self.ctx.prove(And(k == getattr(g, self.name+"_id"), getattr(g, self.name+"_sent") == 0), what)

    def read(self, n, k):
        self.live(k, "a transfer is only used until it is sent (%s)" % self.name)
        if n in self.sig:
            return self.sig[n].nxt
        return getattr(self.ctx.ghost, self.name+"."+n)

    def setfield(self, k, n, v):
        if n not in self.fields_:
            return                  # fields that are not signals of the bus are not sent
        self.live(k, "a transfer is not changed after it was sent (%s)" % self.name)
        if n in self.sig:
            self.sig[n].value = v
            return
        v = toint(v)
        self.ctx.prove(And(v >= 0, v < (1 << self.fields_[n])), "value fits the field %s" % n)
        setattr(self.ctx.ghost, self.name+"."+n, v)

    def make(self, kw):
        g = self.ctx.ghost
        k = getattr(g, self.name+"_id")+1
        setattr(g, self.name+"_id", k)
        setattr(g, self.name+"_sent", 0)
        for n in self.fields_:
            if n in self.sig:
                self.sig[n].value = kw.get(n, 0)
            else:
                v = toint(kw.get(n, 0))
                setattr(g, self.name+"."+n, v)
        return self.cls(k)

    def _transaction_obj(self, *a, **kw):
        return self.make(kw)

    def values(self):
        g = self.ctx.ghost
        return {n: self.sig[n].nxt if n in self.sig else getattr(g, self.name+"."+n) for n in self.fields_}

    def send(self, t):
        def go():
            ctx = self.ctx
            ctx.prove(isinstance(t, self.cls), "the transfer is one of channel %s" % self.name)
            self.live(t.k, "a transfer is sent once (%s)" % self.name)
            setattr(ctx.ghost, self.name+"_sent", 1)
            if self.on_send:
                self.on_send(self.values())
            if self.suspend:
                self.suspend()
        return Aw(go)
