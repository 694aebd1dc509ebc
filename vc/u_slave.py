"""C07 to C10: AXI, AXI-Lite and APB slaves"""
from chan import *      # noqa
from unit import unit
from u_stream import STEPS
from u_axis import DataSig, lane
from cocotbext.axi import axi_slave, axil_slave, apb
from cocotbext.axi.axil_slave import AxiLiteSlaveWrite, AxiLiteSlaveRead
from cocotbext.axi.constants import AxiResp


class TargetError(Exception):
    pass


class Target(Contract):
    """the target: any memory-like object; accesses may take time and may fail"""

    def __init__(self, ctx, write=None, read=None, suspend=None):
        self.ctx, self.on_write, self.on_read, self.suspend = ctx, write, read, suspend

    def write(self, address, data):
        def go():
            fail = truth(self.ctx, self.ctx.fresh_bool("fail", 0.2))
            self.on_write(address, data, fail)
            if self.suspend:
                self.suspend()
            if fail:
                raise PyExc(TargetError("write failed"))
        return Aw(go)

    def read(self, address, length):
        def go():
            fail = truth(self.ctx, self.ctx.fresh_bool("fail", 0.2))
            r = self.on_read(address, length, fail)
            if self.suspend:
                self.suspend()
            if fail:
                raise PyExc(TargetError("read failed"))
            return r
        return Aw(go)


class Word:
    """the writes made for one word with byte strobes: `ghost` remembers which lanes were written.
    word() -> (base address, lane strobe, lane data)"""

    def __init__(self, ctx, lanes, word, ready):
        self.ctx, self.lanes, self.word, self.ready = ctx, lanes, word, ready
        self.reset()

    def reset(self):
        g = self.ctx.ghost
        for j in range(self.lanes):
            setattr(g, "wr%d" % j, 0)
        g.werr = 0

    def write(self, address, data, fail):
        ctx, g = self.ctx, self.ctx.ghost
        ctx.prove(self.ready(), "the target is only written for an accepted write")
        base, strb, dat = self.word()
        ctx.prove(isinstance(data, SSeq), "the target is given bytes")
        n = data.n
        ctx.prove(And(n >= 1, address >= base, address+n <= base+self.lanes), "only the addressed word is written")
        for j in range(self.lanes):
            ins = And(address <= base+j, base+j < address+n)
            if truth(ctx, ins):
                ctx.prove(strb(j) != 0, "only strobed bytes are written")
                ctx.prove(getattr(g, "wr%d" % j) == 0, "no byte is written twice")
                ctx.prove(data.at(base+j-address) == dat(j), "every byte is written to the address of its lane")
                setattr(g, "wr%d" % j, 1)
        if fail:
            g.werr = 1

    def complete(self):
        """everything strobed was written, unless an access failed"""
        base, strb, dat = self.word()
        c = True
        for j in range(self.lanes):
            c = And(c, (getattr(self.ctx.ghost, "wr%d" % j) != 0) == (strb(j) != 0) if self.ctx.mode == "conc" else
                    Iff(getattr(self.ctx.ghost, "wr%d" % j) != 0, strb(j) != 0))
        return Or(self.ctx.ghost.werr != 0, c)


def counted(ctx, limit):
    st = dict(n=0)

    def step():
        st["n"] += 1
        if ctx.mode == "conc" and st["n"] > limit:
            raise PathEnd("end of the run")
    return step


@unit("C09", "AxiLiteSlaveWrite._process_write", quick=[dict(lanes=l, strb=1) for l in (1, 2, 4)]+[dict(lanes=2, strb=0)],
      thorough=[dict(lanes=l, strb=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, forever=True, covers=("answered", "failed"))
def _(ctx, lanes, strb):
    o = ctx.new_obj(AxiLiteSlaveWrite)
    g = ctx.ghost
    step = counted(ctx, 3*STEPS)
    g.has_a = g.has_w = g.n = 0

    def on_a(k):
        ctx.prove(g.has_a == 0, "a write is only accepted when the one before is answered")
        g.has_a = 1

    def on_w(k):
        ctx.prove(g.has_w == 0, "data are only accepted when the write before is answered")
        g.has_w = 1
    aw = Rx(ctx, "aw", dict(awaddr=32, awprot=3), step, on_a)
    w = Rx(ctx, "w", dict(wdata=("data", lanes, 8), wstrb=("data", lanes, 1) if strb else 0), step, on_w)

    def word():
        k = g.n
        a = aw.get("awaddr", k)
        return a-mod(a, lanes), lambda j: w.lane("wstrb", k, j) if strb else 1, lambda j: w.lane("wdata", k, j)
    W = Word(ctx, lanes, word, lambda: And(g.has_a == 1, g.has_w == 1))

    def on_send(v):
        ctx.prove(And(g.has_a == 1, g.has_w == 1), "a response belongs to an accepted write")
        ctx.prove(W.complete(), "every strobed byte was written before the response")
        ctx.prove(v["bresp"] == ite(g.werr != 0, int(AxiResp.SLVERR), int(AxiResp.OKAY)), "the response reports a failed write, and only that")
        ctx.cover("answered")
        if truth(ctx, g.werr != 0):
            ctx.cover("failed")
        g.has_a = g.has_w = 0
        g.n = g.n+1
        W.reset()
    b = Tx(ctx, "b", dict(bresp=2), step, on_send)
    o.fields.update(bus=Bag(), log=Log(), aw_channel=aw, w_channel=w, b_channel=b, target=Target(ctx, W.write, None, step), address_width=32, width=8*lanes,
                    byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, wstrb_present=bool(strb))

    def hints():
        d = {"accepted": And(aw.G == g.n+g.has_a, w.G == g.n+g.has_w), "none": And(g.has_a == 0, g.has_w == 0), "flags": And(*[getattr(g, "wr%d" % j) == 0 for j in range(lanes)]),
             "noerr": g.werr == 0}
        return d
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has_a", "G:has_w", "G:n", "G:werr", "G:aw_G", "G:w_G")
    ctx.focus = lambda n: n in names
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write"), [], {}))


@unit("C09", "AxiLiteSlaveRead._process_read", quick=[dict(lanes=l) for l in (1, 2, 4, 8)],
      thorough=[dict(lanes=l) for l in (1, 2, 4, 8, 16)], samples=40, forever=True, covers=("answered", "failed"))
def _(ctx, lanes):
    o = ctx.new_obj(AxiLiteSlaveRead)
    g = ctx.ghost
    step = counted(ctx, 3*STEPS)
    g.has = g.n = g.reads = g.err = 0
    bytes_ = TargetBytes(ctx)

    def on_a(k):
        ctx.prove(g.has == 0, "a read is only accepted when the one before is answered")
        g.has = 1
    ar = Rx(ctx, "ar", dict(araddr=32, arprot=3), step, on_a)

    def base():
        a = ar.get("araddr", g.n)
        return a-mod(a, lanes)

    def read(address, length, fail):
        ctx.prove(g.has == 1, "the target is only read for an accepted read")
        ctx.prove(And(address == base(), length == lanes), "the addressed word is read")
        ctx.prove(g.reads == 0, "the target is read once for each access")
        g.reads = 1
        g.err = 1 if fail else g.err
        return bytes_.seq(g.n, lanes)

    def on_send(v):
        ctx.prove(And(g.has == 1, g.reads == 1), "a response belongs to an accepted read")
        ctx.prove(v["rresp"] == ite(g.err != 0, int(AxiResp.SLVERR), int(AxiResp.OKAY)), "the response reports a failed read, and only that")
        for j in range(lanes):
            ctx.prove(Implies(g.err == 0, lane(v["rdata"], 8, j) == bytes_.at(g.n, j)), "the addressed word is returned")
        ctx.cover("answered")
        if truth(ctx, g.err != 0):
            ctx.cover("failed")
        g.has = g.reads = g.err = 0
        g.n = g.n+1
    r = Tx(ctx, "r", dict(rresp=2, rdata=("data", lanes, 8)), step, on_send)
    o.fields.update(bus=Bag(), log=Log(), ar_channel=ar, r_channel=r, target=Target(ctx, None, read, step), address_width=32, width=8*lanes,
                    byte_size=8, byte_lanes=lanes)
    ctx.hints = lambda: {"accepted": ar.G == g.n+g.has, "none": And(g.has == 0, g.reads == 0, g.err == 0)}
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:n", "G:err", "G:reads", "G:ar_G")
    ctx.focus = lambda n: n in names
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_read"), [], {}))


class TargetBytes:
    """what the target returns: byte j of its k-th read"""

    def __init__(self, ctx):
        self.ctx, self.cache = ctx, {}
        if ctx.mode == "sym":
            I = z3.IntSort()
            self.F = z3.Function(ctx.fresh_name("target"), I, I, I)

    def at(self, k, j):
        if self.ctx.mode == "conc":
            if (k, j) not in self.cache:
                self.cache[k, j] = self.ctx.rng.getrandbits(8)
            return self.cache[k, j]
        e = self.F(zi(k), zi(j))
        self.ctx.axiom(z3.And(e >= 0, e <= 255))
        return SInt(e, bits=8)

    def seq(self, k, n):
        if isinstance(n, int):
            return SSeq("bytes", items=[self.at(k, j) for j in range(n)], elem_bits=8)
        return SSeq("bytes", n=n, f=lambda j: self.at(k, j), elem_bits=8)


# ---- AXI: bursts ------------------------------------------------------------------------------------------
FIXED, INCR, WRAP = 0, 1, 2


class Bursts:
    """the bursts presented to a slave: legal ones (what AXI4 allows a master to issue)"""

    def __init__(self, ctx, lanes, kind, p, step, on_recv, id_bits=4):
        self.ctx, self.lanes, self.p = ctx, lanes, p
        self.mx = (lanes-1).bit_length()
        self.kind = kind
        self.rx = Rx(ctx, p, {p+"id": id_bits, p+"addr": 32, p+"len": 8, p+"size": 3, p+"burst": 2, p+"prot": 3, p+"lock": 1, p+"cache": 4,
                              p+"qos": 4, p+"region": 4, p+"user": 4}, step, on_recv, gen=self.gen)

    def gen(self, k, d):
        r = self.ctx.rng
        p = self.p
        d[p+"size"] = s = r.randint(0, self.mx)
        d[p+"burst"] = b = r.choice(self.kind)
        nb = 1 << s
        if b == WRAP:
            d[p+"len"] = r.choice((1, 3, 7, 15))
            d[p+"addr"] -= d[p+"addr"] % nb
        elif b == FIXED:
            d[p+"len"] = r.randint(0, 15)
        else:
            n = r.randint(1, min(256, 4096 >> s)) if r.random() < 0.3 else r.randint(1, 6)
            a = r.randint(0, 4096//nb-n)*nb+r.randint(0, nb-1)
            d[p+"addr"] = (d[p+"addr"] & ~0xfff) | a
            d[p+"len"] = n-1

    def pick(self, k):
        """the sizes, types and wrap lengths are looked at case by case"""
        ctx, rx, p = self.ctx, self.rx, self.p
        if ctx.mode == "conc":
            return
        s = split(ctx, rx.get(p+"size", k), range(self.mx+1))
        b = split(ctx, rx.get(p+"burst", k), self.kind)
        ln, a = rx.get(p+"len", k), rx.get(p+"addr", k)
        nb = 1 << s
        if b == WRAP:
            ln = split(ctx, ln, (1, 3, 7, 15))
            ctx.assume(mod(a, nb) == 0)
        elif b == FIXED:
            ctx.assume(ln <= 15)
        else:
            ctx.assume(mod(a-mod(a, nb), 4096)+(ln+1)*nb <= 4096)
        self.now = (k, s, b, ln)

    def beat(self, k, n):
        """the address AXI assigns to beat n (aligned to the size, except for the first beat, which has the same lanes)"""
        rx, p = self.rx, self.p
        a, s, b, ln = (rx.get(p+x, k) for x in ("addr", "size", "burst", "len"))
        if self.ctx.mode == "sym":
            s, b, ln = self.val(k)
        nb = 1 << s
        al = a-mod(a, nb)
        if b == FIXED:
            return al
        if b == INCR:
            return al+n*nb
        ts = nb*(ln+1)
        low = a-mod(a, ts)
        return low+mod(al-low+n*nb, ts)

    def val(self, k):
        """the case under consideration"""
        kk, s, b, ln = self.now
        return s, b, ln

    def word(self, k, n):
        a = self.beat(k, n)
        return a-mod(a, self.lanes)


def split(ctx, x, cases):
    cases = list(cases)
    for c in cases[:-1]:
        if truth(ctx, x == c):
            return c
    ctx.assume(x == cases[-1])
    return cases[-1]


KINDS = {"incr": (INCR,), "fixed": (FIXED,), "wrap": (WRAP,), "all": (FIXED, INCR, WRAP)}


@unit("C07", "AxiSlaveWrite._process_write", quick=[dict(lanes=l, strb=1) for l in (1, 2, 4)]+[dict(lanes=2, strb=0)],
      thorough=[dict(lanes=l, strb=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, forever=True, covers=("answered", "failed"), budget=400)
def _(ctx, lanes, strb):
    o = ctx.new_obj(axi_slave.AxiSlaveWrite)
    g = ctx.ghost
    step = counted(ctx, 20*STEPS)
    g.has = g.n = g.beat = g.got = g.w0 = g.fail = 0

    def on_a(k):
        ctx.prove(g.has == 0, "a burst is only accepted when the one before is answered")
        B.pick(k)
        g.has = 1
        g.beat = g.got = g.fail = 0

    def length():
        return B.rx.get("awlen", g.n)+1

    def on_w(k):
        ctx.prove(Implies(g.got > 0, W.complete()), "every strobed byte of a beat was written before the next beat")
        ctx.prove(And(g.has == 1, g.got < length()), "as many beats are taken as the burst has")
        g.fail = ite(g.werr != 0, 1, g.fail)
        g.got = g.got+1
        W.reset()
    B = Bursts(ctx, lanes, KINDS["all"], "aw", step, on_a)

    def wgen(k, d):
        d["wlast"] = int(g.got == length())
    w = Rx(ctx, "w", dict(wdata=("data", lanes, 8), wstrb=("data", lanes, 1) if strb else 0, wlast=1, wuser=4), step, on_w, gen=wgen,
           axioms=lambda n, k, e: ctx.assume(Iff(SInt(e) != 0, g.got == length())) if n == "wlast" else None)

    def word():
        k = w.G-1
        return B.word(g.n, g.got-1), lambda j: w.lane("wstrb", k, j) if strb else 1, lambda j: w.lane("wdata", k, j)
    W = Word(ctx, lanes, word, lambda: And(g.has == 1, g.got >= 1))

    def on_send(v):
        ctx.prove(And(g.has == 1, g.got == length()), "the response follows the last beat of an accepted burst")
        ctx.prove(W.complete(), "every strobed byte was written before the response")
        f = Or(g.werr != 0, g.fail != 0)
        ctx.prove(v["bid"] == B.rx.get("awid", g.n), "the response has the burst's ID")
        ctx.prove(v["bresp"] == ite(f, int(AxiResp.SLVERR), int(AxiResp.OKAY)), "the response reports a failed write, and only that")
        ctx.cover("answered")
        if truth(ctx, f):
            ctx.cover("failed")
        g.has = g.got = g.fail = 0
        g.n = g.n+1
        W.reset()
    b = Tx(ctx, "b", dict(bresp=2, bid=4, buser=4), step, on_send)
    o.fields.update(bus=Bag(), log=Log(), aw_channel=B.rx, w_channel=w, b_channel=b, target=Target(ctx, W.write, None, step), address_width=32, width=8*lanes,
                    id_width=4, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, wstrb_present=bool(strb), max_burst_size=B.mx)

    def hints():
        d = {"accepted": And(B.rx.G == g.n+g.has), "none": And(g.has == 0, g.got == 0), "one": And(g.has == 1, g.got >= 0, g.got <= length()),
             "start": And(*[getattr(g, "wr%d" % j) == 0 for j in range(lanes)], g.werr == 0, g.fail == 0),
             "done": Or(g.got == 0, W.complete()) if hasattr(B, "now") else True,
             "err": And(Or(g.fail == 0, g.fail == 1), Or(g.werr == 0, g.werr == 1)),
             "bresp": getattr(g, "b.bresp") == ite(Or(g.werr != 0, g.fail != 0), 2, 0),
             "b": And(getattr(g, "b.bid") == B.rx.get("awid", g.n), g.b_sent == 0)}
        return d
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:got", "G:n", "G:aw_G", "G:b_id", "beat")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "it."))
    ctx.extra_pool["beat"] = lambda t: B.beat(g.n, g.got) if hasattr(B, "now") or ctx.mode == "conc" and g.has else 0
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write"), [], {}))


@unit("C08", "AxiSlaveRead._process_read", quick=[dict(lanes=l) for l in (1, 2, 4, 8)],
      thorough=[dict(lanes=l) for l in (1, 2, 4, 8, 16)], samples=40, forever=True, covers=("answered", "failed"), budget=400)
def _(ctx, lanes):
    o = ctx.new_obj(axi_slave.AxiSlaveRead)
    g = ctx.ghost
    step = counted(ctx, 20*STEPS)
    # has: a burst is in progress, its number n; got: beats answered; rd: reads made in all; base: address of the last read
    g.has = g.n = g.got = g.err = g.rd = g.reads = g.base = g.len = 0
    bytes_ = TargetBytes(ctx)

    def on_a(k):
        ctx.prove(answered(), "a burst is only accepted when the one before is answered")
        B.pick(k)
        g.has = 1
        g.n = k
        g.got = 0
    B = Bursts(ctx, lanes, KINDS["all"], "ar", step, on_a)

    def length():
        return B.rx.get("arlen", g.n)+1

    def answered():
        return Or(g.has == 0, g.got == length())

    def read(address, n, fail):
        ctx.prove(And(g.has == 1, g.got < length()), "the target is only read for an accepted burst")
        a = B.word(g.n, g.got)
        ctx.prove(And(address >= a, n >= 1, address+n <= a+lanes), "only the addressed word is read")
        ctx.prove(g.reads == 0, "the target is read once for each beat")
        g.reads = 1
        g.base, g.len = address, n
        g.err = 1 if fail else g.err
        g.rd = g.rd+1
        return bytes_.seq(g.rd, n)

    def on_send(v):
        ctx.prove(And(g.has == 1, g.reads == 1, g.got < length()), "every beat belongs to an accepted burst")
        ctx.prove(v["rid"] == B.rx.get("arid", g.n), "every beat has the burst's ID")
        ctx.prove(v["rlast"] == ite(g.got == length()-1, 1, 0), "last is flagged exactly on the final beat")
        ctx.prove(v["rresp"] == ite(g.err != 0, int(AxiResp.SLVERR), int(AxiResp.OKAY)), "the response reports a failed read, and only that")
        a, w = B.beat(g.n, g.got), B.word(g.n, g.got)
        nb = 1 << B.val(g.n)[0] if ctx.mode == "sym" else 1 << B.rx.get("arsize", g.n)
        for j in range(lanes):
            x = w+j
            need = And(g.err == 0, x >= a, x < a+nb)
            ctx.prove(Implies(need, And(g.base <= x, x < g.base+g.len)), "the addressed container is read")
            ctx.prove(Implies(need, lane(v["rdata"], 8, j) == bytes_.at(g.rd, x-g.base)), "the bytes of the addressed container are returned on their lanes")
        ctx.cover("answered")
        if truth(ctx, g.err != 0):
            ctx.cover("failed")
        g.reads = g.err = 0
        g.got = g.got+1
    r = Tx(ctx, "r", dict(rresp=2, rid=4, rlast=1, ruser=4, rdata=("data", lanes, 8)), step, on_send)
    o.fields.update(bus=Bag(), log=Log(), ar_channel=B.rx, r_channel=r, target=Target(ctx, None, read, step), address_width=32, width=8*lanes,
                    id_width=4, byte_size=8, byte_lanes=lanes, max_burst_size=B.mx)

    def hints():
        return {"accepted": And(Implies(g.has != 0, B.rx.G == g.n+1), Implies(g.has == 0, B.rx.G == 0)), "answered": answered(),
                "one": And(g.has == 1, g.got >= 0, g.got <= length()), "start": And(g.reads == 0, g.err == 0)}
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:got", "G:n", "G:ar_G", "beat")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "it."))
    ctx.extra_pool["beat"] = lambda t: B.beat(g.n, g.got) if hasattr(B, "now") or ctx.mode == "conc" and g.has else 0
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_read"), [], {}))


# ---- APB --------------------------------------------------------------------------------------------------


@unit("C10", "ApbSlave._run", quick=[dict(lanes=l, opt=1) for l in (1, 2, 4)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, forever=True, covers=("write", "read", "failed", "paused"), budget=400)
def _(ctx, lanes, opt):
    from cocotb.triggers import RisingEdge
    from u_apb import Phased, PhasedData
    o = ctx.new_obj(apb.ApbSlave)
    g = ctx.ghost
    step = counted(ctx, 6*STEPS)
    I = z3.IntSort()
    fs = ("paddr", "pwrite", "pprot")
    # the transfers the master makes, numbered, as if they came over a channel
    T = Rx(ctx, "t", dict(paddr=32, pwrite=1, pprot=3, pwdata=("data", lanes, 8), pstrb=("data", lanes, 1)))
    S = {n: Phased(ctx, n, wd, init=0) for n, wd in (("paddr", 32), ("psel", 1), ("penable", 1), ("pwrite", 1))}
    S["pwdata"] = PhasedData(ctx, "pwdata", lanes, 8)
    if opt:
        S["pprot"] = Phased(ctx, "pprot", 3, init=0)
        S["pstrb"] = PhasedData(ctx, "pstrb", lanes, 1)
        S["pslverr"] = Sig(ctx, "pslverr", 1, init=0)
    S["pready"] = Sig(ctx, "pready", 1, init=0)
    S["prdata"] = DataSig(ctx, "prdata", lanes, 8)
    outs = [n for n in ("pready", "prdata", "pslverr") if n in S]
    # ph: phase of the cycle that ended at the last clock edge (0 none, 1 setup, 2 access); n: transfer in progress or next one;
    # fin: it completed at that edge; seen: the process looked at that edge; rd/base/len: the target read made for it
    g.ph = g.n = g.fin = g.p0 = 0
    g.acted = g.rd = g.reads = g.base = g.len = g.werr = 0
    bytes_ = TargetBytes(ctx)

    def under_way():
        return Or(g.ph == 1, And(g.ph == 2, g.fin == 0))

    def word():
        a = T.get("paddr", g.n)
        return a-mod(a, lanes), lambda j: T.lane("pstrb", g.n, j) if opt else 1, lambda j: T.lane("pwdata", g.n, j)
    W = Word(ctx, lanes, word, lambda: And(under_way(), S["pready"].nxt == 0, T.get("pwrite", g.n) != 0))

    def read(address, n, fail):
        a = word()[0]
        ctx.prove(And(under_way(), S["pready"].nxt == 0, T.get("pwrite", g.n) == 0), "the target is only read for a read transfer that is not answered yet")
        ctx.prove(And(address >= a, n >= 1, address+n <= a+lanes), "only the addressed word is read")
        ctx.prove(g.reads == 0, "the target is read once for each transfer")
        g.reads = 1
        g.base, g.len = address, n
        g.werr = 1 if fail else g.werr
        g.rd = g.rd+1
        return bytes_.seq(g.rd, n)

    def done():
        """the effect of the transfer in progress"""
        wr = T.get("pwrite", g.n) != 0
        a = word()[0]
        c = And(g.reads == 1, *[Or(g.werr != 0, And(g.base <= a+j, a+j < g.base+g.len, lane(S["prdata"].nxt, 8, j) == bytes_.at(g.rd, a+j-g.base))) for j in range(lanes)])
        return Or(And(wr, W.complete(), g.reads == 0), And(Not(wr), c))

    def spec():
        r = S["pready"].nxt
        d = {"ready is only raised for a transfer in progress, whose access phase is next": Implies(r != 0, under_way()),
             "ready": And(r >= 0, r <= 1),
             "ready is raised when the transfer took effect": Implies(r != 0, done()),
             "a transfer that is not held back by a pause is answered": Implies(And(under_way(), g.p0 == 0), r != 0)}
        if opt:
            d["an error is reported with ready exactly when an access failed"] = Implies(r != 0, S["pslverr"].nxt == ite(g.werr != 0, 1, 0))
        return d

    def drive():
        k = g.n
        for n in fs:
            if n in S:
                S[n].drive(T.get(n, k))
        for n in ("pwdata", "pstrb"):
            if n in S:
                S[n].drive(T.get(n, k))

    def edge(sig):
        ctx.prove(sig is o.fields["clock"], "the process runs on its clock")

        def go():
            ctx.prove_all(spec)
            step()
            for n in outs:
                S[n].commit()
            if truth(ctx, g.fin != 0):
                g.n = g.n+1
                g.reads = 0
                W.reset()
            more = toint(ctx.fresh_bool("more", 0.6))
            g.ph = ite(under_way(), 2, ite(more != 0, 1, 0))
            S["psel"].drive(ite(g.ph != 0, 1, 0))
            S["penable"].drive(ite(g.ph == 2, 1, 0))
            drive()
            g.fin = ite(And(g.ph == 2, S["pready"].cur != 0), 1, 0)
            if truth(ctx, g.fin != 0):
                ctx.cover("write" if truth(ctx, T.get("pwrite", g.n) != 0) else "read")
                if truth(ctx, g.werr != 0):
                    ctx.cover("failed")
            E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.2))
            g.p0 = toint(o.fields["_pause"])
            if truth(ctx, And(g.p0 != 0, g.ph == 1)):
                ctx.cover("paused")
        return Aw(go)
    ctx.handlers[RisingEdge] = edge

    def slow():
        """an access takes time: clock edges pass meanwhile"""
        if ctx.choice(2):
            step()
            ctx.prove(S["pready"].nxt == 0, "ready is low until the transfer took effect")
            for n in outs:
                S[n].commit()
            g.ph = ite(g.ph == 1, 2, g.ph)
            S["penable"].drive(ite(g.ph == 2, 1, 0))
            E.setattr_(ctx, o, "_pause", ctx.fresh_bool("pause", 0.2))
    for n in ("paddr", "pwrite", "pprot", "pwdata", "pstrb"):
        if n in S:
            S[n].when = lambda: g.ph != 0
    bus = Bag(**S)
    o.fields.update(bus=bus, clock=Clock(), log=Log(), target=Target(ctx, W.write, read, slow), address_width=32, width=8*lanes, byte_size=8,
                    byte_lanes=lanes, strb_mask=2**lanes-1, pprot_present=bool(opt), pstrb_present=bool(opt), pslverr_present=bool(opt),
                    _pause=ctx.fresh_bool("pause", 0.2))

    def hints():
        d = spec()
        d["phase"] = And(Or(g.ph == 0, g.ph == 1, g.ph == 2), Iff(S["psel"].cur != 0, g.ph != 0), Iff(S["penable"].cur != 0, g.ph == 2), g.fin == ite(And(g.ph == 2, S["pready"].cur != 0), 1, 0))
        d["free"] = And(Not(under_way()), S["pready"].nxt == 0)
        d["seen"] = And(under_way(), S["pready"].nxt == 0, S["psel"].cur != 0)
        d["untouched"] = And(g.reads == 0, g.werr == 0, *[getattr(g, "wr%d" % j) == 0 for j in range(lanes)])
        d["fresh"] = Implies(g.fin == 0, And(g.reads == 0, g.werr == 0, *[getattr(g, "wr%d" % j) == 0 for j in range(lanes)]))
        d["pause"] = g.p0 == toint(o.fields["_pause"])
        d["transfer"] = Implies(g.ph != 0, And(*[S[n].cur == T.get(n, g.n) for n in fs if n in S],
                                               *[lane(S[n].cur, S[n].g, j) == T.lane(n, g.n, j) for n in ("pwdata", "pstrb") if n in S for j in range(lanes)]))
        return d
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:ph", "G:n", "G:fin", "G:p0", "G:reads", "G:werr", "G:pready", "G:pready_n", "G:psel")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "it."))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run"), [], {}))
