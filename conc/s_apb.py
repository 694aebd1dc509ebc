"""native cross-check of the APB master, slave and RAM on the kernel stand-in with the real cocotb"""
import functools
from busmodel import BusSim, P, strobed, val
from s_axi import MasterRun
from s_axislave import Target
from suite import suite


def apb_widths(rng):
    lanes = rng.choice([1, 2, 4, 4, 8])
    a = rng.choice([8, 12, 13, 16, 32, 48, 64])
    w = dict(paddr=a, psel=1, penable=1, pwrite=1, pwdata=8*lanes, pstrb=lanes, pready=1, prdata=8*lanes)
    if rng.random() < 0.6:
        w["pprot"] = 3
    if rng.random() < 0.7:
        w["pslverr"] = 1
    return w, lanes, a


class ApbMasterRun(MasterRun):
    def __init__(self, prop, rng, resets):
        p = self.p = P(prop)
        self.prop, self.rng, self.lite, self.resets = prop, rng, True, resets
        b = self.b = BusSim(p, rng)
        self.bw, self.L, self.A = apb_widths(rng)
        self.w = dict(awprot=3, arprot=3) if "pprot" in self.bw else {}
        b.add("p", self.bw, ["pready", "prdata", "pslverr"])
        self.pre = rng.choice([0.2, 0.5, 1.0])
        self.perr = rng.choice([0, 0.1, 0.5])
        self.ops = dict(w=[], r=[])
        self.epoch_ops = dict(w=[], r=[])
        self.seq = []
        self.log = []
        self.state = None           # payload of the transfer in progress
        self.access = False
        self.was_paused = False
        self.after_reset = True

    def target(self, kind):
        return self.m

    def idles(self):
        return self.m.idle()

    def forget(self):
        self.epoch_ops = dict(w=[], r=[])
        self.seq = []
        self.log = []

    def check_idle(self, where):
        n = len(self.outstanding("w"))+len(self.outstanding("r"))
        self.p("C23 C22", bool(self.m.idle()) == (n == 0), where, "idle", self.m.idle(), "outstanding", n)

    def model(self, in_reset):
        b, rng, p = self.b, self.rng, self.p
        s = {n: val(b.sig(n)) for n in self.bw}
        out = ["paddr", "pwrite", "pwdata", "pstrb"]+(["pprot"] if "pprot" in self.bw else [])
        if in_reset:
            if val(b.rst):
                p("C22", s["psel"] == 0 and s["penable"] == 0, "select or enable active in reset", s)
            self.state = None
            self.access = False
        else:
            done = False
            if self.state is None:
                p("C06", not s["penable"], "enable without setup phase", s)
                if s["psel"]:
                    p("C06 C20", not self.was_paused, "a transfer was started while paused")
                    self.state = {n: s[n] for n in out}
                    p("C06", all(x is not None for x in self.state.values()), "undefined payload", self.state)
            else:
                p("C06", s["psel"] == 1, "select dropped during a transfer", s)
                p("C06", s["penable"] == 1, "enable not active in the access phase", s)
                p("C06", self.state == {n: s[n] for n in out}, "payload changed during the transfer", self.state, s)
                if s["pready"] and s["penable"]:
                    done = True
            if done:
                self.log.append(dict(self.state, prdata=s["prdata"], err=s.get("pslverr", 0)))
                self.state = None
        self.was_paused = bool(self.m.pause)
        # drive
        if self.state is not None:
            r = rng.random() < self.pre
            b.sig("pready").value = int(r)
            rd = not self.state["pwrite"]
            if r and rd:
                b.sig("prdata").value = rng.getrandbits(8*self.L)
            else:
                self.junk("prdata")
            if "pslverr" in self.bw:
                if r:
                    b.sig("pslverr").value = int(rng.random() < self.perr)
                else:
                    self.junk("pslverr")
        else:
            b.sig("pready").value = rng.getrandbits(1)
            self.junk("prdata")
            if "pslverr" in self.bw:
                self.junk("pslverr")

    def junk(self, n):
        """a level that means nothing now: random or undefined"""
        s = self.b.sig(n)
        if self.rng.random() < 0.5:
            from cocotb.binary import BinaryValue
            s.value = BinaryValue("x"*len(s))
        else:
            s.value = self.rng.getrandbits(len(s))

    def verify(self, full):
        p, L = self.p, self.L
        i = 0
        for o in self.seq:
            recs = []
            bt = self.beats(o)
            for k, (a, lanes) in enumerate(bt):
                if i >= len(self.log):
                    p("C06", not full, o, "no transfer for word", k)
                    return
                t = self.log[i]
                i += 1
                recs.append(t)
                p("C06", t["paddr"] in ((a, o.addr) if k == 0 else (a,)), o, "word", k, "at", hex(t["paddr"]), "expected", hex(a))
                p("C06", bool(t["pwrite"]) == (o.kind == "w"), o, "word", k, "direction", t["pwrite"])
                if "pprot" in t:
                    p("C06", t["pprot"] == o.kw.get("prot", 2), o, "protection", t["pprot"])
                want = sum(1 << x for x in lanes) if o.kind == "w" else 0
                p("C06", t["pstrb"] == want, o, "word", k, "strobes", bin(t["pstrb"]), "expected", bin(want))
                if o.kind == "w":
                    for x, y in lanes.items():
                        p("C06", t["pwdata"] >> 8*x & 0xff == o.data[y], o, "word", k, "lane", x, "data", hex(t["pwdata"]))
            if o.done and not o.cancelled:
                err = any(t["err"] for t in recs) and "pslverr" in self.bw
                r = getattr(o, "res", None)
                if o.kind == "r":
                    data = bytearray(o.n)
                    for t, (a, lanes) in zip(recs, bt):
                        for x, q in lanes.items():
                            data[q] = t["prdata"] >> 8*x & 0xff
                    data = bytes(data)
                    if o.form == "words":
                        want = [int.from_bytes(data[j:j+o.ws], o.order) for j in range(0, o.n, o.ws)]
                        got = o.words if isinstance(o.words, list) else [o.words]
                        p("C06 C24", got == want, o, "words", got, "expected", want)
                    elif o.form == "window":
                        p("C06", bytes(o.words) == data, o, "window data")
                    else:
                        p("C06", bytes(r) == data and type(r.data) is bytes, o, "data", r.data[:40], "expected", data[:40])
                if r is None:
                    p("C06 C22", o.form in ("words", "window"), o, "completed without a result")
                else:
                    p("C06", r.address == o.addr and (o.kind == "r" or r.length == o.n), o, "reported range", r)
                    p("C06", (int(r.resp) in (2, 3)) == err and (err or int(r.resp) == 0), o, "response", r.resp, "errors", err)
        p("C06 C24 C22", i == len(self.log), "extra transfers", self.log[i:i+2])

    def run(self):
        import cocotb
        from cocotb.triggers import Timer
        from cocotbext.axi import ApbBus, ApbMaster
        rng, b, p = self.rng, self.b, self.p
        pauses = rng.random() < 0.4

        async def main():
            nonlocal pauses
            b.start()
            rst = b.rst if self.resets or rng.random() < 0.5 else None
            m = self.m = ApbMaster(ApbBus.from_prefix(b.sim.entity, "p"), b.clk, rst)
            b.hooks.append(self.model)
            self.check_idle("at start")
            await b.clocks(rng.choice([1, 2, 5]))
            workers = []
            nops = [rng.choice([2, 4, 7, 10])]

            async def worker():
                while nops[0] > 0:
                    nops[0] -= 1
                    k = rng.choice("wr")
                    if rng.random() < 0.15:
                        self.bad(k)
                        if rng.random() < 0.5:
                            await self.badwait(k)
                        continue
                    o = self.gen(k)
                    if rng.random() < 0.5:
                        await self.issue(o)
                    else:
                        workers.append(cocotb.start_soon(self.issue(o)))
                    if rng.random() < 0.4:
                        await b.clocks(rng.randint(1, 12))

            async def waiter():
                await b.clocks(rng.randint(0, 30))
                await m.wait()
                p("C23", m.idle(), "wait returned while not idle")

            async def watch():
                n = 0
                while True:
                    await Timer(rng.choice([10, 10, 20]), "ns")
                    self.check_idle("during the run")
                    n += 1
                    if pauses and rng.random() < 0.3:
                        m.pause = not m.pause
                    if n > 200 or not pauses:
                        m.pause = False

            await Timer(3, "ns")
            cocotb.start_soon(watch())
            ws = [cocotb.start_soon(worker()) for _ in range(rng.choice([1, 1, 2, 3]))]
            wt = [cocotb.start_soon(waiter()) for _ in range(rng.choice([0, 1, 3]))]
            if self.resets:
                for _ in range(rng.randint(1, 2)):
                    await b.clocks(rng.choice([1, 3, 8, 20, 60]))
                    await Timer(rng.choice([1, 3, 6]), "ns")
                    await self.reset()
                    nops[0] += rng.randint(0, 2)
                ws.append(cocotb.start_soon(worker()))
            for t in ws:
                await t
            for t in workers:
                await t
            for t in wt:
                await t
            await m.wait()
            await b.clocks(rng.choice([4, 10]))
            await Timer(1, "ns")
            self.check_idle("at the end")
            self.verify(True)
            return "lanes=%d addr=%d w=%d r=%d reset=%s" % (self.L, self.A, len(self.ops["w"]), len(self.ops["r"]), self.resets)
        return b.run(main, "operations do not complete", 2_000_000)


class ApbSlaveRun:
    def __init__(self, prop, rng, resets):
        self.p = P(prop)
        self.rng, self.resets = rng, resets
        b = self.b = BusSim(self.p, rng)
        self.w, self.L, self.A = apb_widths(rng)
        b.add("p", self.w, ["paddr", "psel", "penable", "pwrite", "pwdata", "pstrb", "pprot"])
        self.slow = rng.choice([0, 0.2, 0.6])
        self.mul, self.add = rng.getrandbits(16)*2+1, rng.getrandbits(20)
        self.bad = set()
        self.exc = rng.choice([ValueError, Exception, IndexError, RuntimeError])
        self.ram = rng.random() < 0.25
        self.errors = not self.ram and rng.random() < 0.5
        self.ready_edges = 0

    def run(self):
        import cocotb
        from cocotb.triggers import RisingEdge, Timer
        import cocotbext.axi as ca
        rng, b, p, L = self.rng, self.b, self.p, self.L
        st = dict(held=False, access=False)

        def hook(in_reset):
            r = val(b.sig("pready"))
            if val(b.rst):
                p("C22", r == 0, "ready is not inactive in reset")
            elif r and not in_reset:
                p("C10", st["access"] and val(b.sig("penable")) == 1, "ready outside an access phase")
                p("C10", not st["held"], "ready although paused ever since the transfer arrived")
                self.ready_edges += 1
            setup = val(b.sig("psel")) == 1 and not val(b.sig("penable"))
            st["held"] = (setup or st["held"]) and bool(self.s.pause)

        async def main():
            b.start()
            bus = ca.ApbBus.from_prefix(b.sim.entity, "p")
            rst = b.rst if self.resets or rng.random() < 0.5 else None
            self.t = Target(self)
            if self.ram:
                self.mem = bytearray(rng.randbytes(max(rng.choice([L, 64, 4096]), L)))
                s = ca.ApbRam(bus, b.clk, rst, mem=self.mem)
            elif rng.random() < 0.5:
                s = ca.ApbSlave(bus, b.clk, rst, target=self.t)
            else:
                s = ca.ApbSlave(bus, b.clk, rst)
                s.target = self.t
            self.s = s
            b.hooks.append(hook)

            async def pauser():
                for _ in range(rng.choice([0, 0, 40])):
                    await b.clocks(rng.randint(1, 6))
                    await Timer(3, "ns")
                    s.pause = not s.pause
                s.pause = False
            cocotb.start_soon(pauser())
            edge = RisingEdge(b.clk)
            n = rng.randint(1, 10)
            resets = sorted(rng.sample(range(n), min(n, rng.randint(1, 2)))) if self.resets else []
            await b.clocks(2)
            for i in range(n):
                w = rng.random() < 0.5
                a = rng.randrange(2**self.A)
                base = a//L*L
                d = rng.getrandbits(8*L)
                sb = rng.choice([2**L-1, rng.getrandbits(L), 0])
                self.bad.clear()
                if self.errors and rng.random() < 0.5:
                    self.bad.add(base+rng.randrange(L))
                lanes = strobed(L, sb) if w else range(L)
                fail = any(base+y in self.bad for y in lanes)
                self.t.log.clear()
                before = bytes(self.mem) if self.ram else None
                await Timer(1, "ps")
                for nm, v in dict(paddr=a, psel=1, penable=0, pwrite=int(w), pwdata=d if w else rng.getrandbits(8*L),
                                  pstrb=sb if w else 0, pprot=rng.randrange(8)).items():
                    if nm in self.w:
                        b.sig(nm).value = v
                self.ready_edges = 0
                await edge
                st["access"] = True
                b.sig("penable").value = 1
                if i in resets:
                    for _ in range(rng.randint(0, 3)):
                        await edge
                    await Timer(rng.choice([1, 3, 6]), "ns")
                    b.rst.value = 1
                    await Timer(1, "ns")
                    m = len(self.t.log)
                    for _ in range(rng.randint(1, 4)):
                        await edge
                        b.sig("psel").value = 0
                        b.sig("penable").value = 0
                    await Timer(1, "ns")
                    p("C22", len(self.t.log) == m, "the target was accessed in reset")
                    b.rst.value = 0
                    st["access"] = False
                    await b.clocks(2)
                    continue
                count = 0
                while True:
                    await edge
                    count += 1
                    if val(b.sig("pready")) == 1:
                        break
                    p("C10 C22", count < 400, "no ready for a transfer")
                data, err = val(b.sig("prdata")), val(b.sig("pslverr")) if "pslverr" in self.w else None
                b.sig("psel").value = 0
                b.sig("penable").value = 0
                st["access"] = False
                what = "%s at %x strobes %x" % ("write" if w else "read", a, sb)
                if err is not None:
                    p("C10", bool(err) == fail, what, "error", err, "expected", fail)
                if self.ram:
                    if w:
                        e = bytearray(before)
                        for y in lanes:
                            e[(base+y) % len(e)] = d >> 8*y & 0xff
                        p("C10 C12", self.mem == e, what, "memory content")
                    else:
                        p("C10 C12", self.mem == before, what, "a read changed the memory")
                        for y in range(L):
                            p("C10 C12", data >> 8*y & 0xff == before[(base+y) % len(before)], what, "lane", y, "data", hex(data))
                elif w:
                    want = sorted((base+y, d >> 8*y & 0xff) for y in lanes)
                    if fail:
                        p("C10", set(self.t.log) <= set(want) and len(set(self.t.log)) == len(self.t.log), what, "wrote", self.t.log, "expected", want)
                    else:
                        p("C10", sorted(self.t.log) == want, what, "wrote", self.t.log, "expected", want)
                else:
                    p("C10", not self.t.log, what, "a read wrote", self.t.log)
                    if not fail:
                        for y in range(L):
                            p("C10", data >> 8*y & 0xff == self.t.content(base+y), what, "lane", y, "data", hex(data))
                m = len(self.t.log)
                for _ in range(rng.choice([0, 0, 1, 3])):
                    await edge
                p("C10", len(self.t.log) == m, what, "was performed twice")
                p("C10", self.ready_edges <= 1, what, "ready for", self.ready_edges, "cycles")
            await b.clocks(3)
            return "lanes=%d addr=%d n=%d ram=%s errors=%s reset=%s" % (L, self.A, n, self.ram, self.errors, self.resets)
        return b.run(main, "transfers do not complete", 2_000_000)


def master(prop, resets, rng):
    return ApbMasterRun(prop, rng, resets).run()


def slave(prop, resets, rng):
    return ApbSlaveRun(prop, rng, resets).run()


for _p in "C06", "C23", "C24":
    suite(_p, "APB master runs", quick=120, thorough=4000, rule="random bus configuration, concurrent operations of every form and validity, random wait states, errors, undefined inputs and pauses")(functools.partial(master, _p, False))
for _p in "C06", "C22", "C23":
    suite(_p, "APB master resets", quick=80, thorough=4000, rule="as the master runs, with resets at random times")(functools.partial(master, _p, True))
for _p in "C10", "C12":
    suite(_p, "APB slave runs", quick=200, thorough=5000, rule="random transfers, wait states, pauses, slow and failing targets, RAM")(functools.partial(slave, _p, False))
for _p in "C10", "C22":
    suite(_p, "APB slave resets", quick=100, thorough=4000, rule="as the slave runs, with resets at random times")(functools.partial(slave, _p, True))
