"""native cross-check of the AXI and AXI-Lite slaves and RAMs on the kernel stand-in with the real cocotb"""
import functools
from busmodel import BusSim, Chan, P, strobed, val
from suite import suite
from s_axi import AX, widths


class Target:
    """the memory behind the slave: reads give fixed content, writes are only recorded, `bad` addresses fail"""

    def __init__(self, run):
        self.run = run
        self.log = []

    async def delay(self):
        rng = self.run.rng
        if rng.random() < self.run.slow:
            await self.run.b.clocks(rng.randint(1, 3))

    def content(self, a):
        return (a*self.run.mul+self.run.add) >> 3 & 0xff

    async def write(self, address, data):
        await self.delay()
        if any(a in self.run.bad for a in range(address, address+len(data))):
            raise self.run.exc("bad address")
        self.log += [(address+i, x) for i, x in enumerate(data)]

    async def read(self, address, length):
        await self.delay()
        if any(a in self.run.bad for a in range(address, address+length)):
            raise self.run.exc("bad address")
        return bytes(self.content(a) for a in range(address, address+length))


class SlaveRun:
    def __init__(self, prop, rng, lite, resets):
        p = self.p = P(prop)
        self.rng, self.lite, self.resets = rng, lite, resets
        self.prop = prop
        b = self.b = BusSim(p, rng)
        w, self.L, self.A, self.idw = widths(rng, lite, "slave")
        self.w = w
        ax = ["addr", "prot"] if lite else AX
        b.add("s", w, [k for k in w if k[:2] in ("aw", "ar") and k not in ("awready", "arready") or k in ("bready", "rready")
                       or k[0] == "w" and k != "wready"])
        self.ch = dict(aw=Chan(b, "aw", ax, True), w=Chan(b, "w", ["data", "strb"]+([] if lite else ["last", "user"]), True),
                       b=Chan(b, "b", ["resp"]+([] if lite else ["id", "user"]), False), ar=Chan(b, "ar", ax, True),
                       r=Chan(b, "r", ["data", "resp"]+([] if lite else ["id", "last", "user"]), False))
        b.chans = list(self.ch.values())
        self.slow = rng.choice([0, 0.2, 0.6])
        self.mul, self.add = rng.getrandbits(16)*2+1, rng.getrandbits(20)
        self.bad = set()
        self.errors = rng.random() < 0.4
        self.exc = rng.choice([ValueError, Exception, IndexError, RuntimeError])
        self.wb, self.rb = [], []
        self.ram = not self.errors and not resets and rng.random() < 0.3

    def burst(self, write):
        rng, L, top = self.rng, self.L, 2**self.A
        full = (L-1).bit_length()
        nostrb = write and "wstrb" not in self.w
        if self.lite:
            a = rng.randrange(top)
            base = a//L*L
            return dict(addr=a, id=0, len=0, size=full, burst=1, beats=[(base, list(range(L)))], prot=rng.randrange(8))
        size = full if nostrb else rng.choice([full, rng.randint(0, full)])
        nb = 2**size
        burst = rng.choice([0, 1, 1, 2])
        a = rng.choice([rng.randrange(top), rng.randrange(min(top, 64))])
        if nostrb or burst == 2:
            a -= a % nb
        al = a//nb*nb
        if burst == 0:
            n = rng.randint(1, 16)
            ads = [al]*n
            first = [a]*n
        elif burst == 1:
            room = (min((al//4096+1)*4096, top)-al)//nb
            n = min(room, rng.choice([1, rng.randint(1, 8), rng.randint(1, 40), 256]))
            ads = [al+i*nb for i in range(n)]
            first = [a]+ads[1:]
        else:
            n = rng.choice([2, 4, 8, 16])
            while n*nb > top:
                n //= 2
            lo = al//(n*nb)*(n*nb)
            ads = [lo+(al-lo+i*nb) % (n*nb) for i in range(n)]
            first = ads
        beats = [(x//L*L, [y % L for y in range(f, x+nb)]) for x, f in zip(ads, first)]
        return dict(addr=a, id=rng.randrange(2**self.idw), len=n-1, size=size, burst=burst, beats=beats, prot=rng.randrange(8),
                    cache=rng.randrange(16), qos=rng.randrange(16), region=0, lock=0, user=0)

    def make_bad(self, x):
        """some addresses of the burst fail"""
        base, lanes = self.rng.choice(x["beats"])
        self.bad.add(base+self.rng.choice(lanes))

    # checks ---------------------------------------------------------------------------------------------------
    def check_writes(self, bursts, log, full=True):
        """the target accesses of these bursts, in order"""
        p = self.p
        tag = "C09" if self.lite else "C07"
        if all(not self.fails(x) for x in bursts):
            i = 0
            for x in bursts:
                for k, (base, bytes_) in enumerate(x["w"]):
                    want = sorted((base+ln, v) for ln, v in bytes_.items())
                    got = sorted(log[i:i+len(want)])
                    i += len(want)
                    if got != want and not full and want[:len(got)] != want:
                        p(tag+" C22", set(got) <= set(want), "beat", k, "of", self.show(x), "wrote", got[:20], "expected", want[:20])
                        p(tag+" C22", i >= len(log), "writes after an incomplete beat")
                        return
                    p(tag, got == want, "beat", k, "of", self.show(x), "wrote", got[:20], "expected", want[:20])
            p(tag+" C22", i >= len(log), "extra target writes", log[i:i+10])
            return
        assert len(bursts) == 1
        x = bursts[0]
        allb = [(base+ln, v) for base, m in x["w"] for ln, v in m.items()]
        if x["burst"] == 0:
            rest = list(allb)
            for e in log:
                p(tag, e in rest, "wrote", e, "which is not strobed in", self.show(x))
                if e in rest:
                    rest.remove(e)
            return
        order = -1
        seen = set()
        for e in log:
            ks = [k for k, (base, m) in enumerate(x["w"]) if m.get(e[0]-base) == e[1] and e[0]-base in m]
            p(tag, len(ks) == 1 and ks[0] >= order and e[0] not in seen, "wrote", e, "in", self.show(x))
            seen.add(e[0])
            order = ks[0] if ks else order
        for k, (base, m) in enumerate(x["w"]):
            if not any(base+ln in self.bad for ln in m):
                p(tag, all(base+ln in seen for ln in m), "beat", k, "of", self.show(x), "was not written completely")

    def fails(self, x):
        return any(base+ln in self.bad for base, m in x["w"] for ln in m)

    def show(self, x):
        return {k: x[k] for k in ("addr", "id", "len", "size", "burst")}

    def check_b(self, bursts, log):
        p = self.p
        tag = "C09" if self.lite else "C07"
        p(tag+" C22", len(log) == len(bursts), "responses", len(log), "for", len(bursts), "bursts")
        for i in {x["id"] for x in bursts}:
            mine = [x for x in bursts if x["id"] == i]
            got = [t for t in log if t.get("id", 0) == i]
            p(tag, len(mine) == len(got), "id", i, "responses", len(got), "for", len(mine), "bursts")
            for x, t in zip(mine, got):
                if "resp" in t:
                    want = 2 if self.fails(x) else 0
                    p(tag, t["resp"] == want, self.show(x), "response", t["resp"], "expected", want)

    def check_r(self, bursts, log):
        p, L = self.p, self.L
        tag = "C09" if self.lite else "C08"
        n = sum(len(x["beats"]) for x in bursts)
        p(tag+" C22", len(log) == n, "data beats", len(log), "expected", n)
        for i in {x["id"] for x in bursts}:
            got = [t for t in log if t.get("id", 0) == i]
            want = [(x, k) for x in bursts if x["id"] == i for k in range(len(x["beats"]))]
            p(tag, len(got) == len(want), "id", i, "data beats", len(got), "expected", len(want))
            for (x, k), t in zip(want, got):
                base, lanes = x["beats"][k]
                if not self.lite:
                    p(tag, bool(t["last"]) == (k == len(x["beats"])-1), self.show(x), "beat", k, "last", t["last"])
                bad = any(base+y in self.bad for y in lanes)
                near = any(base+y in self.bad for y in range(L))
                if "resp" in t:
                    p(tag, t["resp"] in ((2,) if bad else (0, 2) if near else (0,)), self.show(x), "beat", k, "response", t["resp"])
                if not near:
                    for y in lanes:
                        a = base+y
                        w = self.mem0[a % len(self.mem0)] if self.ram else self.t.content(a)
                        p(tag, t["data"] >> 8*y & 0xff == w, self.show(x), "beat", k, "lane", y, "data", hex(t["data"]), "expected byte", hex(w))

    def feed_write(self, x):
        rng = self.rng
        self.ch["aw"].queue.append(x)
        x["w"] = []
        style = rng.random()
        for k, (base, lanes) in enumerate(x["beats"]):
            if "wstrb" not in self.w:
                st = lanes
            elif style < 0.4:
                st = lanes
            else:
                st = [y for y in lanes if rng.random() < 0.6]
            d = rng.getrandbits(8*self.L)
            x["w"].append((base, {y: d >> 8*y & 0xff for y in st}))
            self.ch["w"].queue.append(dict(data=d, strb=sum(1 << y for y in st), last=int(k == len(x["beats"])-1), user=rng.getrandbits(self.w.get("wuser", 1))))

    def run(self):
        import cocotb
        from cocotb.triggers import Timer
        import cocotbext.axi as ca
        rng, b, p, ch = self.rng, self.b, self.p, self.ch

        def hook(in_reset):
            if val(b.rst):
                for n in "b", "r":
                    p("C22 C20", val(ch[n].v) == 0, "valid of", n, "is not inactive in reset")
                for n in "aw", "w", "ar":
                    p("C22", val(ch[n].r) == 0, "ready of", n, "is not inactive in reset")

        async def until(cond):
            while not cond():
                await b.clocks(1)

        async def main():
            b.start()
            b.hooks.append(hook)
            rst = b.rst if self.resets or rng.random() < 0.5 else None
            bus = (ca.AxiLiteBus if self.lite else ca.AxiBus).from_prefix(b.sim.entity, "s")
            self.t = Target(self)
            if self.ram:
                size = rng.choice([self.L, 64, 4096, 65536])
                size = max(size, self.L)
                self.mem = bytearray(rng.randbytes(size))
                self.mem0 = bytes(self.mem)
                s = (ca.AxiLiteRam if self.lite else ca.AxiRam)(bus, b.clk, rst, mem=self.mem)
            else:
                S = ca.AxiLiteSlave if self.lite else ca.AxiSlave
                if rng.random() < 0.5:
                    s = S(bus, b.clk, rst, target=self.t)
                else:
                    s = S(bus, b.clk, rst)
                    s.target = self.t
            chans = [s.write_if.aw_channel, s.write_if.w_channel, s.write_if.b_channel, s.read_if.ar_channel, s.read_if.r_channel]

            async def pauser():
                for _ in range(rng.choice([0, 0, 30])):
                    await b.clocks(rng.randint(1, 6))
                    c = rng.choice(chans)
                    c.pause = not c.pause
                for c in chans:
                    c.pause = False
            cocotb.start_soon(pauser())
            await b.clocks(2)
            if self.resets:
                for _ in range(rng.randint(1, 2)):
                    xs = [self.burst(True) for _ in range(rng.randint(1, 3))]
                    for x in xs:
                        self.feed_write(x)
                    ch["ar"].queue += [self.burst(False) for _ in range(rng.randint(0, 3))]
                    await b.clocks(rng.randint(1, 30))
                    await Timer(rng.choice([1, 3, 6]), "ns")
                    b.rst.value = 1
                    await Timer(1, "ns")
                    self.check_writes(xs, self.t.log, False)
                    n = len(self.t.log)
                    await b.clocks(rng.randint(1, 5))
                    await Timer(rng.choice([1, 3]), "ns")
                    p("C22", len(self.t.log) == n, "the target was written in reset")
                    b.rst.value = 0
                    self.t.log.clear()
                    for c in b.chans:
                        c.log = []
                        c.queue.clear()
                    await b.clocks(rng.randint(2, 4))
            nb = [rng.randint(1, 6), rng.randint(1, 6)]
            wb, rb = [], []
            if self.errors:
                # one burst at a time, so that its accesses can be told apart
                for _ in range(max(nb)):
                    self.bad.clear()
                    x = self.burst(rng.random() < 2)
                    y = self.burst(False)
                    for z in (x, y):
                        if rng.random() < 0.6:
                            self.make_bad(z)
                    self.t.log.clear()
                    for c in b.chans:
                        c.log = []
                    self.feed_write(x)
                    ch["ar"].queue.append(y)
                    await until(lambda: len(ch["b"].log) >= 1 and len(ch["r"].log) >= len(y["beats"]))
                    await b.clocks(rng.choice([0, 3]))
                    self.check_writes([x], self.t.log)
                    self.check_b([x], ch["b"].log)
                    self.check_r([y], ch["r"].log)
            else:
                for _ in range(nb[0]):
                    x = self.burst(True)
                    wb.append(x)
                    self.feed_write(x)
                if not self.ram:
                    for _ in range(nb[1]):
                        rb.append(self.burst(False))
                        ch["ar"].queue.append(rb[-1])
                n = sum(len(x["beats"]) for x in rb)
                await until(lambda: len(ch["b"].log) >= len(wb) and len(ch["r"].log) >= n)
                await b.clocks(5)
                self.check_b(wb, ch["b"].log)
                # a response follows the last beat of its burst
                c = 0
                last = {}
                for x in wb:
                    c += len(x["beats"])
                    last.setdefault(x["id"], []).append(ch["w"].times[c-1] if not self.resets else -1)
                if not self.resets:
                    for t, when in zip(ch["b"].log, ch["b"].times):
                        q = last[t.get("id", 0)]
                        p("C07 C09", q and when > q.pop(0), "a response came before the last beat of its burst")
                if self.ram:
                    m = bytearray(self.mem0)
                    for x in wb:
                        for base, by in x["w"]:
                            for ln, v in by.items():
                                m[(base+ln) % len(m)] = v
                    p("C07 C09 C12", self.mem == m, "memory content after the writes")
                    self.mem0 = bytes(m)
                    for _ in range(nb[1]):
                        rb.append(self.burst(False))
                        ch["ar"].queue.append(rb[-1])
                    n = sum(len(x["beats"]) for x in rb)
                    await until(lambda: len(ch["r"].log) >= n)
                    await b.clocks(3)
                else:
                    self.check_writes(wb, self.t.log)
                self.check_r(rb, ch["r"].log)
            return "lanes=%d addr=%d w=%s r=%s errors=%s ram=%s reset=%s" % (self.L, self.A, nb[0], nb[1], self.errors, self.ram, self.resets)
        return b.run(main, "bursts are not answered")


def slave(prop, lite, resets, rng):
    return SlaveRun(prop, rng, lite, resets).run()


for _lite, _props in (False, ["C07", "C08", "C20", "C12"]), (True, ["C09", "C20", "C12"]):
    for _p in _props:
        suite(_p, "%s slave runs" % ("AXI-Lite" if _lite else "AXI"), quick=120, thorough=4000,
              rule="random bus configuration, legal bursts of every type with random strobes, random timing, slow and failing targets, RAM models")(
            functools.partial(slave, _p, _lite, False))
    suite("C22", "%s slave resets" % ("AXI-Lite" if _lite else "AXI"), quick=80, thorough=4000,
          rule="as the slave runs, with resets of the bus at random times")(
        functools.partial(slave, "C22", _lite, True))
