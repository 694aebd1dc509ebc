"""independent models of the other side of a bus, written against the signals only: they sample at the rising clock
edge what was there before it, and drive right after it.  Nothing of the package under test is used here."""
import kernel
from suite import Skip


class P:
    """checks tagged with the properties they belong to; only those of the property being checked can fail"""

    def __init__(self, prop):
        self.prop = prop

    def __call__(self, tags, cond, *msg):
        if not cond and (self.prop is None or self.prop in tags.split()):
            raise AssertionError("%s: %s" % (self.prop, " ".join(str(m) for m in msg)))


def val(sig):
    """the level of a signal, None while it is not a number"""
    b = sig.value
    try:
        return int(b)
    except ValueError:
        return None


class Chan:
    """one valid/ready channel; `mine` is True when the model drives valid and payload"""

    def __init__(self, bus, name, fields, mine):
        self.bus, self.name, self.mine = bus, name, mine
        self.fields = fields
        self.v, self.r = bus.sig(name+"valid"), bus.sig(name+"ready")
        self.f = {x: bus.sig(name+x) for x in fields if bus.has(name+x)}
        self.log = []           # transfers seen, each a dict of sampled fields
        self.times = []
        self.prev = None
        self.queue = []         # items to send (mine)
        self.cur = None
        self.p = bus.rng.choice([0.1, 0.4, 0.7, 1.0])
        self.on = None
        self.stall = False

    def sample(self):
        return {x: val(s) for x, s in self.f.items()}

    def edge(self, in_reset):
        """called right after a rising edge; returns the transfer that happened at it"""
        b = self.bus
        v, r = val(self.v), val(self.r)
        got = None
        if not self.mine:
            pay = self.sample() if v else None
            if self.prev is not None and not in_reset:
                b.check("C20", v == 1, self.name, "valid was withdrawn before it was accepted")
                b.check("C20", pay == self.prev, self.name, "payload changed while waiting for ready", self.prev, pay)
            self.prev = pay if v and not r and not in_reset else None
            if v and not in_reset:
                b.check("C20 C18", all(x is not None for x in pay.values()), self.name, "undefined payload", pay)
        if v and r and not in_reset:
            got = self.sample()
            self.log.append(got)
            self.times.append(b.now())
        rng = b.rng
        if in_reset:
            self.prev = None
            if self.mine:
                self.v.value = 0
                self.cur = None
                self.queue.clear()
            else:
                self.r.value = 0
            return None
        if self.mine:
            if got is not None:
                self.cur = None
            if self.cur is None:
                if self.queue and not self.stall and rng.random() < self.p:
                    self.cur = self.queue.pop(0)
                    for x, s in self.f.items():
                        s.value = self.cur.get(x, 0)
                    self.v.value = 1
                else:
                    self.v.value = 0
                    if rng.random() < 0.3:
                        for x, s in self.f.items():
                            s.value = rng.getrandbits(len(s))
        else:
            self.r.value = int(not self.stall and rng.random() < self.p)
        return got


class BusSim:
    def __init__(self, p, rng):
        self.check = p
        self.rng = rng
        self.sim = kernel.Sim()
        self.clk = self.sim.signal("clk", 1, 0)
        self.rst = self.sim.signal("rst", 1, 0)
        self.pre = ""
        self.chans = []
        self.trace = []
        self.hooks = []
        self.resetting = False

    def add(self, prefix, widths, drive):
        self.pre = prefix+"_"
        for n, w in widths.items():
            self.sim.signal(prefix+"_"+n, w, 0 if n in drive else None)

    def has(self, n):
        return self.pre+n in self.sim.signals

    def sig(self, n):
        return self.sim.signals[self.pre+n]

    def now(self):
        from cocotb.utils import get_sim_time
        return get_sim_time("ns")

    def start(self):
        import cocotb
        self.sim.clock(self.clk)

        async def run():
            from cocotb.triggers import RisingEdge
            e = RisingEdge(self.clk)
            last = False
            while True:
                await e
                r = bool(val(self.rst))
                for h in self.hooks:
                    h(r or last)
                for c in self.chans:
                    c.edge(r or last)
                last = r
        self.task = cocotb.start_soon(run())

    async def clocks(self, n):
        from cocotb.triggers import RisingEdge
        for _ in range(n):
            await RisingEdge(self.clk)

    def run(self, main, what, limit=400_000):
        """run main(); a simulation that stops making progress is a failure whatever the property"""
        try:
            return self.sim.run(main, limit)
        except (kernel.Deadlock, kernel.TimeUp) as e:
            raise AssertionError("%s: %s (%s)" % (self.check.prop, what, type(e).__name__)) from None


def strobed(lanes, strb):
    return [i for i in range(lanes) if strb >> i & 1]
