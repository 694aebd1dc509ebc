"""native cross-check of the AXI and AXI-Lite masters and slaves on the kernel stand-in with the real cocotb"""
import functools
from busmodel import BusSim, Chan, P, val
from suite import Skip, suite

AX = ["addr", "len", "size", "burst", "lock", "cache", "prot", "qos", "region", "user", "id"]


def widths(rng, lite, role):
    """random bus configuration: signal name -> width"""
    lanes = rng.choice([1, 2, 4, 4, 8, 16] if not lite else [1, 2, 4, 4, 8])
    aw = rng.choice([8, 12, 13, 16, 32, 48, 64])
    w = {}
    opt = rng.choice([0.0, 0.5, 1.0, 1.0])

    def some(d):
        for k, v in d.items():
            if rng.random() < opt:
                w[k] = v
    idw = rng.choice([1, 2, 3, 4, 8])
    for c in "aw", "ar":
        w.update({c+"addr": aw, c+"valid": 1, c+"ready": 1})
        some({c+"prot": 3})
        if not lite:
            w.update({c+"id": idw, c+"len": 8, c+"size": 3, c+"burst": 2})
            some({c+"lock": 1, c+"cache": 4, c+"qos": 4, c+"region": 4, c+"user": rng.choice([1, 4, 16])})
    w.update(wdata=lanes*8, wvalid=1, wready=1, bvalid=1, bready=1, rdata=lanes*8, rvalid=1, rready=1)
    if rng.random() < 0.9:
        w["wstrb"] = lanes
    some(dict(bresp=2, rresp=2))
    if not lite:
        w.update(wlast=1, rlast=1, bid=idw, rid=idw)
        some(dict(wuser=rng.choice([1, 5, 8]), buser=3, ruser=4))
    return w, lanes, aw, idw


class Op:
    def __init__(self, **kw):
        self.done = False
        self.result = None
        self.cancelled = False
        self.__dict__.update(kw)

    def __repr__(self):
        return str({k: (v if not isinstance(v, bytes) or len(v) < 20 else "%d bytes" % len(v))
                    for k, v in self.__dict__.items() if k not in ("ev", "result")})


def count_event():
    from cocotb.triggers import Event

    class Ev(Event):
        sets = 0

        def set(self, data=None):
            if self.sets == 0 or data is not None:
                self.first = data
            self.sets += 1
            super().set(data)
    return Ev()


class MasterRun:
    def __init__(self, prop, rng, lite, resets):
        self.p = P(prop)
        self.prop, self.rng, self.lite = prop, rng, lite
        b = self.b = BusSim(self.p, rng)
        w, self.L, self.A, self.idw = widths(rng, lite, "master")
        self.w = w
        mine = [k for k in w if k[0] in "br" or k.endswith("ready") and k[0] in "aw"]
        b.add("m", w, [k for k in mine if k not in ("bready", "rready")])
        ax = ["addr", "prot"] if lite else AX
        self.ch = dict(aw=Chan(b, "aw", ax, False), w=Chan(b, "w", ["data", "strb"]+([] if lite else ["last", "user"]), False),
                       b=Chan(b, "b", ["resp"]+([] if lite else ["id", "user"]), True), ar=Chan(b, "ar", ax, False),
                       r=Chan(b, "r", ["data", "resp"]+([] if lite else ["id", "last", "user"]), True))
        b.chans = list(self.ch.values())
        self.perr = rng.choice([0, 0, 0.1, 0.5])
        self.resets = resets
        self.maxlen = rng.choice([1, 2, 3, 7, 16, 17, 255, 256, 256, 300])
        self.ops = dict(w=[], r=[])
        self.epoch_ops = dict(w=[], r=[])
        self.wb, self.rb = [], []           # bursts of this epoch as seen by the slave model
        self.wcount = 0
        self.seq = []

    # the slave model ------------------------------------------------------------------------------------------
    def model(self, in_reset):
        rng = self.rng
        ch = self.ch
        if in_reset:
            if bool(val(self.b.rst)):
                for n in "aw", "w", "ar":
                    self.p("C22 C20", val(self.ch[n].v) == 0, "valid of", n, "is not inactive in reset")
                for n in "b", "r":
                    self.p("C22", val(self.ch[n].r) == 0, "ready of", n, "is not inactive in reset")
            return
        while len(self.wb) < len(ch["aw"].log):
            t = ch["aw"].log[len(self.wb)]
            self.wb.append(dict(n=(t.get("len") or 0)+1, id=t.get("id", 0), resp=None, user=None))
        while len(self.rb) < len(ch["ar"].log):
            t = ch["ar"].log[len(self.rb)]
            self.rb.append(dict(n=(t.get("len") or 0)+1, id=t.get("id", 0), beats=[]))
        # write responses: a burst is answered after its data, in order per id
        have = len(ch["w"].log)
        ready, used, ids = [], 0, set()
        for x in self.wb:
            used += x["n"]
            if used > have:
                break
            if x["resp"] is None:
                if x["id"] not in ids:
                    ready.append(x)
                ids.add(x["id"])
        if ready and len(ch["b"].queue) < 2 and rng.random() < 0.7:
            x = rng.choice(ready)
            x["resp"] = self.resp()
            x["user"] = rng.getrandbits(3)
            ch["b"].queue.append(dict(id=x["id"], resp=x["resp"], user=x["user"]))
        ready, ids = [], set()
        for x in self.rb:
            if len(x["beats"]) < x["n"]:
                if x["id"] not in ids:
                    ready.append(x)
                ids.add(x["id"])
        if ready and len(ch["r"].queue) < 2:
            x = rng.choice(ready)
            t = dict(id=x["id"], data=rng.getrandbits(8*self.L), resp=self.resp(), user=rng.getrandbits(4),
                     last=int(len(x["beats"]) == x["n"]-1))
            x["beats"].append(t)
            ch["r"].queue.append(t)

    def resp(self):
        if self.rng.random() < self.perr:
            return self.rng.choice([2, 3])
        return self.rng.choice([0, 0, 0, 1]) if not self.lite else 0

    # operations -----------------------------------------------------------------------------------------------
    def gen(self, kind):
        rng = self.rng
        d = "aw" if kind == "w" else "ar"
        full = (self.L-1).bit_length()
        size = None if self.lite or rng.random() < 0.4 else rng.randint(0, full)
        nb = self.L if size is None else 2**size
        r = rng.random()
        cap = 6*nb if r < 0.5 else 40*nb if r < 0.85 else 300*nb
        n = rng.randint(1, cap)
        top = 2**self.A
        n = min(n, top)
        r = rng.random()
        if r < 0.3:
            a = rng.randrange(top)
        elif r < 0.6:
            a = max(0, 0x1000*rng.randint(1, 5)-rng.randint(0, min(n+nb, 0x1000)))
        elif r < 0.75:
            a = top-n
        else:
            a = rng.randrange(0, 4*self.L)
        a = max(0, min(a, top-n))
        if rng.random() < 0.05:
            n = 0
            a -= a % nb
        o = Op(kind=kind, addr=a, n=n, nb=nb, size=size, kw={}, resp=None)
        kw = o.kw
        if size is not None:
            kw["size"] = size
        for x, lo in ("prot", 8), ("lock", 2), ("cache", 16), ("qos", 16), ("region", 16), ("user", None):
            if d+x in self.w and rng.random() < 0.6:
                kw[x] = rng.choice([0, 2**self.w[d+x]-1, rng.randrange(2**self.w[d+x])])
        if kind == "w":
            o.data = bytes(rng.getrandbits(8) for _ in range(n)) if n < 3000 else rng.randbytes(n)
            if "wuser" in self.w and rng.random() < 0.6:
                m = 2**self.w["wuser"]
                kw["wuser"] = rng.choice([rng.randrange(m), [rng.randrange(m) for _ in range(rng.randint(0, 8))]])
        if not self.lite and rng.random() < 0.6:
            kw[d+"id"] = rng.choice([0, 2**self.idw-1, rng.randrange(2**self.idw), rng.randrange(2**self.idw)])
        if self.lite:
            kw.pop("lock", None)
        return o

    def invalid(self, kind):
        """arguments (address, data or length, keywords) of a request that must be refused"""
        rng = self.rng
        o = self.gen(kind)
        d = "aw" if kind == "w" else "ar"
        top = 2**self.A
        arg = o.data if kind == "w" else o.n
        c = ["addr-", "addr+", "over", "event"]
        for x, dflt in ("prot", 2), ("lock", 0), ("cache", 3), ("qos", 0), ("region", 0), ("user", 0):
            if self.lite and x != "prot":
                continue
            c.append(x)
        if not self.lite:
            c += ["id", "size", "burst"]
        c += ["int", "wuser"] if kind == "w" else ["neg"]
        k = rng.choice(c)
        a = o.addr
        kw = dict(o.kw)
        if k == "addr-":
            a = -rng.choice([1, 2, self.L, top])
        elif k == "addr+":
            a = top+rng.choice([0, 1, self.L])
        elif k == "over":
            n = rng.choice([1, 2, self.L, 3*self.L])
            n = min(n, top)
            a = top-n+rng.randint(1, n)
            if a >= top:
                a = top-1
                n = max(n, 2)
            if a+n <= top:
                n = top-a+1
            arg = bytes(n) if kind == "w" else n
        elif k == "event":
            kw["event"] = rng.choice([5, "x", object()])
        elif k == "id":
            kw[d+"id"] = 2**self.idw+rng.choice([0, 1, 7])
        elif k == "size":
            kw["size"] = (self.L-1).bit_length()+rng.choice([1, 2])
        elif k == "burst":
            kw["burst"] = rng.choice([3, 4])
        elif k == "int":
            arg = rng.choice([0, 5])
        elif k == "neg":
            arg = -rng.choice([1, 4])
        elif k == "wuser":
            if self.lite:
                return self.invalid(kind)
            if "wuser" in self.w:
                bad = rng.choice([2**self.w["wuser"], -1])
                kw["wuser"] = rng.choice([bad, [0, bad], [bad]])
            else:
                kw["wuser"] = 1
        elif d+k in self.w:
            kw[k] = rng.choice([2**self.w[d+k], 2**self.w[d+k]+5, 2**self.w[d+k]+5 if k == "prot" else -1])
        else:
            kw[k] = 1
        return k, a, arg, kw

    def target(self, kind):
        m = self.m
        return self.rng.choice([m, m, m.write_if if kind == "w" else m.read_if])

    async def issue(self, o):
        """issue o in a random form; returns when it is done (blocking forms) or at once"""
        from cocotb.triggers import Event
        rng = self.rng
        t = self.target(o.kind)
        name = "write" if o.kind == "w" else "read"
        arg = o.data if o.kind == "w" else o.n
        lst = self.epoch_ops[o.kind]
        forms = ["block", "init", "init", "initev"]
        words = [s for s in (1, 2, 3, 4, 8) if o.n and o.n % s == 0]
        if words:
            forms += ["words", "window"]
        f = o.form = rng.choice(forms)
        if o.kind == "w" and rng.random() < 0.3 and f != "words":
            arg = rng.choice([bytearray, memoryview])(arg)
        self.ops[o.kind].append(o)
        lst.append(o)
        self.seq.append(o)
        if f in ("init", "initev"):
            if f == "initev" or rng.random() < 0.5:
                ev = count_event()
                o.ev = getattr(t, "init_"+name)(o.addr, arg, event=ev, **o.kw)
                self.p("C24 C04 C05 C06", o.ev is ev, "another event was returned")
            else:
                o.ev = getattr(t, "init_"+name)(o.addr, arg, **o.kw)
            if isinstance(arg, bytearray):
                arg[:] = bytes(len(arg))        # the caller may reuse the buffer
            await o.ev.wait()
            o.res = o.ev.data
            o.blocked = False
        elif f == "block":
            o.res = await getattr(t, name)(o.addr, arg, **o.kw)
        elif f == "window":
            lo = max(0, o.addr-rng.randint(0, 9))
            size = min(2**self.A-lo, o.addr-lo+o.n+rng.randint(0, 9))
            win = t.create_window(lo, size)
            o.raw = await getattr(win, name)(o.addr-lo, arg, **o.kw)
            o.words = o.raw
        else:
            ws = rng.choice(words)
            order = rng.choice(["little", "big"])
            o.ws, o.order = ws, order
            cnt = o.n//ws
            std = {2: "word", 4: "dword", 8: "qword"}.get(ws)
            one = cnt == 1 and std and rng.random() < 0.7
            if ws == 1 and cnt == 1:
                f2 = name+"_byte"
                if o.kind == "w":
                    await getattr(t, f2)(o.addr, o.data[0], **o.kw)
                else:
                    try:
                        o.words = await getattr(t, f2)(o.addr, **o.kw)
                    except TypeError:
                        if not o.cancelled:
                            raise
                        o.words = []
            else:
                many = std+"s" if ws in (4, 8) and rng.random() < 0.6 else None
                extra = {} if many or (one and ws != 2) else dict(ws=ws)
                f2 = name+"_"+(std if one else many or "words")
                if not one and not many:
                    extra = dict(ws=ws)
                elif one:
                    extra = {}
                if o.kind == "w":
                    ints = [int.from_bytes(o.data[i:i+ws], order) for i in range(0, o.n, ws)]
                    await getattr(t, f2)(o.addr, ints[0] if one else ints, order, **extra, **o.kw)
                else:
                    a = () if one else (cnt,)
                    try:
                        o.words = await getattr(t, f2)(o.addr, *a, order, **extra, **o.kw)
                    except TypeError:       # the empty result of a cancelled operation has no words
                        if not o.cancelled:
                            raise
                        o.words = []
                    if one:
                        o.words = [o.words]
        o.done = True
        if hasattr(o, "ev") and hasattr(o.ev, "sets") and not o.cancelled:
            self.p("C04 C05 C06", o.ev.sets == 1, "the completion event was set", o.ev.sets, "times")

    # expected beats -------------------------------------------------------------------------------------------
    def beats(self, o):
        """(container address, {lane: offset in the data}) of every beat of o"""
        if o.n == 0:
            return []
        nb = self.L if self.lite else o.nb
        res = []
        a = o.addr//nb*nb
        while a < o.addr+o.n:
            res.append((a, {x % self.L: x-o.addr for x in range(max(a, o.addr), min(a+nb, o.addr+o.n))}))
            a += nb
        return res

    def burst_attrs(self, o, t, i, ids):
        """checks of one address transfer belonging to o"""
        d = "aw" if o.kind == "w" else "ar"
        p = self.p
        dflt = dict(prot=2, lock=0, cache=3, qos=0, region=0, user=0)
        for x in ["prot"] if self.lite else dflt:
            if x in t:
                p("C02 C05", t[x] == o.kw.get(x, dflt[x]), o, "burst", i, "has", x, t[x])
        if not self.lite:
            p("C02", t["size"] == (o.size if o.size is not None else (self.L-1).bit_length()), o, "size", t["size"])
            p("C02", t["burst"] == 1, o, "burst type", t["burst"])
            if d+"id" in o.kw:
                p("C02 C04", t["id"] == o.kw[d+"id"], o, "id", t["id"])
            ids.add(t["id"])
            p("C02 C04", len(ids) == 1, o, "bursts have different ids", ids)
            n = t["len"]+1
            p("C02", n <= min(256, max(1, self.maxlen)), o, "burst of", n, "beats, limit", self.maxlen)
            p("C02", t["addr"]//4096 == ((t["addr"]//o.nb*o.nb)+n*o.nb-1)//4096, o, "burst crosses 4K", t)

    def verify(self, full):
        """compare what was on the bus since the last reset with the operations issued since then"""
        p = self.p
        lite = self.lite
        for kind in "wr":
            alog = self.ch["aw" if kind == "w" else "ar"].log
            bursts = self.wb if kind == "w" else self.rb
            wlog = self.ch["w"].log
            ai = wi = 0
            main = "C05" if lite else "C02"
            stopped = False
            for o in self.epoch_ops[kind]:
                bt = self.beats(o)
                ids, mine = set(), []
                left = 0
                o.bursts = mine
                for k, (a, lanes) in enumerate(bt):
                    if left == 0:
                        if ai >= len(alog):
                            p(main, not full, o, "no address transfer for beat", k)
                            stopped = True
                            break
                        t = alog[ai]
                        left = 1 if lite else t["len"]+1
                        first = (a, o.addr) if k == 0 else (a,)
                        p(main+" C03 C01", t["addr"] in first, o, "burst", len(mine), "at", hex(t["addr"]), "expected", [hex(x) for x in first])
                        p(main, k+left <= len(bt), o, "burst announces more beats than the range spans", t)
                        self.burst_attrs(o, t, len(mine), ids)
                        mine.append(bursts[ai] if ai < len(bursts) else None)
                        ai += 1
                    left -= 1
                    if kind == "w":
                        if wi >= len(wlog):
                            p(main+" C01", not full, o, "no data transfer for beat", k)
                            stopped = True
                            break
                        t = wlog[wi]
                        wi += 1
                        if "strb" in t:
                            want = sum(1 << x for x in lanes)
                            p("C01 C05", t["strb"] == want, o, "beat", k, "strobes", bin(t["strb"] or 0), "expected", bin(want))
                        for x, y in lanes.items():
                            p("C01 C05", t["data"] >> 8*x & 0xff == o.data[y], o, "beat", k, "lane", x, "data", hex(t["data"]))
                        if not lite:
                            p("C02", bool(t["last"]) == (left == 0), o, "last flag", t["last"], "with", left, "beats left of the burst")
                        if "user" in t:
                            u = o.kw.get("wuser", 0)
                            u = u if isinstance(u, int) else u[k] if k < len(u) else 0
                            p("C02 C01", t["user"] == u, o, "beat", k, "user", t["user"], "expected", u)
                if stopped:
                    break
                if o.done and not o.cancelled:
                    self.outcome(o, mine, bt)
            if not stopped:
                p(main+" C01 C24", ai == len(alog), "extra address transfers", alog[ai:ai+2])
                if kind == "w":
                    p(main+" C01 C24", wi == len(wlog), "extra data transfers", wlog[wi:wi+2])
            elif not full:
                # an interrupted operation: nothing after it can have been announced
                p(main, ai == len(alog) or kind == "w", "address transfers out of order")

    def outcome(self, o, bursts, bt):
        p = self.p
        lite = self.lite
        r = getattr(o, "res", None)
        tags = "C05" if lite else "C04"
        if o.kind == "w":
            p(tags, all(x is not None and x["resp"] is not None for x in bursts), o, "completed before its responses")
            rs = [x["resp"] for x in bursts] if "bresp" in self.w else []
            users = [x["user"] for x in bursts] if "buser" in self.w else None
        else:
            beats = [y for x in bursts for y in x["beats"]]
            p(tags+" C03", len(beats) == len(bt), o, "completed before its data")
            rs = [y["resp"] for y in beats] if "rresp" in self.w else []
            users = [y["user"] for y in beats] if "ruser" in self.w else None
            data = bytearray(o.n)
            for y, (a, lanes) in zip(beats, bt):
                for x, q in lanes.items():
                    data[q] = y["data"] >> 8*x & 0xff
            data = bytes(data)
            if o.form == "words":
                want = [int.from_bytes(data[i:i+o.ws], o.order) for i in range(0, o.n, o.ws)]
                got = o.words if isinstance(o.words, list) else [o.words]
                p("C03 C05 C24", got == want, o, "words", got, "expected", want)
            elif o.form == "window":
                p("C03 C05", bytes(o.words) == data, o, "window data", bytes(o.words)[:40], "expected", data[:40])
            else:
                p("C03 C05", bytes(r) == data and r.data == data and type(r.data) is bytes, o, "data", r.data[:40], "expected", data[:40])
        if r is None:
            return p(tags+" C22", o.form in ("words", "window"), o, "completed without a result")
        p("C03 C04 C05", r.address == o.addr, o, "reported address", r.address)
        if o.kind == "w":
            p("C04 C05", r.length == o.n, o, "reported length", r.length)
        errs = [x for x in rs if x in (2, 3)]
        if errs:
            p(tags, int(r.resp) in errs, o, "responses", rs, "reported", r.resp)
        else:
            p(tags, int(r.resp) in ((0, 1) if 1 in rs else (0,)), o, "responses", rs, "reported", r.resp)
        if not lite:
            p("C04", r.user == users, o, "user values", r.user, "expected", users)

    # the run --------------------------------------------------------------------------------------------------
    def outstanding(self, kind):
        return [o for o in self.ops[kind] if not o.done]

    def check_idle(self, where):
        w, r = self.outstanding("w"), self.outstanding("r")
        m = self.m
        self.p("C23 C22", bool(m.write_if.idle()) == (not w), where, "write idle", m.write_if.idle(), "outstanding", len(w))
        self.p("C23 C22", bool(m.read_if.idle()) == (not r), where, "read idle", m.read_if.idle(), "outstanding", len(r))
        self.p("C23 C22", bool(m.idle()) == (not w and not r), where, "idle", m.idle(), "outstanding", len(w)+len(r))

    def run(self):
        import cocotb
        from cocotb.triggers import Timer, RisingEdge
        from cocotbext.axi import AxiBus, AxiLiteBus, AxiLiteMaster, AxiMaster
        rng, b, p = self.rng, self.b, self.p
        pauses = rng.random() < 0.4

        async def main():
            b.start()
            B = AxiLiteBus if self.lite else AxiBus
            bus = B.from_prefix(b.sim.entity, "m")
            rst = b.rst if self.resets or rng.random() < 0.5 else None
            if self.lite:
                self.m = AxiLiteMaster(bus, b.clk, rst)
            else:
                kw = {} if self.maxlen == 256 else dict(max_burst_len=self.maxlen)
                self.m = AxiMaster(bus, b.clk, rst, **kw)
            m = self.m
            b.hooks.append(self.model)
            self.check_idle("at start")
            chans = [m.write_if.aw_channel, m.write_if.w_channel, m.write_if.b_channel, m.read_if.ar_channel, m.read_if.r_channel]
            await b.clocks(rng.choice([1, 2, 5]))
            workers = []
            nops = [rng.choice([2, 4, 7, 10])]

            async def worker():
                while nops[0] > 0:
                    nops[0] -= 1
                    k = rng.choice("wr")
                    if rng.random() < 0.15:
                        self.bad(k)
                        if rng.random() < 0.5:
                            await self.badwait(k)
                        continue
                    o = self.gen(k)
                    if rng.random() < 0.5:
                        await self.issue(o)
                    else:
                        workers.append(cocotb.start_soon(self.issue(o)))
                    if rng.random() < 0.4:
                        await b.clocks(rng.randint(1, 12))

            async def waiter(which):
                await b.clocks(rng.randint(0, 30))
                await {"wr": m.wait, "w": m.wait_write, "r": m.wait_read}[which]()
                for k in which:
                    i = (m.write_if if k == "w" else m.read_if).idle()
                    p("C23", i, "wait returned while not idle")

            async def watch():
                while True:
                    await Timer(rng.choice([7, 10, 23]), "ns")
                    self.check_idle("during the run")
                    if pauses and rng.random() < 0.5:
                        c = rng.choice(chans)
                        c.pause = not c.pause

            await Timer(3, "ns")
            cocotb.start_soon(watch())
            ws = [cocotb.start_soon(worker()) for _ in range(rng.choice([1, 1, 2, 3]))]
            wt = [cocotb.start_soon(waiter(rng.choice(["wr", "w", "r"]))) for _ in range(rng.choice([0, 1, 3]))]
            if self.resets:
                for _ in range(rng.randint(1, 2)):
                    await b.clocks(rng.choice([1, 3, 8, 20, 60]))
                    await Timer(rng.choice([1, 3, 6]), "ns")
                    await self.reset()
                    nops[0] += rng.randint(0, 2)
                ws.append(cocotb.start_soon(worker()))

            def unpause():
                nonlocal pauses
                pauses = False
                for c in chans:
                    c.pause = False
            t0 = 0
            for t in ws:
                await t
            i = 0
            while i < len(workers):
                if i > len(workers)-2 and t0 == 0:
                    t0 = 1
                    await b.clocks(20)
                    unpause()
                await workers[i]
                i += 1
            unpause()
            for t in wt:
                await t
            await m.wait()
            await b.clocks(rng.choice([4, 10]))
            await Timer(1, "ns")
            self.check_idle("at the end")
            self.verify(True)
            return "lanes=%d addr=%d id=%d max=%d w=%d r=%d %s" % (self.L, self.A, self.idw, self.maxlen, len(self.ops["w"]), len(self.ops["r"]), "reset" if self.resets else "")

        # pauses end after a while, whatever the operations do
        return b.run(main, "operations do not complete")

    def idles(self):
        return self.m.idle(), self.m.write_if.idle(), self.m.read_if.idle()

    def forget(self):
        """a reset: what was on the bus before it no longer counts"""
        self.epoch_ops = dict(w=[], r=[])
        self.seq = []
        for c in self.b.chans:
            c.log = []
            c.times = []
        self.wb, self.rb = [], []

    def bad(self, kind):
        k, a, arg, kw = self.invalid(kind)
        t = self.target(kind)
        i = self.idles()
        try:
            getattr(t, "init_write" if kind == "w" else "init_read")(a, arg, **kw)
        except Exception:
            pass
        else:
            self.p("C24", False, "an invalid request was accepted", k, a, arg if not isinstance(arg, bytes) else len(arg), kw)
            raise Skip("accepted invalid request")
        self.p("C24 C23", i == self.idles(), "a refused request changed the idle state", k)

    async def badwait(self, kind):
        k, a, arg, kw = self.invalid(kind)
        if k == "event":
            return
        t = self.target(kind)
        i = self.idles()
        self.p("C24", True)
        try:
            co = getattr(t, "write" if kind == "w" else "read")(a, arg, **kw)
            co.send(None)
        except StopIteration:
            pass
        except Exception:
            self.p("C24 C23", i == self.idles(), "a refused request changed the idle state", k)
            return
        self.p("C24", False, "an invalid request was accepted", k, a, arg if not isinstance(arg, bytes) else len(arg), kw)
        raise Skip("accepted invalid request")

    async def reset(self):
        from cocotb.triggers import Timer
        rng, b, p = self.rng, self.b, self.p
        live = self.outstanding("w")+self.outstanding("r")
        kept = [(o, o.res) for k in "wr" for o in self.ops[k] if o.done and hasattr(o, "res") and not o.cancelled]
        for o in live:
            o.cancelled = True
        b.rst.value = 1
        # the operations so far against the transfers so far
        self.verify(False)
        self.forget()
        await Timer(1, "ns")
        for o in live:
            p("C22 C23", o.done, o, "was not released by the reset")
            if hasattr(o, "res"):
                p("C22", o.res is None, o, "cancelled, yet has the result", o.res)
        for o, r in kept:
            p("C22", o.res is r and (not hasattr(o, "ev") or o.ev.data is r), o, "lost its result in a later reset")
        self.check_idle("in reset")
        await b.clocks(rng.randint(1, 5))
        await Timer(rng.choice([1, 3]), "ns")
        b.rst.value = 0
        for o, r in kept:
            p("C22", not hasattr(o, "ev") or o.ev.data is r, o, "lost its result in a later reset")


def master(prop, lite, resets, rng):
    return MasterRun(prop, rng, lite, resets).run()


for _lite, _props in (False, ["C01", "C02", "C03", "C04", "C20", "C23", "C24"]), (True, ["C05", "C20", "C23", "C24"]):
    for _p in _props:
        suite(_p, "%s master runs" % ("AXI-Lite" if _lite else "AXI"), quick=120, thorough=4000,
              rule="random bus configuration (width, optional signals, burst limit), concurrent operations of every form and validity, random ready/valid timing, response order, errors and user values")(
            functools.partial(master, _p, _lite, False))
for _lite in False, True:
    for _p in ["C22", "C23", "C05" if _lite else "C04"]:
        suite(_p, "%s master resets" % ("AXI-Lite" if _lite else "AXI"), quick=100, thorough=4000,
              rule="as the master runs, with one or two resets of the bus at random times")(
            functools.partial(master, _p, _lite, True))
