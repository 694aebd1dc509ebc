"""native cross-check of generic streams and AXI streams on the kernel stand-in with the real cocotb"""
import functools
from busmodel import BusSim, Chan, P, val
from suite import suite


class StreamRun:
    def __init__(self, prop, rng, what):
        self.p = P(prop)
        self.rng, self.what = rng, what
        self.b = BusSim(self.p, rng)
        self.gen = False

    def pauser(self, objs, prob=0.4):
        """pauses and resumes in mid-cycle; ends with everything resumed"""
        rng, b = self.rng, self.b

        async def run():
            from cocotb.triggers import Timer
            if rng.random() < prob:
                for _ in range(rng.randint(1, 40)):
                    await b.clocks(rng.randint(1, 5))
                    await Timer(rng.choice([1, 3, 6]), "ns")
                    o = rng.choice(objs)
                    o.pause = not o.pause
            elif rng.random() < 0.3:
                self.gen = True     # the generator acts at the edge itself, in no fixed order with the source
                pat = [rng.random() < 0.5 for _ in range(rng.randint(1, 20))]+[False]
                for o in objs:
                    o.set_pause_generator(iter(pat))
                await b.clocks(len(pat)+2)
                for o in objs:
                    o.clear_pause_generator()
            for o in objs:
                o.pause = False
        return run()

    def run(self):
        return self.b.run(getattr(self, self.what), "items are not transferred")

    def make(self):
        from cocotbext.axi.stream import define_stream
        rng = self.rng
        sig = ["data", "user", "valid", "ready"]
        opt = ["extra"] if rng.random() < 0.5 else None
        return define_stream("T", signals=sig, optional_signals=opt)

    # generic source ------------------------------------------------------------------------------------------
    async def source(self):
        import cocotb
        from cocotb.queue import QueueFull
        from cocotb.triggers import Timer
        rng, b, p = self.rng, self.b, self.p
        w = dict(data=rng.choice([1, 8, 32]), user=4, valid=1, ready=1)
        if rng.random() < 0.5:
            w["extra"] = 3
        b.add("t", w, ["ready"])
        Bus, Tr, Source, Sink, Mon = self.make()
        fields = [x for x in ("data", "user", "extra") if x in w and (x != "extra" or "extra" in Tr._signals)]
        ch = Chan(b, "", fields, False)
        b.chans = [ch]
        b.start()
        rst = b.rst if rng.random() < 0.5 else None
        s = Source(Bus.from_prefix(b.sim.entity, "t"), b.clk, rst)
        s.queue_occupancy_limit = rng.choice([-1, -1, 1, 2, 5])
        sent = []
        st = dict(pause=False, busy=False)

        def hook(in_reset):
            v, r = val(b.sig("valid")), val(b.sig("ready"))
            if v and not st["busy"]:
                p("C20", not st["pause"] or self.gen, "a transfer was started while paused")
            st["busy"] = bool(v and not r)
            st["pause"] = bool(s.pause)
        b.hooks.append(hook)
        cocotb.start_soon(self.pauser([s]))
        total = rng.randint(1, 14)

        async def feed():
            for i in range(total):
                t = Tr(**{x: rng.getrandbits(w[x]) for x in fields})
                item = {x: int(getattr(t, x)) for x in fields}
                if rng.random() < 0.5:
                    await s.send(t)
                else:
                    while True:
                        n = s.count()
                        try:
                            s.send_nowait(t)
                        except QueueFull:
                            p("C20", s.queue_occupancy_limit > 0 and n >= s.queue_occupancy_limit and s.full(), "a source that is not full refused an item")
                            await b.clocks(1)
                            continue
                        p("C20", s.queue_occupancy_limit <= 0 or n < s.queue_occupancy_limit, "a full source took an item")
                        break
                sent.append(item)
                p("C20", s.queue_occupancy_limit <= 0 or s.count() <= s.queue_occupancy_limit, "more items than the limit")
                if rng.random() < 0.5:
                    await b.clocks(rng.randint(0, 6))
                if rng.random() < 0.1:
                    await Timer(3, "ns")
        await feed()
        while len(ch.log) < len(sent):
            p("C20", ch.log == sent[:len(ch.log)], "transferred", ch.log[-2:], "expected", sent[:len(ch.log)][-2:])
            await b.clocks(1)
        await s.wait()
        await b.clocks(3)
        p("C20", ch.log == sent, "transferred", ch.log, "expected", sent)
        p("C20", val(b.sig("valid")) == 0, "valid with nothing to send")
        p("C20", s.idle() and s.empty() and s.count() == 0, "not idle after everything was sent")
        return "n=%d limit=%d %s" % (total, s.queue_occupancy_limit, sorted(w))

    # generic sink and monitor --------------------------------------------------------------------------------
    async def sink(self):
        import cocotb
        from cocotb.triggers import Timer
        from cocotb.queue import QueueEmpty
        rng, b, p = self.rng, self.b, self.p
        w = dict(data=rng.choice([1, 8, 32]), user=4, valid=1, ready=1)
        if rng.random() < 0.5:
            w["extra"] = 3
        b.add("t", w, ["valid", "data", "user", "extra"])
        Bus, Tr, Source, Sink, Mon = self.make()
        fields = [x for x in ("data", "user", "extra") if x in w and (x != "extra" or "extra" in Tr._signals)]
        ch = Chan(b, "", fields, True)
        b.chans = [ch]
        b.start()
        bus = Bus.from_prefix(b.sim.entity, "t")
        rst = b.rst if rng.random() < 0.5 else None
        s = Sink(bus, b.clk, rst)
        m = Mon(bus, b.clk, rst)
        lim = s.queue_occupancy_limit = rng.choice([-1, -1, 1, 2, 5])
        hist = []

        def hook(in_reset):
            r = val(b.sig("ready"))
            if len(hist) >= 2 and hist[-1] and hist[-2]:
                p("C21", not r, "ready although paused")
            if lim > 0:
                p("C21", s.count() <= lim, "more items than the limit", s.count())
            hist.append(bool(s.pause))
        b.hooks.append(hook)
        cocotb.start_soon(self.pauser([s]))
        total = rng.randint(1, 20)
        got, mon = [], []

        def item(t):
            return {x: int(getattr(t, x)) for x in fields}

        async def drain():
            while len(got) < total:
                k = rng.random()
                if k < 0.4:
                    got.append(item(await s.recv()))
                elif k < 0.7:
                    try:
                        got.append(item(s.recv_nowait()))
                    except QueueEmpty:
                        p("C21", s.empty(), "no item although not empty")
                elif k < 0.8:
                    await s.wait()
                    p("C21", not s.empty(), "wait returned with nothing received")
                if rng.random() < 0.5:
                    await b.clocks(rng.randint(0, 8))
        d = cocotb.start_soon(drain())
        for i in range(total):
            ch.queue.append({x: rng.getrandbits(w[x]) for x in fields})
            if rng.random() < 0.4:
                await b.clocks(rng.randint(0, 8))
        await d
        await b.clocks(2)
        while not m.empty():
            mon.append(item(m.recv_nowait()))
        p("C21", len(ch.log) == total, "transfers", len(ch.log), "of", total)
        p("C21", got == ch.log, "sink got", got, "transferred", ch.log)
        p("C21", mon == ch.log, "monitor got", mon, "transferred", ch.log)
        p("C21", s.empty() and s.count() == 0, "items left over")
        return "n=%d limit=%d %s" % (total, lim, sorted(w))

    # AXI stream ----------------------------------------------------------------------------------------------
    def axis(self, mine):
        rng, b = self.rng, self.b
        lanes = rng.choice([1, 1, 2, 3, 4, 8, 16])
        bs = rng.choice([8, 8, 8, 1, 4, 9, 16])
        w = dict(tdata=lanes*bs)
        keep = rng.random() < 0.6
        opt = dict(tvalid=1, tready=1, tlast=1, tid=4, tdest=5, tuser=rng.choice([1, 8, 16]))
        for k, v in opt.items():
            if rng.random() < 0.85 or k in ("tvalid", "tready"):
                w[k] = v
        kw = {}
        if keep:
            w["tkeep"] = lanes
        elif bs != 8 or rng.random() < 0.3:
            kw = rng.choice([dict(byte_size=bs), dict(byte_lanes=lanes)])
        b.add("s", w, ["tready"] if not mine else [x for x in w if x != "tready"])
        f = [x[1:] for x in ("tdata", "tkeep", "tlast", "tid", "tdest", "tuser") if x in w]
        ch = Chan(b, "t", f, mine)
        b.chans = [ch]
        return lanes, bs, w, kw, ch

    def frame(self, lanes, bs, w):
        """(frame object, the beats it stands for)"""
        from cocotbext.axi import AxiStreamFrame
        rng = self.rng
        n = rng.choice([1, lanes, lanes+1, rng.randint(1, 4*lanes), rng.randint(1, 70)])
        if bs == 8:
            data = [rng.getrandbits(8) for _ in range(n)]
            d = rng.choice([bytes, bytearray])(data)
        else:
            data = [rng.getrandbits(bs) for _ in range(n)]
            d = list(data)
        nb = -(-n//lanes)
        side = {}
        keep = [1]*n
        if "tkeep" in w and rng.random() < 0.4:
            keep = [rng.getrandbits(1) for _ in range(n)]
            side["tkeep"] = list(keep)
        vals = {}
        for x in "tid", "tdest", "tuser":
            vals[x] = [0]*nb
            if x in w and rng.random() < 0.7:
                k = rng.random()
                m = w[x]
                if k < 0.4:
                    v = rng.getrandbits(m)
                    side[x] = v
                    vals[x] = [v]*nb
                else:
                    vals[x] = [rng.getrandbits(m) for _ in range(nb)]
                    full = [vals[x][i//lanes] for i in range(n)]
                    if k < 0.6:
                        # a shorter list goes on with its last value
                        cut = rng.randint(1, nb)
                        vals[x] = vals[x][:cut]+[vals[x][cut-1]]*(nb-cut)
                        full = full[:min(n, (cut-1)*lanes+1)]
                    side[x] = full
        beats = []
        for i in range(nb):
            part = data[i*lanes:(i+1)*lanes]
            kp = keep[i*lanes:(i+1)*lanes]
            t = dict(data=part, keep=sum(x << j for j, x in enumerate(kp)), last=int(i == nb-1),
                     id=vals["tid"][i], dest=vals["tdest"][i], user=vals["tuser"][i])
            beats.append(t)
        return AxiStreamFrame(d, **side), beats, n, (d if not side else None)

    async def axis_source(self, resets=False):
        import cocotb
        from cocotb.queue import QueueFull
        from cocotb.triggers import Event, Timer
        import cocotbext.axi as ca
        rng, b, p = self.rng, self.b, self.p
        lanes, bs, w, kw, ch = self.axis(False)
        b.start()
        rst = b.rst if resets or rng.random() < 0.5 else None
        s = ca.AxiStreamSource(ca.AxiStreamBus.from_prefix(b.sim.entity, "s"), b.clk, rst, **kw)
        lf, lb = rng.choice([-1, -1, 1, 3]), rng.choice([-1, -1, 1, 8, 40])
        s.queue_occupancy_limit_frames, s.queue_occupancy_limit_bytes = lf, lb
        sent = []       # (beats, size, completions)
        st = dict(pause=False, busy=False, active=False)

        def hook(in_reset):
            v, r = val(b.sig("tvalid")), val(b.sig("tready"))
            if val(b.rst):
                p("C22 C18 C20", v == 0, "valid in reset")
            if v and not st["busy"] and not in_reset:
                p("C20", not st["pause"] or self.gen, "a transfer was started while paused")
            st["busy"] = bool(v and not r)
            st["pause"] = bool(s.pause)
        b.hooks.append(hook)
        cocotb.start_soon(self.pauser([s]))

        def occupancy():
            n = s.count()
            p("C26", s.queue_occupancy_frames == n, "reported frames", s.queue_occupancy_frames, "waiting", n)
            want = sum(x[1] for x in sent[len(sent)-n:]) if n else 0
            p("C26", s.queue_occupancy_bytes == want, "reported bytes", s.queue_occupancy_bytes, "waiting", want)
            p("C26", s.empty() == (n == 0), "empty")
            full = (lf > 0 and n > lf) or (lb > 0 and want > lb)
            p("C26", s.full() == full, "full is", s.full(), "with", n, "frames and", want, "bytes")

        async def watch():
            while True:
                await Timer(10, "ns")
                occupancy()
                # nothing is complete before its last beat is on the bus
                done = max([0]+[i+1 for i, x in enumerate(sent) if x[2]])
                if not resets:
                    k = len(ch.log)+(1 if val(b.sig("tvalid")) else 0)
                    p("C18", sum(len(x[0]) for x in sent[:done]) <= k, "completion before the last beat is on the bus")
                for x in sent:
                    p("C18", len(x[2] or ()) <= 1, "a completion fired", len(x[2] or ()), "times")
        await Timer(3, "ns")
        cocotb.start_soon(watch())

        async def feed(total):
            for i in range(total):
                f, beats, n, raw = self.frame(lanes, bs, w)
                done = []
                arg = f
                if raw is not None and rng.random() < 0.5:
                    arg = raw
                    done = None
                elif rng.random() < 0.3:
                    ev = Event()
                    old = ev.set

                    def fire(data=None, done=done, old=old):
                        done.append(data)
                        old(data)
                    ev.set = fire
                    f.tx_complete = ev
                else:
                    f.tx_complete = done.append
                rec = [beats, n, done]
                before = s.full()
                k = rng.random()
                if k < 0.6:
                    if rng.random() < 0.5 and arg is raw:
                        await s.write(arg)
                    else:
                        await s.send(arg)
                else:
                    while True:
                        before = s.full()
                        try:
                            (s.write_nowait if arg is raw and rng.random() < 0.5 else s.send_nowait)(arg)
                        except QueueFull:
                            p("C26", before, "a source that is not full refused a frame")
                            await b.clocks(1)
                            continue
                        p("C26", not before, "a full source took a frame")
                        break
                sent.append(rec)
                occupancy()
                if isinstance(arg, bytearray):
                    arg[:] = bytes(len(arg))        # the caller may go on using its buffer
                if rng.random() < 0.4:
                    await b.clocks(rng.randint(0, 10))
                    await Timer(3, "ns")

        def compare(log, want, whole):
            p("C18 C20", len(log) <= len(want) and (not whole or len(log) == len(want)), "beats", len(log), "expected", len(want))
            for i, (t, e) in enumerate(zip(log, want)):
                for j, x in enumerate(e["data"]):
                    p("C18", t["data"] >> j*bs & (2**bs-1) == x, "beat", i, "lane", j, "data", hex(t["data"]), "expected", hex(x))
                for x in "keep", "last", "id", "dest", "user":
                    if x in t:
                        p("C18", t[x] == e[x], "beat", i, x, t[x], "expected", e[x])
        base = []
        if resets:
            for _ in range(rng.randint(1, 2)):
                fd = cocotb.start_soon(feed(rng.randint(1, 4)))
                await b.clocks(rng.randint(1, 25))
                await Timer(rng.choice([1, 3, 6]), "ns")
                fd.kill()
                want = [t for x in base+sent for t in x[0]]
                compare(ch.log, want, False)
                b.rst.value = 1
                await Timer(1, "ns")
                n = s.count()
                keep = sent[len(sent)-n:] if n else []
                for x in sent[:len(sent)-n]:
                    p("C18 C22", x[2] is None or len(x[2] or ()) == 1, "completion of a flushed frame fired", len(x[2] or ()), "times")
                if rng.random() < 0.3:
                    s.clear()
                    keep = []
                    p("C26", s.queue_occupancy_bytes == 0 and s.queue_occupancy_frames == 0 and s.empty(), "occupancy after clear")
                sent = list(keep)
                ch.log = []
                ch.times = []
                await b.clocks(rng.randint(1, 4))
                await Timer(rng.choice([1, 3]), "ns")
                occupancy()
                ch.log = []
                b.rst.value = 0
        await feed(rng.randint(1, 6))
        want = [t for x in sent for t in x[0]]
        while len(ch.log) < len(want):
            await b.clocks(1)
        await s.wait()
        await b.clocks(3)
        await Timer(1, "ns")
        compare(ch.log, want, True)
        p("C18 C20", val(b.sig("tvalid")) == 0, "valid with nothing to send")
        for x in sent:
            p("C18", x[2] is None or len(x[2] or ()) == 1, "a completion fired", len(x[2] or ()), "times")
        p("C18 C26", s.idle() and s.empty(), "not idle at the end")
        occupancy()
        return "lanes=%d size=%d frames=%d limits=%d,%d %s" % (lanes, bs, len(sent), lf, lb, sorted(w))

    async def axis_source_reset(self):
        return await self.axis_source(True)

    async def axis_sink(self, resets=False):
        import cocotb
        from cocotb.queue import QueueEmpty
        from cocotb.triggers import Timer
        import cocotbext.axi as ca
        rng, b, p = self.rng, self.b, self.p
        lanes, bs, w, kw, ch = self.axis(True)
        b.start()
        bus = ca.AxiStreamBus.from_prefix(b.sim.entity, "s")
        rst = b.rst if resets or rng.random() < 0.5 else None
        s = ca.AxiStreamSink(bus, b.clk, rst, **kw)
        m = ca.AxiStreamMonitor(bus, b.clk, rst, **kw)
        lf, lb = rng.choice([-1, -1, 1, 3]), rng.choice([-1, -1, 1, 8, 40])
        s.queue_occupancy_limit_frames, s.queue_occupancy_limit_bytes = lf, lb
        hist = []
        frames = []         # what was transferred: dicts of per-byte lists
        cur = []
        sizes = []
        st = dict(taken=0, dirty=False, mdirty=False)

        def full():
            n = len(frames)-st["taken"]
            k = sum(sizes[st["taken"]:len(frames)])
            return (lf > 0 and n > lf) or (lb > 0 and k > lb)

        def hook(in_reset):
            r = val(b.sig("tready"))
            if val(b.rst):
                p("C22 C21", r == 0, "ready in reset")
            if len(hist) >= 2 and all(hist[-2:]):
                p("C21", not r, "ready although paused")
            if len(hist) >= 1 and st.get("full"):
                p("C26 C21", not r, "ready although the queue has reached the limit")
            hist.append(bool(s.pause))
            v = val(b.sig("tvalid"))
            if in_reset:
                cur.clear()
            elif v and r:
                cur.append(ch.sample())
                if "last" not in cur[-1] or cur[-1]["last"]:
                    f = {x: [] for x in ("data", "keep", "id", "dest", "user")}
                    for t in cur:
                        for j in range(lanes):
                            f["data"].append(t["data"] >> j*bs & (2**bs-1))
                            f["keep"].append(t["keep"] >> j & 1 if "keep" in t else 1)
                            for x in "id", "dest", "user":
                                f[x].append(t.get(x, 0))
                    frames.append(f)
                    sizes.append(len(f["data"]))
                    cur.clear()
            st["full"] = full()
        b.hooks.append(hook)
        cocotb.start_soon(self.pauser([s]))

        def same(f, e, compact, who):
            keep = [i for i, x in enumerate(e["keep"]) if x or not compact]
            d = [e["data"][i] for i in keep]
            p("C19", list(f.tdata) == d, who, "data", list(f.tdata)[:20], "expected", d[:20])
            p("C19", (type(f.tdata) is bytearray) == (bs == 8), who, "type of the data", type(f.tdata))
            for x in "id", "dest", "user":
                g = getattr(f, "t"+x)
                v = [e[x][i] for i in keep]
                if "t"+x in w:
                    if compact and len(set(v)) == 1 and isinstance(g, int):
                        g = [g]*len(v)
                    if compact and not v:
                        continue
                    p("C19", g is None and compact and not any(v) or g is not None and list(g) == v, who, x, g, "expected", v[:20])

        def occupancy():
            n = s.count()
            p("C26", s.queue_occupancy_frames == n, "reported frames", s.queue_occupancy_frames, "waiting", n)
            k = sum(sizes[st["taken"]:st["taken"]+n])
            p("C26 C19", n == len(frames)-st["taken"], "waiting", n, "expected", len(frames)-st["taken"])
            p("C26", s.queue_occupancy_bytes == k, "reported bytes", s.queue_occupancy_bytes, "waiting", k)
            p("C26", s.full() == ((lf > 0 and n > lf) or (lb > 0 and k > lb)), "full is", s.full(), "with", n, "frames", k, "bytes")
            p("C26", m.queue_occupancy_frames == m.count(), "monitor frames")

        async def watch():
            while True:
                await Timer(10, "ns")
                occupancy()

        async def drain():
            rest = []
            while True:
                k = rng.random()
                compact = rng.random() < 0.6
                if k < 0.35:
                    f = await s.recv(compact)
                    same(f, frames[st["taken"]], compact, "sink")
                    st["taken"] += 1
                elif k < 0.6:
                    try:
                        f = s.recv_nowait(compact)
                    except QueueEmpty:
                        p("C19", len(frames) == st["taken"], "nothing received")
                    else:
                        same(f, frames[st["taken"]], compact, "sink")
                        st["taken"] += 1
                elif k < 0.75:
                    c = rng.choice([-1, 0, 1, 3, 1000])
                    n = s.count()
                    for e in frames[st["taken"]:st["taken"]+n]:
                        rest += [x for x, q in zip(e["data"], e["keep"]) if q]
                    d = s.read_nowait(c)
                    st["taken"] += n
                    want = rest if c < 0 else rest[:c]
                    p("C19", list(d) == want, "read", list(d)[:20], "expected", want[:20])
                    del rest[:len(want)]
                elif k < 0.8:
                    await s.wait()
                    p("C19", not s.empty(), "wait returned with nothing received")
                occupancy()
                if rng.random() < 0.6:
                    await b.clocks(rng.randint(1, 8))
                    await Timer(2, "ns")
        await Timer(3, "ns")
        cocotb.start_soon(watch())
        total = [0]

        def put(n):
            for _ in range(n):
                ln = rng.choice([1, 1, 2, rng.randint(1, 6)])
                v = {x: rng.getrandbits(w["t"+x]) for x in ("id", "dest", "user") if "t"+x in w}
                for i in range(ln):
                    t = dict(data=rng.getrandbits(lanes*bs), last=int(i == ln-1), **v)
                    if "tkeep" in w:
                        t["keep"] = rng.choice([2**lanes-1, rng.getrandbits(lanes), 2**rng.randint(0, lanes)-1])
                    if rng.random() < 0.3:
                        v = {x: rng.getrandbits(w["t"+x]) for x in v}
                    ch.queue.append(t)
                    total[0] += 1
        d = cocotb.start_soon(drain())
        if resets:
            for _ in range(rng.randint(1, 2)):
                put(rng.randint(1, 4))
                await b.clocks(rng.randint(1, 20))
                await Timer(rng.choice([1, 3, 6]), "ns")
                b.rst.value = 1
                await b.clocks(rng.randint(1, 4))
                await Timer(rng.choice([1, 3]), "ns")
                ch.queue.clear()
                b.rst.value = 0
                await b.clocks(2)
        put(rng.randint(1, 8))
        while ch.queue or ch.cur:
            await b.clocks(1)
        await b.clocks(5)
        await Timer(1, "ns")
        d.kill()
        occupancy()
        if rng.random() < 0.3:
            s.clear()
            p("C26", s.queue_occupancy_bytes == 0 and s.queue_occupancy_frames == 0 and s.empty(), "occupancy after clear")
            st["taken"] = len(frames)
        while not s.empty():
            same(s.recv_nowait(False), frames[st["taken"]], False, "sink")
            st["taken"] += 1
        p("C19", st["taken"] == len(frames), "frames left", len(frames)-st["taken"])
        k = 0
        while not m.empty():
            p("C19", k < len(frames), "the monitor has extra frames")
            compact = rng.random() < 0.5
            same(m.recv_nowait(compact), frames[k], compact, "monitor")
            k += 1
        p("C19", k == len(frames), "the monitor has", k, "of", len(frames), "frames")
        p("C26", m.queue_occupancy_bytes == 0 and m.queue_occupancy_frames == 0, "monitor occupancy")
        if st["taken"] and rng.random() < 0.5:
            # everything drained: it accepts again
            n = len(ch.log)
            put(1)
            while len(ch.log) == n:
                await b.clocks(1)
        return "lanes=%d size=%d frames=%d limits=%d,%d %s" % (lanes, bs, len(frames), lf, lb, sorted(w))

    async def axis_sink_reset(self):
        return await self.axis_sink(True)


def case(prop, what, rng):
    return StreamRun(prop, rng, what).run()


for _p, _w, _n, _t, _r in [
        ("C20", "source", "stream source runs", 200, "random items, limits, pauses and ready timing"),
        ("C21", "sink", "stream sink and monitor runs", 200, "random items, gaps, limits, pauses and draining"),
        ("C18 C20 C26", "axis_source", "AXI stream source runs", 200, "random lanes, byte sizes, signals, frames, side-bands, limits, pauses, ready timing"),
        ("C18 C22 C26", "axis_source_reset", "AXI stream source resets", 150, "as the source runs, with resets at random times"),
        ("C19 C21 C26", "axis_sink", "AXI stream sink and monitor runs", 200, "random lanes, byte sizes, signals, beats, gaps, limits, pauses and ways of draining"),
        ("C19 C22 C26", "axis_sink_reset", "AXI stream sink and monitor resets", 150, "as the sink runs, with resets at random times")]:
    for _q in _p.split():
        suite(_q, _n, quick=_t, thorough=5000, rule=_r)(functools.partial(case, _q, _w))
