"""C05 (C22, C23): AXI-Lite masters"""
from chan import *      # noqa
from unit import unit
from u_stream import STEPS
from u_axis import lane
from u_apb import Cmds, CmdRef
from u_slave import counted
from cocotbext.axi import axil_master as M
from cocotbext.axi.constants import AxiResp


class Ops(Cmds):
    """the commands, numbered in issue order"""

    def kind(self, write):
        self.wcls, self.rcls = (M.AxiLiteWriteCmd, None) if write else (None, M.AxiLiteReadCmd)
        if self.ctx.mode == "sym":
            self.W = lambda k: None

    def get(self, n, k):
        if n == "W":
            return self.kinds[0]
        return super().get(n, k)


def request_unit(ctx, write, lanes, strb):
    cls = M.AxiLiteMasterWrite if write else M.AxiLiteMasterRead
    o = ctx.new_obj(cls)
    g = ctx.ghost
    step = counted(ctx, 6*STEPS)
    ops = Ops(ctx, lanes, kinds=(1,) if write else (0,))
    ops.kind(write)
    p, cur, rq = ("aw", "current_write_command", "int_write_resp_command_queue") if write else ("ar", "current_read_command", "int_read_resp_command_queue")
    rcls = M.AxiLiteWriteRespCmd if write else M.AxiLiteReadRespCmd
    # the command in progress: its number; queued for its responses; accesses announced and words sent so far
    g.has = g.cmd = g.queued = g.a = g.b = g.moved = g.moved0 = 0

    def n_():
        return ops.beats(g.cmd)

    def finished():
        return Or(g.has == 0, And(g.queued == 1, g.a == n_(), Or(not write, g.b == n_())))

    def on_get(k):
        ctx.prove(finished(), "a command is only taken when all accesses of the one before were issued")
        ctx.prove(o.fields[cur] is None, "the command before is not in progress any more")
        g.has, g.cmd, g.queued, g.a, g.b, g.moved, g.moved0 = 1, k, 0, 0, 0, 0, 0
        if write:
            ctx.refs["data"] = SSeq("bytes", n=1 << 60, f=lambda i: ops.byte("D", k, i), elem_bits=8)
    q = Q(ctx, "q", ops.make, get=on_get)
    q.on_wait = lambda qq: suspend(True)
    g.G0 = q.G

    def on_put(_k, x):
        k = g.cmd
        ctx.prove(And(g.has == 1, g.queued == 0), "every command is queued for its responses once")
        ctx.prove(E._isinstance(ctx, x, rcls), "the response process gets a response command")
        ctx.prove(getattr_(ctx, x, "address") == ops.get("A", k), "the response process knows the address")
        ctx.prove(getattr_(ctx, x, "length") == ops.get("L", k), "the response process knows the length")
        ctx.prove(getattr_(ctx, x, "cycles") == ops.beats(k), "the response process expects one response per access")
        ev = getattr_(ctx, x, "event")
        ctx.prove(ev.k == k, "the response process completes the operation itself")
        g.queued = 1
    rqueue = Q(ctx, "rq", item=lambda k: k, put=on_put)

    def suspend(waiting=False):
        # a reset may come now: the command taken must be known to it
        c = o.fields[cur]
        ctx.prove(Or(g.has == 0, g.queued == 1, False if c is None else c.k == g.cmd), "the command in progress is known to the reset")
        step()
        env_put(ctx, q)

    def send_a(v):
        k, i = g.cmd, g.a
        a, off = ops.get("A", k), ops.off(k)
        ctx.prove(And(g.has == 1, i < n_()), "as many accesses are issued as the range has words")
        ctx.prove(v[p+"addr"] == ite(i == 0, a, a-off+i*lanes), "the words are accessed in ascending order")
        if p+"prot" in v:
            ctx.prove(v[p+"prot"] == ops.get("P", k), "the requested protection is used")
        g.a = i+1

    def send_w(v):
        k, i = g.cmd, g.b
        off, L = ops.off(k), ops.get("L", k)
        ctx.prove(And(g.has == 1, i < n_()), "as many words are sent as the range has")
        for j in range(lanes):
            x = i*lanes+j-off
            inr = And(x >= 0, x < L)
            if strb:
                ctx.prove(lane(v["wstrb"], 1, j) == ite(inr, 1, 0), "lane %d is strobed exactly for requested bytes" % j)
            ctx.prove(Implies(inr, lane(v["wdata"], 8, j) == ops.byte("D", k, x)), "lane %d carries its byte" % j)
        g.b = i+1
        g.moved = ite(g.b == n_(), L, g.b*lanes-off)
        if truth(ctx, g.b == n_()):
            ctx.cover("sent")
    ach = Tx(ctx, p, {p+"addr": 32, p+"prot": 3}, suspend, send_a)
    o.fields.update(log=Log(), address_width=32, width=8*lanes, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, **{p+"_channel": ach, rq: rqueue, cur: None})
    if write:
        o.fields.update(write_command_queue=q, wstrb_present=bool(strb),
                        w_channel=Tx(ctx, "w", dict(wdata=("data", lanes, 8), **(dict(wstrb=("data", lanes, 1)) if strb else {})), suspend, send_w))
    else:
        o.fields.update(read_command_queue=q)

    def hints():
        n = n_()
        c = o.fields[cur]
        return {"finished": finished(), "queue": And(q.P >= q.G, q.G >= 0), "none": c is None, "order": Implies(g.has == 1, q.G == g.cmd+1),
                "one": And(g.has == 1, g.queued == 1, g.a >= 0, g.a <= n), "sync": g.a == g.b if write else g.b == 0,
                "bytes moved": g.moved == ite(g.b == 0, 0, ite(g.b == n, ops.get("L", g.cmd), g.b*lanes-ops.off(g.cmd))),
                "current": False if c is None else c.k == g.cmd}
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:cmd", "G:queued", "G:a", "G:b", "G:moved", "S:ref:data")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "len:self", "it."))
    ctx.focus_data = lambda n: not n.startswith(("G:", "self.")) or n == "G:moved" or n.startswith(("S:", "W:"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write" if write else "_process_read"), [], {}))


@unit(("C05", "C22"), "AxiLiteMasterWrite._process_write", quick=[dict(lanes=l, strb=1) for l in (1, 2, 4)]+[dict(lanes=2, strb=0)],
      thorough=[dict(lanes=l, strb=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, forever=True, covers=("sent",), budget=400)
def _(ctx, lanes, strb):
    request_unit(ctx, True, lanes, strb)


@unit(("C05", "C22"), "AxiLiteMasterRead._process_read", quick=[dict(lanes=l) for l in (1, 2, 4, 8)],
      thorough=[dict(lanes=l) for l in (1, 2, 4, 8, 16, 32)], samples=40, forever=True, budget=400)
def _(ctx, lanes):
    request_unit(ctx, False, lanes, 0)


class RespCmd(Contract):
    """what the response process is told about operation k (see the request processes)"""

    def __init__(self, k):
        self.__dict__["k"] = k

    def vkind(self):
        return RespCmd

    def vargs(self):
        return (self.k,)

    def pool(self):
        return {"k": self.k}

    def truth(self):
        return True
    w = property(lambda s: CTX[0].world)
    address = property(lambda s: s.w.get("A", s.k))
    length = property(lambda s: s.w.get("L", s.k))
    cycles = property(lambda s: s.w.beats(s.k))
    prot = property(lambda s: s.w.get("P", s.k))
    event = property(lambda s: CmdRef(s.k).event)


class RChan(Rx):
    """response beats; the data of beat i of operation k are the bytes the slave presents for that word"""

    def get(self, n, k):
        if n != "rdata":
            return super().get(n, k)
        ctx = self.ctx
        g, ops = ctx.ghost, ctx.world
        ctx.prove(k == self.G-1, "a response is used until the next one is taken")
        c, base = g.cmd, (g.got-1)*ops.lanes-ops.off(g.cmd)
        if ctx.mode == "conc":
            return sum(ops.byte("R", c, base+j) << 8*j for j in range(ops.lanes))
        return Wide(8, ops.lanes, lambda j: ops.byte("R", c, base+j))


def response_unit(ctx, write, lanes, opt):
    cls = M.AxiLiteMasterWrite if write else M.AxiLiteMasterRead
    o = ctx.new_obj(cls)
    g = ctx.ghost
    step = counted(ctx, 6*STEPS)
    ops = Ops(ctx, lanes, kinds=(1,) if write else (0,))
    ops.kind(write)
    p, cur, rq = ("b", "current_write_resp_command", "int_write_resp_command_queue") if write else ("r", "current_read_resp_command", "int_read_resp_command_queue")
    rcls = M.AxiLiteWriteResp if write else M.AxiLiteReadResp
    # err: the last error, err1: the first one, errm: the greatest one; any of them may be reported
    g.has = g.cmd = g.got = g.err = g.err1 = g.errm = g.moved = 0

    def n_():
        return ops.beats(g.cmd)

    def on_get(k):
        ctx.prove(g.has == 0, "responses are only awaited when the operation before is completed")
        g.has, g.cmd, g.got, g.err, g.err1, g.errm, g.moved = 1, k, 0, 0, 0, 0, 0
        if not write:
            ctx.refs["read"] = SSeq("bytes", n=1 << 60, f=lambda i: ops.byte("R", k, i), elem_bits=8)
    q = Q(ctx, "q", item=RespCmd, get=on_get)
    q.on_wait = lambda qq: suspend()

    def on_recv(_k):
        ctx.prove(And(g.has == 1, g.got < n_()), "as many responses are taken as accesses were made")
        g.got = g.got+1
        g.moved = ite(g.got == n_(), ops.get("L", g.cmd), g.got*lanes-ops.off(g.cmd))
        if opt:
            r = ch.get(p+"resp", _k)
            g.err1 = ite(g.err != 0, g.err1, r)
            g.err = ite(r != 0, r, g.err)
            g.errm = smax(g.errm, r)

    def gen(k, d):
        d[p+"resp"] = ctx.rng.choice((0, 0, 2, 3)) if opt else 0
    ch = RChan(ctx, p, {p+"resp": 2 if opt else 0, **({} if write else dict(rdata=("data", lanes, 8)))}, lambda: suspend(), on_recv, gen=gen,
               axioms=lambda n, k, e: ctx.axiom(e != 1) if n == p+"resp" else None)

    def complete(k, resp):
        ctx.prove(And(g.has == 1, k == g.cmd), "only the operation in progress completes, once")
        ctx.prove(g.got == n_(), "an operation completes when all of its accesses were answered")
        g.has = 0
        g.out = g.out-1
        ctx.prove(E._isinstance(ctx, resp, rcls), "the result is of the kind requested")
        ctx.prove(getattr_(ctx, resp, "address") == ops.get("A", k), "the result reports the requested address")
        r = toint(getattr_(ctx, resp, "resp"))
        ctx.prove(ite(g.err != 0, Or(r == 2, r == 3), r == 0), "an error is reported exactly when an access returned one")
        L = ops.get("L", k)
        if write:
            ctx.prove(getattr_(ctx, resp, "length") == L, "the result reports the number of bytes written")
        else:
            d = getattr_(ctx, resp, "data")
            ctx.prove(isinstance(d, SSeq) and d.kind == "bytes", "the data is bytes")
            ctx.prove(d.n == L, "as many bytes are returned as requested")
            i = ctx.fresh_int("i", 0, sample=lambda r: r.randint(0, 20))
            if truth(ctx, i < L):
                ctx.prove(d.at(i) == ops.byte("R", k, i), "every byte returned is the one presented for its address")
        ctx.cover("completed")
    ops.complete = complete

    def spec():
        c = o.fields[cur]
        return {"operations in flight": And(o.fields["in_flight_operations"] == g.out, g.out >= q.P-q.G+g.has),
                "idle exactly when nothing is outstanding": Iff(idle.state != 0, g.out == 0),
                "the operation in progress is known to the reset": (g.has == 0) if c is None else And(g.has == 1, c.k == g.cmd),
                "queue": And(q.P >= q.G, q.G >= 0, Or(g.has == 0, g.has == 1))}

    def suspend():
        ctx.prove_all(spec)
        step()
        more = ctx.fresh_int("issued", 0, None if ctx.mode == "sym" else 2)
        g.out = g.out+more
        idle.put(ite(more > 0, 0, idle.state))
        E.setattr_(ctx, o, "in_flight_operations", o.fields["in_flight_operations"]+more)
        put = ctx.fresh_int("put", 0, None if ctx.mode == "sym" else 2)
        ctx.assume(q.P-q.G+g.has+put <= g.out)
        q.setP(q.P+put)
    g.out = q.P-q.G+ctx.fresh_int("out", 0, sample=lambda r: r.randint(0, 2))

    def idle_set():
        ctx.prove(g.out == 0, "idle is only announced when nothing is outstanding")
    idle = Ev(ctx, "idle", on_set=idle_set)
    idle.put(ite(g.out > 0, 0, 1))
    o.fields.update(log=Log(), address_width=32, width=8*lanes, byte_size=8, byte_lanes=lanes, strb_mask=2**lanes-1, in_flight_operations=g.out, _idle=idle,
                    **{p+"_channel": ch, rq: q, cur: None})

    def hints():
        d = spec()
        n = n_()
        c = o.fields[cur]
        d.update({"none": And(g.has == 0, c is None), "order": Implies(g.has == 1, q.G == g.cmd+1), "one": And(g.has == 1, g.got >= 0, g.got <= n),
                  "bytes moved": g.moved == ite(g.got == 0, 0, ite(g.got == n, ops.get("L", g.cmd), g.got*lanes-ops.off(g.cmd))),
                  "err": And(*[Or(x == 0, x == 2, x == 3) for x in (g.err, g.err1, g.errm)], Iff(g.err == 0, g.err1 == 0), Iff(g.err == 0, g.errm == 0))})
        return d
    ctx.hints = hints
    ctx.focus_all = True
    ctx.focus_flags = False
    names = ("G:has", "G:cmd", "G:got", "G:err", "G:err1", "G:errm", "G:moved", "S:ref:read", "G:out")
    ctx.focus = lambda n: n in names or not n.startswith(("G:", "self.", "@", "len:self", "it."))
    ctx.focus_data = lambda n: not n.startswith(("G:", "self.")) or n == "G:moved" or n.startswith(("S:", "W:"))
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_process_write_resp" if write else "_process_read_resp"), [], {}))


@unit(("C05", "C22", "C23"), "AxiLiteMasterWrite._process_write_resp", quick=[dict(lanes=l, opt=1) for l in (1, 2, 4)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4, 8) for s in (0, 1)], samples=40, forever=True, covers=("completed",), budget=400)
def _(ctx, lanes, opt):
    response_unit(ctx, True, lanes, opt)


@unit(("C05", "C22", "C23"), "AxiLiteMasterRead._process_read_resp", quick=[dict(lanes=l, opt=1) for l in (1, 2, 4)]+[dict(lanes=2, opt=0)],
      thorough=[dict(lanes=l, opt=s) for l in (1, 2, 4, 8, 16) for s in (0, 1)], samples=40, forever=True, covers=("completed",), budget=400)
def _(ctx, lanes, opt):
    response_unit(ctx, False, lanes, opt)
