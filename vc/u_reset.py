"""C27: the reset state machine"""
from engine import *        # noqa
import engine as E
import cocotb
from cocotb.triggers import Edge
from unit import unit
from contracts import *       # noqa
from cocotbext.axi.reset import Reset


def make(ctx):
    """any state a component can be in between calls"""
    o = ctx.new_obj(Reset)
    loc, ext = ctx.fresh_bool("local"), ctx.fresh_bool("ext")
    o.fields.update(_local_reset=loc, _ext_reset=ext, _reset_state=Or(loc, ext))
    return o, loc, ext


def watch(ctx, o, st0):
    """every call of _handle_reset is a change of the combined state"""
    ctx.ghost.calls = 0
    ctx.ghost.last = toint(st0)

    def h(self, state):
        ctx.prove(self is o, "the component handles its own reset")
        cur = Or(o.fields["_local_reset"], o.fields["_ext_reset"])
        ctx.prove(Not(E.equal(ctx, toint(state), ctx.ghost.last)), "only a change of the combined state is acted on")
        ctx.prove(E.equal(ctx, toint(state), toint(cur)), "the new state is what is acted on")
        ctx.ghost.last = toint(state)
        ctx.ghost.calls = ctx.ghost.calls+1
    ctx.handlers[Reset._handle_reset] = h


def settled(ctx, o, what):
    loc, ext = o.fields["_local_reset"], o.fields["_ext_reset"]
    cur = Or(truthy(ctx, loc), truthy(ctx, ext))
    ctx.prove(E.equal(ctx, toint(truthy(ctx, getattr_(ctx, o, "_reset_state"))), toint(cur)), what+": in reset exactly while either reset is active")
    ctx.prove(E.equal(ctx, ctx.ghost.last, toint(cur)), what+": the change was acted on")


def truthy(ctx, v):
    if isinstance(v, (bool, SBool)):
        return v
    return truth(ctx, v)


@unit("C27", "Reset._update_reset", samples=20)
def _(ctx):
    o = ctx.new_obj(Reset)
    loc, ext, st = ctx.fresh_bool("local"), ctx.fresh_bool("ext"), ctx.fresh_bool("state")
    o.fields.update(_local_reset=loc, _ext_reset=ext, _reset_state=st)
    watch(ctx, o, st)
    E.call(ctx, getattr_(ctx, o, "_update_reset"), [], {})
    settled(ctx, o, "after an update")
    ctx.prove(ctx.ghost.calls == ite(E.equal(ctx, toint(st), toint(Or(loc, ext))), 0, 1), "each change is acted on exactly once")


@unit("C27", "Reset.assert_reset", samples=30)
def _(ctx):
    o, loc, ext = make(ctx)
    watch(ctx, o, Or(loc, ext))
    w = ctx.choice(4)
    if w == 0:
        E.call(ctx, getattr_(ctx, o, "assert_reset"), [], {})
        ctx.prove(Not(truthy(ctx, o.fields["_local_reset"])), "a pulse leaves the local reset released")
        # released before: on and off, or nothing visible while the external reset holds
        ctx.prove(ctx.ghost.calls == ite(ext, 0, ite(loc, 1, 2)), "a pulse is a reset followed by its release")
    else:
        v = ctx.fresh_bool("v") if w == 1 else (ctx.fresh_int("vi") if w == 2 else ctx.choice(2))
        b = v if w == 1 else v != 0
        E.call(ctx, getattr_(ctx, o, "assert_reset"), [v], {})
        ctx.prove(E.equal(ctx, toint(truthy(ctx, o.fields["_local_reset"])), toint(b)), "the local reset follows the call")
        ctx.prove(ctx.ghost.calls <= 1, "at most one change")
    ctx.prove(E.equal(ctx, toint(truthy(ctx, o.fields["_ext_reset"])), toint(ext)), "the external reset is not touched")
    settled(ctx, o, "after assert_reset")


class Sig(Contract):
    pass


@unit("C27", "Reset._init_reset", samples=30)
def _(ctx):
    o = ctx.new_obj(Reset)
    o.fields.update(_local_reset=ctx.fresh_bool("l"), _ext_reset=ctx.fresh_bool("e"), _reset_state=ctx.fresh_bool("s"))
    states = []
    ctx.handlers[Reset._handle_reset] = lambda self, state: states.append(state)
    started = []

    def run(self, sig, level):
        started.append((self, sig, level))
        return Opaque("coroutine")
    ctx.handlers[Reset._run_reset] = run
    soon = []
    ctx.handlers[cocotb.start_soon] = lambda c: soon.append(c)
    w = ctx.choice(4)
    sig = Sig()
    if w == 0:
        args, kw, lvl = [], {}, None
    elif w == 1:
        args, kw, lvl = [sig], {}, True
    elif w == 2:
        args, kw, lvl = [None, ctx.fresh_bool("level")], {}, None
    else:
        x = ctx.fresh_bool("level") if ctx.choice(2) else ctx.fresh_int("level_i", 0, 3)
        args, kw, lvl = [sig, x], {}, (x if isinstance(x, (bool, SBool)) else x != 0)
    E.call(ctx, getattr_(ctx, o, "_init_reset"), args, kw)
    f = o.fields
    ctx.prove(And(Not(f["_local_reset"]), Not(f["_ext_reset"])), "no reset is active at first")
    ctx.prove(Not(f["_reset_state"]), "a component starts out of reset")
    ctx.prove(len(states) == 1 and not truth(ctx, states[0]), "the release is acted on once")
    if lvl is None:
        ctx.prove(not started and not soon, "no reset signal is watched")
    else:
        ctx.prove(len(started) == 1 and len(soon) == 1, "the reset signal is watched by one process")
        s, g, l = started[0]
        ctx.prove(s is o and g is sig, "the given signal is watched")
        ctx.prove(isinstance(l, (bool, SBool)), "the active level is a boolean")
        ctx.prove(E.equal(ctx, toint(l), toint(lvl)), "the requested polarity is used")


@unit("C27", "Reset._run_reset", samples=60, forever=True)
def _(ctx):
    o, loc, ext = make(ctx)
    watch(ctx, o, Or(loc, ext))
    active = ctx.fresh_bool("active_level")
    # the level the signal last had; ext is what was derived from it
    ctx.ghost.want = toint(ext)
    sig = Sig()
    n = [0]

    class Val(Contract):
        ephemeral = True

        def as_int(self):
            if ctx.ghost.undefined == 1:
                raise PyExc(ValueError("unresolvable bit"))
            return ctx.ghost.level

    sig.value = Val()

    def edge(s):
        ctx.prove(s is sig, "the process waits for the reset signal")

        def go():
            # what held after the last edge
            ctx.prove(E.equal(ctx, toint(truthy(ctx, o.fields["_ext_reset"])), ctx.ghost.want), "the external reset is active exactly while the signal is at its active level")
            settled(ctx, o, "before waiting")
            n[0] += 1
            if ctx.mode == "conc" and n[0] > 12:
                raise PathEnd("end of the run")
            # the local reset may have changed meanwhile
            l2 = ctx.fresh_bool("local2")
            st = Or(l2, truthy(ctx, o.fields["_ext_reset"]))
            E.setattr_(ctx, o, "_local_reset", l2)
            E.setattr_(ctx, o, "_reset_state", st)
            ctx.ghost.last = toint(st)
            ctx.ghost.calls = 0
            und = ctx.choice(2)
            ctx.ghost.undefined = und
            lv = ctx.fresh_int("level", 0, 1)
            ctx.ghost.level = lv
            if not und:
                ctx.ghost.want = toint(E.equal(ctx, toint(lv != 0), toint(active)))
            ctx.cover("edge")
        return Aw(go)
    ctx.handlers[Edge] = edge
    ctx.ghost.undefined = 0
    ctx.ghost.level = 0
    E.await_(ctx, E.call(ctx, getattr_(ctx, o, "_run_reset"), [sig, active], {}))
