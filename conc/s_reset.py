"""native cross-check: the combined reset state (C27), on the kernel stand-in with the real cocotb"""
import kernel
from suite import suite, check


@suite("C27", "reset histories", quick=600, thorough=20000,
       rule="random reset-line levels (0, 1, undefined), local assertions, pulses and either polarity")
def _(rng):
    sim = kernel.Sim()
    from cocotb.triggers import Timer
    from cocotbext.axi.reset import Reset
    have = rng.random() < 0.9
    pol = rng.choice([True, False, 1, 0])
    init = rng.choice([None, 0, 1])
    sig = sim.signal("rst", 1, init) if have else None
    seen = []

    class C(Reset):
        def _handle_reset(self, state):
            seen.append(bool(state))

        def __init__(self):
            if have:
                self._init_reset(sig, pol)
            else:
                self._init_reset(None)
    ops = []
    level = init

    async def main():
        nonlocal level
        c = C()
        loc = ext = False
        want = [False]
        st = False
        check(seen == want, "initial notifications", seen)

        def upd():
            nonlocal st
            n = loc or ext
            if n != st:
                st = n
                want.append(n)
        await Timer(1, "ns")
        for _ in range(rng.randint(1, 14)):
            k = rng.randrange(5 if have else 3)
            if k == 0:
                v = rng.choice([True, False, 1, 0])
                ops.append(("local", v))
                c.assert_reset(v)
                loc = bool(v)
                upd()
            elif k == 1:
                ops.append(("pulse",))
                c.assert_reset()
                for loc in (True, False):
                    upd()
            elif k == 2:
                ops.append(("wait",))
            else:
                v = rng.choice([0, 1, 0, 1, None])
                ops.append(("ext", v))
                sig._handle._set("x" if v is None else str(v))
                if v is not None and v != level:
                    ext = bool(v) == bool(pol)
                level = v
                await Timer(1, "ns")
                upd()
            if rng.random() < 0.5:
                await Timer(rng.randint(1, 5), "ns")
            check(seen == want, "notifications", seen, "expected", want, "after", pol, init, ops)
    sim.run(main)
    return (pol, init, have, tuple(ops))
