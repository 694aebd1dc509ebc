"""Pure-Python stand-in for the compiled ``cocotb.simulator`` (GPI) module.

Everything above the GPI is the *real* installed cocotb (scheduler, tasks, queues,
events, triggers, handles, BinaryValue) and the real cocotb_bus, and the code under test
is the real package in /repo.  Only the HDL simulator is replaced: a signal is a string of
0/1/x/z characters, a write becomes visible in the read-write phase of the time step, and an edge
callback fires when the stored value changes.

    import kernel
    sim = kernel.Sim()                      # must precede any import of cocotb
    clk = sim.signal("clk", 1); ...
    sim.run(main_coroutine_function)        # runs until main returns, or raises
"""
import heapq
import importlib
import logging
import os
import sys
import types
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Deadlock(Exception):
    """nothing is left that could ever wake the main coroutine"""


class TimeUp(Exception):
    """the simulation went past its time limit"""


class SimCallbackError(Exception):
    pass


class _Cb:
    __slots__ = ("fn", "args", "alive")

    def __init__(self, fn, args):
        self.fn = fn
        self.args = args
        self.alive = True

    def deregister(self):
        self.alive = False

    def fire(self):
        if self.alive:
            self.alive = False
            self.fn(*self.args)


class _Sig:
    def __init__(self, core, name, width, init):
        self.core = core
        self.name = name
        self.width = width
        self.val = init
        self.cbs = []
        self.watch = None

    # --- interface used by cocotb.handle
    def get_name_string(self):
        return self.name

    def get_type_string(self):
        return "GPI_REGISTER"

    def get_definition_name(self):
        return ""

    def get_definition_file(self):
        return ""

    def get_type(self):
        return self.core.mod.REG

    def get_const(self):
        return False

    def get_indexable(self):
        return self.width > 1

    def get_range(self):
        return (self.width-1, 0)

    def get_num_elems(self):
        return self.width

    def get_signal_val_binstr(self):
        return self.val

    def get_signal_val_long(self):
        return int(self.val, 2)

    def set_signal_val_int(self, action, value):
        w = self.width
        self._set(format(int(value) & ((1 << w)-1), "0%db" % w))

    def set_signal_val_binstr(self, action, value):
        self._set(value.lower())

    def _set(self, new):
        old = self.val
        if old == new:
            return
        self.val = new
        if self.cbs:
            fire = []
            keep = []
            for cb, edge in self.cbs:
                if not cb.alive:
                    continue
                if edge == 3 or (edge == 1 and new[-1] == "1" and old[-1] != "1") or \
                        (edge == 2 and new[-1] == "0" and old[-1] != "0"):
                    fire.append(cb)
                else:
                    keep.append((cb, edge))
            self.cbs = keep
            if fire:
                self.core.active.extend(fire)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        return self is other


class _Core:
    def __init__(self):
        self.time = 0
        self.seq = 0
        self.timers = []
        self.active = []
        self.rw = []
        self.ro = []
        self.nxt = []
        self.stopped = False
        self.mod = self._module()

    def _module(core):
        m = types.ModuleType("cocotb.simulator")
        for n, v in dict(UNKNOWN=0, MEMORY=1, MODULE=2, NET=3, PARAMETER=4, REG=5, NETARRAY=6, ENUM=7,
                         STRUCTURE=8, REAL=9, INTEGER=10, STRING=11, GENARRAY=12, OBJECTS=1, DRIVERS=2,
                         LOADS=3).items():
            setattr(m, n, v)

        class gpi_sim_hdl:
            pass

        m.gpi_sim_hdl = gpi_sim_hdl
        m.get_precision = lambda: -12
        m.get_sim_time = lambda: (core.time >> 32, core.time & 0xffffffff)
        m.log_level = lambda lvl: None
        m.get_simulator_product = lambda: "fake"
        m.get_simulator_version = lambda: "0"
        m.get_root_handle = lambda name: None
        m.is_running = lambda: True

        def stop():
            core.stopped = True
        m.stop_simulator = stop

        def timed(steps, fn, *args):
            cb = _Cb(fn, args)
            core.seq += 1
            heapq.heappush(core.timers, (core.time+int(steps), core.seq, cb))
            return cb

        def vc(hdl, fn, edge, *args):
            cb = _Cb(fn, args)
            hdl.cbs.append((cb, edge))
            return cb

        def mk(lst):
            def reg(fn, *args):
                cb = _Cb(fn, args)
                getattr(core, lst).append(cb)
                return cb
            return reg
        m.register_timed_callback = timed
        m.register_value_change_callback = vc
        m.register_readonly_callback = mk("ro")
        m.register_rwsynch_callback = mk("rw")
        m.register_nextstep_callback = mk("nxt")
        return m

    def _take(self, name):
        lst = getattr(self, name)
        setattr(self, name, [])
        return lst

    def run(self, limit):
        while not self.stopped:
            # one time step
            while not self.stopped:
                if self.active:
                    for cb in self._take("active"):
                        cb.fire()
                    continue
                if self.rw:
                    for cb in self._take("rw"):
                        cb.fire()
                    continue
                break
            if self.stopped:
                return
            if self.ro:
                for cb in self._take("ro"):
                    cb.fire()
            while self.timers and not self.timers[0][2].alive:
                heapq.heappop(self.timers)
            if not self.timers:
                if self.nxt and any(c.alive for c in self.nxt):
                    for cb in self._take("nxt"):
                        cb.fire()
                    continue
                raise Deadlock("no event left at %d" % self.time)
            self.time = self.timers[0][0]
            if self.time > limit:
                raise TimeUp("time limit reached at %d" % self.time)
            for cb in self._take("nxt"):
                cb.fire()
            while self.timers and self.timers[0][0] == self.time:
                cb = heapq.heappop(self.timers)[2]
                if cb.alive:
                    self.active.append(cb)


_CORE = None


def install():
    """put the stand-in in place of the compiled module, once per process"""
    global _CORE
    if _CORE is None:
        assert "cocotb" not in sys.modules, "kernel.install() must run before cocotb is imported"
        _CORE = _Core()
        warnings.simplefilter("ignore")
        sys.modules["cocotb.simulator"] = _CORE.mod
        import cocotb
        cocotb.simulator = _CORE.mod
        logging.disable(logging.CRITICAL)
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        # the package in /repo is the one that must be loaded, whatever is installed

        m = importlib.import_module("cocotbext.axi")
        where = os.path.realpath(m.__file__)
        assert where.startswith(os.path.realpath(REPO)+os.sep), where
    return _CORE


class Entity:
    def __init__(self, name="dut"):
        self._name = name
        self._log = logging.getLogger("cocotb.fake")
        self._path = name


class Sim:
    """one independent simulation (signals, time, scheduler)"""

    def __init__(self):
        core = install()
        core.__init__()
        # the module object other modules captured must stay the same one
        for k, v in core.mod.__dict__.items():
            if not k.startswith("__"):
                setattr(sys.modules["cocotb.simulator"], k, v)
        core.mod = sys.modules["cocotb.simulator"]
        self.core = core
        import cocotb
        import cocotb.handle
        importlib.import_module("cocotb.scheduler")
        import cocotb.triggers
        cocotb.handle._handle2obj.clear()
        self.result = None
        S = sys.modules["cocotb.scheduler"].Scheduler
        for t in (S._next_time_step, S._read_write, S._read_only, S._timer1):
            t.cbhdl = None
            t.primed = False
        self.sched = S(handle_result=lambda t: None)
        cocotb.scheduler = self.sched
        cocotb.regression_manager = types.SimpleNamespace()
        self.sched._write_coro_inst = None
        self.entity = Entity()
        self.signals = {}
        self.error = None

    def signal(self, name, width=1, init=None, attach=True):
        from cocotb.handle import SimHandle
        if init is None:
            init = "x"*width
        elif isinstance(init, int):
            init = format(init, "0%db" % width)
        h = _Sig(self.core, name, width, init)
        obj = SimHandle(h, name)
        self.signals[name] = obj
        if attach:
            setattr(self.entity, name, obj)
        return obj

    def clock(self, sig, period=10):
        import cocotb
        from cocotb.triggers import Timer

        async def run():
            t = Timer(period//2, "ns")
            h = sig._handle
            while True:
                h._set("1")
                await t
                h._set("0")
                await t
        return cocotb.start_soon(run())

    def run(self, main, limit_ns=10_000_000):
        """run coroutine function `main()`; returns its result, raises what it (or any other task) raised"""
        import cocotb
        from cocotb.triggers import Timer, NullTrigger
        box = {}
        core = self.core
        sched = self.sched

        async def top():
            try:
                box["result"] = await main()
            except BaseException as e:      # noqa
                box["error"] = e
            core.stopped = True

        def abort(exc):
            box.setdefault("error", exc)
            core.stopped = True
        sched._abort_test = abort
        task = cocotb.task.Task(top())
        sched._test = types.SimpleNamespace(_outcome=None, abort=abort)
        # same steps as Scheduler._add_test, without regression bookkeeping
        sched._write_coro_inst = sched._add(sched._do_writes())
        from cocotb import outcomes
        sched._resume_coro_upon(task, NullTrigger(name="start", _outcome=outcomes.Value(None)))
        try:
            core.run(limit_ns*1000)
        finally:
            logging.disable(logging.CRITICAL)
        if "error" in box:
            raise box["error"]
        return box.get("result")
