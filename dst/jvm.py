"""Simulated JVM peer: the Java process, its Py4J gateway and the NeqSim library behind it.

eCalc talks to NeqSim through objects living in another process.  NeqSim.jar is not part of the
repository, so the peer is a stub: a small, smooth, deterministic equation of state behind the exact
remote-object interface eCalc uses.  Everything on the eCalc side of that interface is real code.

A `SimWorld` owns every JVM that is ever launched.  Each remote object belongs to one JVM *generation*;
using an object after its JVM has gone is recorded (stale use) and fails as Py4J would.  A fault plan
decides, by remote-call ordinal, when a call fails, when the JVM dies, and when a launch fails.
"""

from __future__ import annotations

import math

from py4j.protocol import Py4JError, Py4JJavaError, Py4JNetworkError

R = 8.31446261815324

# molar mass kg/mol, pseudo critical temperature, condensation tendency
_COMP = {
    "water": (0.01801534, 647.3, 1.0),
    "nitrogen": (0.0280134, 126.2, 0.0),
    "CO2": (0.04400995, 304.1, 0.0),
    "methane": (0.01604246, 190.4, 0.0),
    "ethane": (0.03006904, 305.4, 0.0),
    "propane": (0.04409562, 369.8, 0.1),
    "i-butane": (0.0581222, 408.2, 0.3),
    "n-butane": (0.0581222, 425.2, 0.35),
    "i-pentane": (0.07214878, 460.4, 0.6),
    "n-pentane": (0.07214878, 469.7, 0.65),
    "n-hexane": (0.08617536, 507.5, 0.8),
}


class SimJavaError(Py4JJavaError):
    """A Java exception thrown inside the peer and carried over the bridge."""

    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.args = (msg,)
        self.errmsg = msg
        self.java_exception = None
        self.exception_cmd = ""
        self.cause = None

    def __str__(self):
        return str(self.args[0])


class SimLostCall(Py4JError):
    """What Py4J raises when a call was under way while its connection broke: neither a network nor a Java error."""


class SimNetworkError(Py4JNetworkError):
    def __init__(self, msg):
        Py4JNetworkError.__init__(self, msg)


# ways to lose the Java process or the connection to it during a call
LOST = ("crash", "crash_reset", "net", "net_request", "net_reply", "partition")


# ---------------------------------------------------------------- thermodynamics (pure functions)
def _mix(comps):
    tot = sum(comps.values())
    if not tot > 0:
        raise SimJavaError("java.lang.IllegalArgumentException: empty system")
    M = tc = 0.0
    for name in sorted(comps):
        x = comps[name] / tot
        m, t, _ = _COMP[name]
        M += x * m
        tc += x * t
    return M, tc


def _z(eosf, tc, T, P):
    a = 0.0021 * eosf * (tc / 200.0) * (300.0 / T) ** 1.5
    b = 0.00165 * (tc / 200.0) ** 0.5
    return 1.0 / (1.0 + a * P) + b * P * P / (P + 60.0)


def _cp(M, tc):
    # J / kg K
    return (30.0 + 0.055 * tc) / (M * 1.15)


def _jt(M, tc):
    # J / kg bar: enthalpy departure per bar
    return 420.0 * (tc / 220.0)


def _h(M, tc, T, P):
    return _cp(M, tc) * (T - 288.15) - _jt(M, tc) * P / (1.0 + P / 900.0)


def _t_from_h(M, tc, h, P):
    return 288.15 + (h + _jt(M, tc) * P / (1.0 + P / 900.0)) / _cp(M, tc)


def _condensed(name, T, P):
    _, tc, tend = _COMP[name]
    if tend == 0.0:
        return 0.0
    tdew = tc * (0.44 + 0.10 * tend) + 9.0 * math.log(max(P, 0.1))
    s = (tdew - T) / 80.0
    return min(0.95, max(0.0, s)) * tend


class _State:
    __slots__ = ("T", "P", "comps", "eosf", "gas_only")

    def __init__(self, T, P, comps, eosf, gas_only=False):
        self.T, self.P, self.comps, self.eosf, self.gas_only = T, P, comps, eosf, gas_only

    def vapor_fraction(self):
        if self.gas_only:
            return 1.0
        tot = sum(self.comps.values())
        return 1.0 - sum(self.comps[n] / tot * _condensed(n, self.T, self.P) for n in sorted(self.comps))

    def gas(self):
        comps = {n: v * (1.0 - (0.0 if self.gas_only else _condensed(n, self.T, self.P))) for n, v in self.comps.items()}
        tot = sum(comps.values())
        return _State(self.T, self.P, {n: v / tot for n, v in comps.items()}, self.eosf, True)


# ---------------------------------------------------------------- remote objects
class Remote:
    """A handle in the Python process to an object in one simulated JVM."""

    def __init__(self, jvm):
        self.__dict__["_jvm"] = jvm


class RemoteCallable:
    __slots__ = ("owner", "name", "impl")

    def __init__(self, owner, name, impl):
        self.owner, self.name, self.impl = owner, name, impl

    def __call__(self, *args):
        jvm = self.owner._jvm
        lost = jvm.world.remote_call(jvm, self.name, args)
        out = self.impl(*args)
        if lost:
            raise SimLostCall("An error occurred while calling o42." + self.name)
        return jvm.world.filter_result(jvm, self.name, out)


class RemoteObject(Remote):
    _methods: tuple = ()

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        impl = getattr(type(self), "m_" + name, None)
        if impl is None:
            raise SimJavaErrorNoMethod(f"Method {name} does not exist on {type(self).__name__}")
        return RemoteCallable(self, name, impl.__get__(self))


class SimJavaErrorNoMethod(Py4JError):
    pass


class SystemRef(RemoteObject):
    def __init__(self, jvm, st):
        super().__init__(jvm)
        self.__dict__["_st"] = st

    def m_addComponent(self, name, value):
        if name not in _COMP:
            raise SimJavaError(f"component {name} not in database")
        self._st.comps[name] = self._st.comps.get(name, 0.0) + float(value)

    def m_setTotalFlowRate(self, rate, unit):
        pass

    def m_setMixingRule(self, rule):
        pass

    def m_clone(self):
        s = self._st
        return SystemRef(self._jvm, _State(s.T, s.P, dict(s.comps), s.eosf, s.gas_only))

    def m_setPressure(self, p, unit="bara"):
        self._st.P = float(p)

    def m_setTemperature(self, t, unit="K"):
        self._st.T = float(t)

    def m_init(self, level):
        pass

    def m_initProperties(self):
        pass

    def _mixdata(self):
        return _mix(self._st.comps)

    def m_getDensity(self, unit="kg/m3"):
        M, tc = self._mixdata()
        s = self._st
        return s.P * 1e5 * M / (_z(s.eosf, tc, s.T, s.P) * self._jvm.world.zfun(s) * R * s.T)

    def m_getMolarMass(self):
        return self._mixdata()[0]

    def m_getZ(self):
        M, tc = self._mixdata()
        return _z(self._st.eosf, tc, self._st.T, self._st.P) * self._jvm.world.zfun(self._st)

    def m_getEnthalpy(self, unit="J/kg"):
        M, tc = self._mixdata()
        return _h(M, tc, self._st.T, self._st.P)

    def m_getGamma2(self):
        M, tc = self._mixdata()
        cp = _cp(M, tc) * M
        return cp / (cp - R)

    def m_getTemperature(self, unit="K"):
        return self._st.T

    def m_getPressure(self, unit="bara"):
        return self._st.P

    def m_getVolume(self):
        return 1.0 / self.m_getDensity()

    def m_getMolarComposition(self):
        tot = sum(self._st.comps.values())
        return [v / tot for v in self._st.comps.values()]

    def m_getComponentNames(self):
        return list(self._st.comps)

    def m_hasPhaseType(self, phase):
        return True

    def m_getPhaseNumberOfPhase(self, phase):
        return 0

    def m_getMoleFraction(self, phase_number):
        return self._st.vapor_fraction()

    def m_getTotalNumberOfMoles(self):
        return 1.0

    def m_phaseToSystem(self, phase):
        return SystemRef(self._jvm, self._st.gas())

    def m_getPhase(self, i):
        return PhaseRef(self._jvm, self._st)

    def m_createTable(self, name):
        return []


class PhaseRef(RemoteObject):
    def __init__(self, jvm, st):
        super().__init__(jvm)
        self.__dict__["_st"] = st

    def m_getProperties_GERG2008(self):
        s = self._st
        M, tc = _mix(s.comps)
        out = [0.0] * 16
        out[1] = _z(s.eosf * 1.013, tc, s.T, s.P) * self._jvm.world.zfun(s)
        out[7] = _h(M, tc, s.T, s.P) * M
        out[10] = _cp(M, tc) * M
        return out

    def m_getDensity_GERG2008(self):
        s = self._st
        M, tc = _mix(s.comps)
        return s.P * 1e5 * M / (_z(s.eosf * 1.013, tc, s.T, s.P) * self._jvm.world.zfun(s) * R * s.T)

    def m_getMolarMass(self):
        return _mix(self._st.comps)[0]


class OpsRef(RemoteObject):
    def __init__(self, jvm, system):
        super().__init__(jvm)
        self.__dict__["_sys"] = system

    def _check(self):
        st = self._sys._st
        if not (math.isfinite(st.T) and math.isfinite(st.P)) or st.T <= 0 or st.P <= 0:
            raise SimJavaError(f"neqsim.util.exception: flash failed at T={st.T} P={st.P}")

    def m_TPflash(self):
        self._check()
        self._jvm.world.flash_hook(self._sys._st, "TP")

    def m_PHflash(self, h, unit="J/kg"):
        st = self._sys._st
        self._check()
        M, tc = _mix(st.comps)
        T = _t_from_h(M, tc, float(h), st.P)
        if not (60.0 < T < 4000.0):
            raise SimJavaError(f"neqsim.util.exception.IsNaNException: PH flash did not converge, T={T}")
        st.T = T
        self._jvm.world.flash_hook(st, "PH")

    def m_PHflashGERG2008(self, h_joule):
        st = self._sys._st
        M, _ = _mix(st.comps)
        self.m_PHflash(h_joule / M)  # one mole in the stub


class _ClassRef:
    """Remote constructor."""

    def __init__(self, jvm, name, make):
        self._jvm, self._name, self._make = jvm, name, make

    def __call__(self, *args):
        if self._jvm.world.remote_call(self._jvm, "new " + self._name, args):
            raise SimLostCall("An error occurred while calling None." + self._name)
        return self._make(*args)


class _NS:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class SimJVM:
    def __init__(self, world, gen, kind, javaopts=()):
        self.world, self.gen, self.kind = world, gen, kind
        self.alive = True
        self.javaopts = list(javaopts)
        self.neqsim = _NS(
            thermo=_NS(
                system=_NS(
                    SystemSrkEos=_ClassRef(self, "SystemSrkEos", lambda T, P: SystemRef(self, _State(T, P, {}, 1.0))),
                    SystemPrEos=_ClassRef(self, "SystemPrEos", lambda T, P: SystemRef(self, _State(T, P, {}, 1.07))),
                )
            ),
            thermodynamicoperations=_NS(
                ThermodynamicOperations=_ClassRef(self, "ThermodynamicOperations", lambda s: OpsRef(self, s))
            ),
        )


class SimGateway:
    """Stands in for py4j.java_gateway.JavaGateway."""

    def __init__(self, jvm):
        self._jvm = jvm
        self.jvm = _NS(neqsim=jvm.neqsim)
        self.java_process = _NS(pid=40000 + jvm.gen, poll=lambda: None if jvm.alive else 0,
                                kill=lambda: jvm.world.kill(jvm, "process.kill"),
                                terminate=lambda: jvm.world.kill(jvm, "process.terminate"),
                                wait=lambda timeout=None: 0,
                                returncode=None, stdin=None, stdout=None, stderr=None)
        self.gateway_parameters = _NS(port=25333 + jvm.gen, address="127.0.0.1")

    def shutdown(self, raise_exception=False):
        w = self._jvm.world
        w.shutdowns += 1
        w.event("gateway_shutdown", self._jvm.gen)
        if w.yield_hook:
            w.yield_hook("shutdown")
        f = w.shutdown_faults.get(w.shutdowns)
        if f == "lost" and self._jvm.alive:
            # the command never arrives; Py4J swallows the socket error unless asked not to
            w.count("shutdown_lost")
            if raise_exception:
                raise SimNetworkError("Error while shutting down gateway")
            return
        if f == "raise":
            w.count("shutdown_raise")
            raise SimNetworkError("Error while shutting down gateway")
        if not self._jvm.alive:
            # Py4J: connecting to a dead peer fails; the process is already gone
            if w.shutdown_raises_when_dead or raise_exception:
                w.count("shutdown_error")
                raise SimNetworkError("An error occurred while trying to connect to the Java server")
            return
        self._jvm.alive = False

    def close(self, *a, **k):
        pass

    shutdown_callback_server = close
    close_callback_server = close


class SimWorld:
    """Owns all simulated JVMs of one run; the only source of backend faults."""

    def __init__(self, plan=None, log=None):
        # plan: list of {"at": <remote call ordinal>, "kind": ...}; launches: {ordinal: kind}
        plan = plan or {}
        self.call_faults = {int(f["at"]): f["kind"] for f in plan.get("calls", [])}
        self.launch_faults = {int(f["at"]): f["kind"] for f in plan.get("launches", [])}
        self.shutdown_faults = {int(f["at"]): f["kind"] for f in plan.get("shutdowns", [])}
        self.shutdowns = 0
        self.shutdown_raises_when_dead = bool(plan.get("shutdown_raises_when_dead", True))
        self.hook = None  # flash hook: callable(state, kind) may raise
        self.result_hook = None
        self.zfun = lambda st: 1.0  # factor on the compressibility, a function of the state
        self.yield_hook = None  # scheduling point
        self.jvms: list[SimJVM] = []
        self.calls = 0
        self.launches = 0
        self.counters: dict[str, int] = {}
        self.stale_uses: list = []
        self.events: list = []
        self.log_events = log
        self.max_alive = 0
        self.sticky_net = False
        self.names = [] if plan.get("names") else None

    # -- bookkeeping
    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def event(self, *e):
        if len(self.events) < 5000:
            self.events.append(e)

    def alive(self):
        return [j for j in self.jvms if j.alive]

    def kill(self, jvm, why):
        jvm.alive = False
        self.event("kill", jvm.gen, why)

    # -- launch seam
    def launch(self, kind="py4j", **kw):
        self.launches += 1
        if self.yield_hook:
            self.yield_hook("launch")
        f = self.launch_faults.get(self.launches) if kind == "py4j" else None
        if f == "no_java":
            self.count("launch_no_java")
            self.event("launch_fail", f)
            raise FileNotFoundError(2, "No such file or directory: 'java'")
        if f == "bad_port":
            self.count("launch_bad_port")
            self.event("launch_fail", f)
            raise ValueError("invalid literal for int() with base 10: b'Error: could not create the JVM'")
        if f == "eagain":
            self.count("launch_eagain")
            self.event("launch_fail", f)
            raise OSError(11, "Resource temporarily unavailable")
        jvm = SimJVM(self, len(self.jvms) + 1, kind, kw.get("javaopts") or ())
        self.jvms.append(jvm)
        self.max_alive = max(self.max_alive, len(self.alive()))
        self.event("launch", jvm.gen)
        if self.yield_hook:
            self.yield_hook("launched")
        return jvm

    # -- call seam
    def remote_call(self, jvm, name, args):
        self.calls += 1
        if self.names is not None:
            self.names.append(name)
        if self.yield_hook:
            self.yield_hook("rpc")
        for a in args:
            if isinstance(a, Remote) and a._jvm is not jvm:
                self.stale_uses.append((self.calls, name, a._jvm.gen, jvm.gen))
        if not jvm.alive:
            if any(j.alive for j in self.jvms) or jvm is not self.jvms[-1]:
                self.stale_uses.append((self.calls, name, jvm.gen, None))
            raise SimNetworkError("An error occurred while trying to connect to the Java server (127.0.0.1:25333)")
        f = self.call_faults.get(self.calls)
        if self.sticky_net and jvm.kind == "py4j":
            self.count("call_partitioned")
            raise SimNetworkError("An error occurred while trying to connect to the Java server (127.0.0.1:25333)")
        if f is None:
            return
        if jvm.kind == "jpype" and f in LOST:
            return  # in-process JVM: there is no connection to lose, and it dies only with the Python process
        self.count("call_" + f)
        self.event("fault", self.calls, f, name)
        if f == "crash":
            jvm.alive = False
            raise SimNetworkError("Answer from Java side is empty")
        if f == "crash_reset":  # the connection is reset while the answer is awaited: no retry, a bare Py4JError
            jvm.alive = False
            raise SimLostCall("An error occurred while calling o42." + name)
        if f == "net":
            raise SimNetworkError("An error occurred while trying to connect to the Java server (127.0.0.1:25333)")
        if f == "net_request":
            raise SimLostCall("An error occurred while calling o42." + name)
        if f == "net_reply":  # the call is carried out, its answer is lost
            return True
        if f == "partition":
            self.sticky_net = True
            raise SimLostCall("An error occurred while calling o42." + name)
        if f == "java":
            raise SimJavaError("An error occurred while calling o42." + name + ". java.lang.RuntimeException")
        if f == "oom":
            raise SimJavaError("java.lang.OutOfMemoryError: Java heap space")
        raise AssertionError(f)

    def filter_result(self, jvm, name, out):
        if self.result_hook is not None:
            return self.result_hook(name, out)
        return out

    def flash_hook(self, st, kind):
        if self.hook is not None:
            self.hook(st, kind)


_current: SimWorld | None = None


def current() -> SimWorld:
    assert _current is not None, "no simulated world installed"
    return _current


def set_world(w):
    global _current
    _current = w
    return w


def install():
    """Route every way eCalc can reach a JVM to the simulated peer."""
    import sys
    import types

    import py4j.java_gateway as jg

    def launch_gateway_cls(cls=None, *a, **kw):
        return SimGateway(current().launch("py4j", **kw))

    jg.JavaGateway.launch_gateway = classmethod(lambda cls, *a, **kw: launch_gateway_cls(cls, *a, **kw))

    def launch_gateway_fn(*a, **kw):
        raise AssertionError("direct py4j.launch_gateway is not simulated")

    jg.launch_gateway = launch_gateway_fn

    class _JNeqsim(types.ModuleType):
        _jvm_by_world: dict = {}

        def __getattr__(self, name):
            if name == "neqsim":
                w = current()
                for j in w.jvms:
                    if j.kind == "jpype":
                        return j.neqsim
                return w.launch("jpype").neqsim
            raise AttributeError(name)

    sys.modules["jneqsim"] = _JNeqsim("jneqsim")
