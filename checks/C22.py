"""C22: simulated traces of the built-in agents follow the dynamics and the controls of the mode they are given."""
import math
from .common import *
import verse.agents.base_agent as BA
import verse.agents.example_agent.ball_agent as ball
import verse.agents.example_agent.ballg_agent as ballg
import verse.agents.example_agent.car_agent as car
import verse.agents.example_agent.line_agent as line
import verse.agents.example_agent.origin_agent as origin
import verse.agents.example_agent.robot_agent as robot
import verse.agents.example_agent.sign_agent as sign

LEVEL = "model_checking"
BOUNDS = "every built-in agent except the quadrotor, every mode it knows, every initial state (values up to 30, speeds up to 10), any speed and acceleration limits, " \
         "any map (its answers are arbitrary numbers per lane and state), 2 time steps (3 thorough); horizons: every real number up to 4 steps and a list of multiples of the time step"
OUTSIDE = "the numerical error of scipy's integrators (replaced by one explicit step of the function they are given); the quadrotor (needs torch); modes not known to the agent other than that they are refused"
ASSUMPTIONS = ["scipy's ode and odeint integrate the function and parameters they are given from the state and time they are given",
               "cos, sin and arctan2 are arbitrary functions with values on the unit circle and in [-pi, pi]"]
MODS = (BA, ball, ballg, car, line, origin, robot)
DT = 0.25


class Ode:
    """scipy.integrate.ode with one explicit Euler step per call (what is integrated, from where and for how long is what counts)."""
    ctx = None

    def __init__(self, f, jac=None):
        self.f, self.args, self.t = f, (), 0.0

    def set_integrator(self, *a, **k):
        return self

    def set_initial_value(self, y, t=0.0):
        self.y, self.t = list(y) if isinstance(y, (list, tuple, np.ndarray)) else [y], t
        return self

    def set_f_params(self, *a):
        self.args = a
        return self

    def successful(self):
        return True

    def integrate(self, t, *a, **k):
        d = self.f(self.t, list(self.y), *self.args)
        self.y = self.ctx.array([v + (t - self.t) * w for v, w in zip(self.y, d)])
        self.t = t
        return self.y


def odeint_(ctx):
    def odeint(func, y0, t, args=(), tfirst=False, **k):
        y = list(y0)
        rows = [y]
        for a, b in zip(t[:-1], t[1:]):
            d = func(a, list(y), *args) if tfirst else func(list(y), a, *args)
            y = [v + (b - a) * w for v, w in zip(y, d)]
            rows.append(y)
        return ctx.array(rows)
    return odeint


def patched(ctx):
    class O(Ode):
        pass
    O.ctx = ctx
    for m in MODS:
        if hasattr(m, "ode"):
            ctx.patch(m, "ode", O)
        if hasattr(m, "odeint"):
            ctx.patch(m, "odeint", odeint_(ctx))


def code_for(fields, modes):
    return ("from enum import Enum, auto\nimport copy\nclass AgentMode(Enum):\n" + "".join(f"    {m} = auto()\n" for m in modes) + "class State:\n" +
            "".join(f"    {f}: float\n" for f in fields) + "    agent_mode: AgentMode\n    def __init__(self):\n        pass\n"
            "def decisionLogic(ego: State):\n    output = copy.deepcopy(ego)\n    return output\n")


_made = {}


def make(cls, fields, *a, **k):
    """The real constructor, once per class and arguments."""
    key = (cls, tuple(fields))
    if key not in _made:
        _made[key] = code_for(fields, ["A", "B"])
    return cls("ag", code=_made[key], *a, **k)


def check_trace(ctx, tr, init, step, n, dim, dt=DT):
    """row 0 is the initial state at time 0; row i+1 is the given step from row i"""
    ctx.check("rows", len(tr) == n + 1 and all(len(r) == dim + 1 for r in tr))
    ctx.check("start", ctx.And(tr[0][0] == 0, *[ctx.exact(a, b) for a, b in zip(tr[0][1:], init)]))
    for i in range(n):
        ctx.check("time", ctx.eq(tr[i + 1][0], dt * (i + 1), 1e-9))
        want = step(i, [v for v in tr[i][1:]])
        for a, b in zip(tr[i + 1][1:], want):
            ctx.check("step", a == b if ctx.sym else ctx.eq(a, b, 1e-6))


def euler(s, d, dt=DT):
    return [a + dt * b for a, b in zip(s, d)]


# ---- agents driven by one differential equation --------------------------------------------------------------------------------
def f_vanderpol(s, m):
    return [s[1], (1 - s[0] * s[0]) * s[1] - s[0]]


def f_thermo(s, m):
    return [{"ON": 0.1, "OFF": -0.1}[m] * s[0], 1, 1]


SIMPLE = {
    # name: (class, variables, modes, derivative)
    "ball": (ball.BallAgent, ("x", "y", "vx", "vy"), (None,), lambda s, m: [s[2], s[3], 0, 0]),
    "line": (line.LineAgent, ("x", "vx"), (None,), lambda s, m: [s[1], 0]),
    "vanderpol": (origin.vanderpol_agent, ("x", "y"), (None,), f_vanderpol),
    "thermo": (origin.thermo_agent, ("temp", "total_time", "cycle_time"), ("ON", "OFF"), f_thermo),
    "craft": (origin.craft_agent, ("xp", "yp", "xd", "yd", "total_time", "cycle_time"), ("Passive",),
              lambda s, m: [s[2], s[3], 0.0000575894721132 * s[0] + 0.00876276 * s[3], -0.00876276 * s[2], 1, 1]),
    "robot": (robot.RobotAgent, ("x",), (None,), lambda s, m: [1]),
}


def simple(ctx, which, n):
    patched(ctx)
    cls, fields, modes, f = SIMPLE[which]
    ag = make(cls, fields)
    mode = modes[ctx.choice("mode", len(modes))]
    init = [ctx.real(v, -30, 30) for v in fields]
    given = list(init)
    tr = ag.TC_simulate((mode,), given, n * DT, DT)
    check_trace(ctx, tr, init, lambda i, s: euler(s, f(s, mode)), n, len(fields))
    ctx.check("input-kept", len(given) == len(init) and ctx.And(*[ctx.exact(a, b) for a, b in zip(given, init)]))


def gravity(ctx, n):
    patched(ctx)
    g = ctx.real("g", 0, 20)
    ag = make(ballg.Ball_g_agent, ("x", "y", "vx", "vy"), g_acc_val=g)
    init = [ctx.real(v, -30, 30) for v in ("x", "y", "vx", "vy")]
    tr = ag.TC_simulate((None,), list(init), n * DT, DT)
    check_trace(ctx, tr, init, lambda i, s: euler(s, [s[2], s[3], -g, 0]), n, 4)


def craft(ctx, which, n):
    """Approach modes: the thrust is linear in the state, the gravity that of a body at distance |(xp + 42164000, yp)|."""
    patched(ctx)
    ag = make(*SIMPLE["craft"][:2])
    init = [ctx.real(v, -30, 30) for v in SIMPLE["craft"][1]]
    lin = {"ProxA": [(-2.89995083970656, -0.0576765518445905, 0.00877200894463775, 0.000200959896519766), (-0.00875351105536225, -0.000174031357370456, -2.90300269286856, -0.0664932019993982)],
           "ProxB": [(-19.2299795908647, -0.576076729033652, 0.00876275931760007, 0.000262486079431672), (-0.00876276068239993, -0.000262486080737868, -19.2299765959399, -0.575980743701182)]}[which]
    R, mu = 42164000, 1.43496e18

    def step(i, s):
        r = ctx.sqrt(s[1] * s[1] + (s[0] + R) * (s[0] + R))
        acc = [v[0] * s[2] + v[1] * s[0] + v[2] * s[3] + v[3] * s[1] - mu * w / (r * r * r) for v, w in zip(lin, (s[0] + R, s[1]))]
        return euler(s, [s[2], s[3], acc[0] + mu / (R * R), acc[1], 1, 1])
    tr = ag.TC_simulate((which,), list(init), n * DT, DT)
    ctx.check("rows", len(tr) == n + 1)
    ctx.check("start", ctx.And(tr[0][0] == 0, *[ctx.exact(a, b) for a, b in zip(tr[0][1:], init)]))
    for i in range(n):
        want = step(i, list(tr[i][1:]))
        for a, b in zip(tr[i + 1][1:], want):
            ctx.check("step", ctx.eq(a, b, 1e-3))


def still(ctx, n):
    ag = sign.SignAgent("s")
    init = [ctx.real(f"x{i}", -30, 30) for i in range(3)]
    tr = ag.TC_simulate((None,), list(init), n * DT, DT)
    check_trace(ctx, tr, init, lambda i, s: s, n, 3)


def base(ctx, n):
    """The default simulation integrates the dynamics of the subclass, whatever they are."""
    patched(ctx)

    class Ag(PlainAgent):
        @staticmethod
        def dynamics(t, state):
            x, y = state
            return [k * y + t, x - y]
    k = ctx.real("k", -5, 5)
    ag = Ag("a")
    init = [ctx.real(v, -30, 30) for v in "xy"]
    given = list(init)
    tr = ag.TC_simulate((None,), given, n * DT, DT)
    check_trace(ctx, tr, init, lambda i, s: euler(s, [k * s[1] + i * DT, s[0] - s[1]]), n, 2)
    ctx.check("input-kept", ctx.And(*[ctx.exact(a, b) for a, b in zip(given, init)]))


# ---- cars ----------------------------------------------------------------------------------------------------------------------
CARS = {
    "npc": (None, ("x", "y", "theta", "v")),
    "npc-timer": (None, ("x", "y", "theta", "v", "timer")),
    "car": (car.CarAgent, ("x", "y", "theta", "v")),
    "debounced": (car.CarAgentDebounced, ("x", "y", "theta", "v", "timer")),
    "switch2": (car.CarAgentSwitch2, ("x", "y", "theta", "v", "timer")),
    "weird": (car.WeirdCarAgent, ("x", "y", "theta", "v")),
}
MODES = {"npc": ("Normal", "Brake"), "npc-timer": ("Normal",), "weird": ("SwitchLeft", "SwitchRight", "Normal")}
ALL = ("Normal", "Stop", "SwitchLeft", "SwitchRight", "Brake", "Accel")


class TestMap:
    """Lateral offset, heading and lane width are arbitrary for each lane and each question; asks are recorded."""

    def __init__(self, ctx):
        self.ctx, self.asked = ctx, {}

    def _ans(self, kind, lane, pos, lo, hi):
        for p, v in self.asked.setdefault((kind, lane), []):
            if pos is None or (p[0] is pos[0] and p[1] is pos[1]):
                return v
        v = self.ctx.real(f"{kind}-{lane}-{len(self.asked[kind, lane])}", lo, hi)
        self.asked[kind, lane].append((pos, v))
        return v

    def get_lateral_distance(self, lane, pos):
        return self._ans("lateral", lane, pos, -20, 20)

    def get_lane_heading(self, lane, pos):
        return self._ans("heading", lane, pos, -3.2, 3.2)

    def get_lane_width(self, lane):
        return self._ans("width", lane, None, 1, 5)

    def of(self, kind, lane, pos):
        """What the map said for this position of the agent (an unasked question has no answer)."""
        for p, v in self.asked.get((kind, lane), []):
            if p is None:
                return v
            same = self.ctx.And(self.ctx.eq(p[0], pos[0], 0 if self.ctx.sym else 1e-9), self.ctx.eq(p[1], pos[1], 0 if self.ctx.sym else 1e-9))
            if same:
                return v
        return None


def wrap(x):
    if x < -math.pi:
        return x + 2 * math.pi
    if x >= math.pi:
        return x - 2 * math.pi
    return x


def atan2(ctx, y, x):
    return car.np.arctan2(y, x)


def want_control(ctx, which, mode, s, lm, spd, acc):
    """Steering and acceleration of a mode, from the documentation of the agents."""
    th, v = s[2], s[3]
    m, lane = mode
    if which == "weird":
        if th > 0.8 or th < -0.8:
            return 0, 0
        if m == "SwitchLeft" and th >= 0:
            return 0.2, 0
        if m == "SwitchRight" and th <= 0:
            return -0.2, 0
        return 0, 0
    d = -lm.of("lateral", lane, s)
    a = 0
    if which not in ("npc", "npc-timer"):
        k = {"SwitchLeft": 1, "SwitchRight": -1, "SwitchLeft2": 2, "SwitchRight2": -2}.get(m, 0)
        if k:
            d = d + k * lm.of("width", lane, s)
        if m == "Brake":
            # as hard as allowed, but not beyond standing still within a unit of time
            a = ctx.max(-acc, -v)
        if m == "Accel":
            a = ctx.min(acc, spd - v)
    psi = wrap(lm.of("heading", lane, s) - th)
    return ctx.max(-0.61, ctx.min(0.61, psi + atan2(ctx, 0.45 * d, v))), a


def setup_car(ctx, which):
    cls, fields = CARS[which]
    spd, acc = ctx.real("speed", 0, 10), ctx.real("accel", 0, 10)
    if cls is None:
        ag = car.NPCAgent("ag")
    elif which == "weird":
        ag = make(cls, fields)
    else:
        ag = make(cls, fields, speed=spd, accel=acc)
    lim = {"theta": (-3.2, 3.2), "v": (0, 10)}
    init = [ctx.real(v, *lim.get(v, (-30, 30))) for v in fields]
    modes = MODES.get(which, ALL + (("SwitchLeft2", "SwitchRight2") if which == "switch2" else ()))
    return ag, init, modes, spd, acc, len(fields) == 5


def bicycle(ctx, s, u, timer):
    """Kinematic bicycle, reference point at the front axle, wheel base 1.75."""
    d, a = u
    th, v = s[2], s[3]
    return [v * ctx.cos(th + d), v * ctx.sin(th + d), v / 1.75 * ctx.sin(d), a] + ([1] if timer else [])


def dynamics(ctx, which):
    if ctx.sym:
        ctx.geometry(mode="cong")
    ag, s, modes, spd, acc, timer = setup_car(ctx, which)
    u = [ctx.real("delta", -1, 1), ctx.real("a", -10, 10)]
    t = ctx.real("t", 0, 10)
    got = ag.dynamics(t, list(s), list(u))
    want = bicycle(ctx, s, u, timer)
    ctx.check("number", len(got) == len(want))
    for g, w in zip(got, want):
        ctx.check("derivative", g == w if ctx.sym else ctx.eq(g, w, 1e-9))


def control(ctx, which):
    if ctx.sym:
        ctx.geometry(mode="cong")
    ag, s, modes, spd, acc, timer = setup_car(ctx, which)
    m = modes[ctx.choice("mode", len(modes))]
    lm = TestMap(ctx)
    got = ag.action_handler((m, "T1"), list(s), lm)
    want = want_control(ctx, which, (m, "T1"), s, lm, spd, acc)
    ctx.check("number", len(got) == 2)
    ctx.check("steering", ctx.eq(got[0], want[0], 1e-9))
    ctx.check("acceleration", ctx.eq(got[1], want[1], 1e-9))


def refused(ctx, which):
    """A mode the agent does not know is refused instead of driven in some way."""
    ag, s, modes, spd, acc, timer = setup_car(ctx, which)
    bad = ("Sideways", "Switch", "normal")[ctx.choice("bad", 3)]
    try:
        ag.action_handler((bad, "T1"), list(s), TestMap(ctx))
        ok = False
    except (ValueError, KeyError):
        ok = True
    ctx.check("refused", ok)


def drive(ctx, which, n, dt=DT):
    """The loop: at every step the control of the current state and mode is held for one time step."""
    patched(ctx)
    if ctx.sym:
        ctx.geometry(mode="cong")
    ag, init, modes, spd, acc, timer = setup_car(ctx, which)
    m = modes[ctx.choice("mode", len(modes))]
    lm = TestMap(ctx)
    given = list(init)
    tr = ag.TC_simulate((m, "T1"), given, n * dt, dt, lm)

    def step(i, s):
        u = want_control(ctx, which, (m, "T1"), s, lm, spd, acc)
        new = euler(s, bicycle(ctx, s, u, timer), dt)
        # cars do not reverse
        new[3] = 0 if new[3] < 0 else new[3]
        return new
    check_trace(ctx, tr, init, step, n, len(init), dt)
    ctx.check("input-kept", len(given) == len(init) and ctx.And(*[ctx.exact(a, b) for a, b in zip(given, init)]))


# ---- horizons ------------------------------------------------------------------------------------------------------------------
GRID = [(0.07, 0.01), (1.12, 0.01), (1.1, 0.1), (0.3, 0.1), (0.6, 0.2), (0.7, 0.1), (2.0, 0.5), (1.9, 0.1), (1.0, 0.01), (4.35, 0.05), (0.15, 0.05), (3, 1)]
KINDS = ("base", "npc", "car", "debounced", "vanderpol", "thermo", "craft", "robot", "sign", "ball")


class Flat:
    def __getattr__(self, k):
        return lambda *a: {"get_lane_width": 3.0}.get(k, 0.0)


def sim_kind(ctx, kind, T, dt):
    patched(ctx)
    if kind == "base":
        class Ag(PlainAgent):
            @staticmethod
            def dynamics(t, state):
                return [1.0]
        return Ag("a").TC_simulate((None,), [0.0], T, dt)
    if kind == "sign":
        return sign.SignAgent("s").TC_simulate((None,), [0.0, 1.0], T, dt)
    if kind in CARS:
        cls, fields = CARS[kind]
        ag = car.NPCAgent("ag") if cls is None else make(cls, fields)
        return ag.TC_simulate(("Normal", "T1"), [0.0, 0.0, 0.0, 1.0] + [0.0] * (len(fields) - 4), T, dt, Flat())
    cls, fields, modes, f = SIMPLE[kind]
    return make(cls, fields).TC_simulate((modes[0],), [0.5] * len(fields), T, dt)


def horizon(ctx, kind):
    T = ctx.real("T", 0.05, 4 * DT)
    tr = sim_kind(ctx, kind, T, DT)
    for i, r in enumerate(tr):
        ctx.check("time", ctx.eq(r[0], i * DT, 1e-9))
    last = tr[-1][0]
    ctx.check("reaches-horizon", last >= T - DT / 2 - 1e-9)
    ctx.check("not-a-step-beyond", last < T + DT)


def multiples(ctx, kind):
    """Whole numbers of time steps, where the quotient of the floating-point numbers may not be whole."""
    T, dt = GRID[ctx.choice("grid", len(GRID))]
    tr = sim_kind(ctx, kind, T, dt)
    n = round(T / dt)
    ctx.check("rows", len(tr) == n + 1)
    ctx.check("time", all(abs(float(r[0]) - i * dt) < 1e-9 for i, r in enumerate(tr)))


def cases(tier):
    more = tier == "thorough"
    n = 3 if more else 2
    out = []
    for k in SIMPLE:
        out.append(Case(f"trace-{k}", simple, which=k, n=n, must_reach=("start", "step", "time")))
    out.append(Case("trace-gravity", gravity, n=n, must_reach=("start", "step", "time")))
    for k in ("ProxA", "ProxB"):
        out.append(Case(f"trace-{k}", craft, which=k, n=1, must_reach=("start", "step")))
    out.append(Case("trace-sign", still, n=n, must_reach=("start", "step", "time")))
    out.append(Case("trace-base", base, n=n, must_reach=("start", "step", "time")))
    for k in CARS:
        out.append(Case(f"dynamics-{k}", dynamics, which=k, must_reach=("derivative",)))
        out.append(Case(f"control-{k}", control, which=k, must_reach=("steering", "acceleration")))
        out.append(Case(f"drive-{k}", drive, which=k, n=n if k == "weird" else 2 if more else 1, must_reach=("start", "step", "time")))
        if k != "weird":
            # a step in which braking would pass standstill
            out.append(Case(f"drive-long-{k}", drive, which=k, n=1, dt=2.0, must_reach=("start", "step", "time")))
        if k not in ("npc", "npc-timer", "weird"):
            out.append(Case(f"refused-{k}", refused, which=k, must_reach=("refused",)))
    for k in KINDS:
        if k not in ("base", "ball"):
            out.append(Case(f"horizon-{k}", horizon, kind=k, must_reach=("reaches-horizon", "time")))
        out.append(Case(f"multiples-{k}", multiples, kind=k, must_reach=("rows", "time")))
    return out
