"""Fixtures shared by the checks: controllers, agents, nodes, and ways to call the real code."""
import copy
import types
import warnings
from enum import Enum, auto

import numpy as np

warnings.simplefilter("ignore")

import verse  # noqa: E402
from verse.agents.base_agent import BaseAgent  # noqa: E402
from verse.analysis.analysis_tree import AnalysisTree, AnalysisTreeNode, AnalysisTreeNodeType  # noqa: E402
from verse.analysis import verifier as V, simulator as SIM, dryvr, incremental  # noqa: E402,F401
from verse.analysis.verifier import Verifier, ReachabilityMethod  # noqa: E402
from verse.map.lane_map import LaneMap  # noqa: E402
from verse.sensor.base_sensor import BaseSensor  # noqa: E402
from verse.scenario.scenario import Scenario, ScenarioConfig  # noqa: E402
from symx.driver import Case  # noqa: E402,F401

HEAD = '''
from enum import Enum, auto
from typing import List
import copy

class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()

class State:
    {fields}
    agent_mode: AgentMode
    def __init__(self, {args}agent_mode: AgentMode):
        pass

'''


def controller(body, cont=("x", "y"), others=None, sig=None):
    head = HEAD.format(fields="\n    ".join(f"{c}: float" for c in cont), args="".join(c + ", " for c in cont))
    if sig is None:
        sig = "ego: State" + (f", {others}: List[State]" if others else "")
    return head + f"def decisionLogic({sig}):\n" + body


def indent(src, n=4):
    return "\n".join(" " * n + l for l in src.splitlines()) + "\n"


def simple_rule(guard, action="output.agent_mode = AgentMode.B"):
    return f"    output = copy.deepcopy(ego)\n    if {guard}:\n        {action}\n    return output\n"


_agents = {}


def agent(code, aid):
    """A fresh agent object around a parsed controller (the real parser; parsed once per process)."""
    key = (code, aid)
    if key not in _agents:
        _agents[key] = BaseAgent(aid, code=code)
    a = copy.copy(_agents[key])
    return a


NO_CTRL = ""


class PlainAgent(BaseAgent):
    """An agent without decision logic."""

    def __init__(self, aid):
        from verse.parser.parser import ControllerIR
        self.decision_logic = ControllerIR.empty()
        self.id = aid
        self.init_cont = self.init_disc = None
        self.static_parameters = self.uncertain_parameters = None


def config(**kw):
    kw.setdefault("parallel", False)
    kw.setdefault("print_level", 0)
    try:
        return ScenarioConfig(**kw)
    except TypeError:
        kw.pop("print_level")
        return ScenarioConfig(**kw)


def node(trace, modes, agents, kind=AnalysisTreeNodeType.REACH_TUBE, init=None, start=0.0, nid=0, static=None,
         height=0):
    ids = list(agents)
    if init is None:
        init = {a: [list(trace[a][0][1:]), list(trace[a][1][1:])] if kind == AnalysisTreeNodeType.REACH_TUBE
                else list(trace[a][0][1:]) for a in ids}
    return AnalysisTreeNode(
        trace=trace, init=init, mode=dict(modes), static=static or {a: [] for a in ids},
        uncertain_param={a: [] for a in ids}, agent=dict(agents), height=height, assert_hits={}, child=[],
        start_time=start, ndigits=10, type=kind, id=nid)


def other_map():
    """A map whose successor information is about other agents (with track modes)."""
    m = LaneMap()
    m.h_dict = {("T0", "A", "B"): "T1"}
    return m


def transitions(nd, lane_map=None, sensor=None, cfg=None):
    """(asserts, transitions) the verifier finds on a reachtube node."""
    return Verifier.get_transition_verify_opt(cfg or config(), {}, [], nd, lane_map or LaneMap(), sensor or BaseSensor())


class PyState:
    """State object for a direct Python run of a controller."""

    def __init__(self, **kw):
        self.__dict__.update(kw)
        self.__dict__["_log"] = []

    def __deepcopy__(self, memo):
        n = PyState(**{k: v for k, v in self.__dict__.items() if k != "_log"})
        return n

    def __setattr__(self, k, v):
        self._log.append((k, v))
        self.__dict__[k] = v


_py = {}


def pymodule(code):
    if code not in _py:
        m = types.ModuleType("ctrl_under_test")
        exec(compile(code, "<controller>", "exec"), m.__dict__)
        _py[code] = m
    return _py[code]


class NamedRandom:
    """`random` for code under test that samples: every draw is an arbitrary value of its documented range
    (a named input, so that a counterexample can be replayed)."""

    def __init__(self, ctx, prefix="rnd", fixed=None):
        """fixed: position of each draw inside its range (instead of an arbitrary one)"""
        self.ctx, self.prefix, self.n, self.draws, self.fixed = ctx, prefix, 0, [], fixed

    def uniform(self, lo=0.0, hi=1.0, size=None):
        if isinstance(lo, (list, tuple, np.ndarray)):
            return self.ctx.array([self.uniform(l, h) for l, h in zip(lo, hi)])
        if self.fixed is not None:
            v = lo + (hi - lo) * self.fixed[self.n % len(self.fixed)]
            self.n += 1
            return v
        v = self.ctx.real(f"{self.prefix}{self.n}")
        self.n += 1
        self.ctx.assume_le(lo, v)
        self.ctx.assume_le(v, hi)
        self.draws.append((lo, hi, v))
        return v

    def random(self):
        return self.uniform(0.0, 1.0)

    def seed(self, *a):
        pass
