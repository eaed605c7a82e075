"""C11: the default sensor reports exactly the states, modes and static values of the agents, each under its own name."""
from .common import *

LEVEL = "model_checking"
BOUNDS = "1-4 agents in any position of the state dictionary, point states and set bounds (2 rows), all real values in [-50,50]; controllers with 0-1 argument " \
         "for others (any name, list), a map argument, no argument at all, static fields, several modes; states of equal and of different dimension"
OUTSIDE = "example sensors with noise or limited sight (user code); controllers with more than one argument for other agents (only the first is served)"
ASSUMPTIONS = ["floating point values are passed through, not computed on"]

HEAD2 = '''
from enum import Enum, auto
from typing import List
import copy

class AgentMode(Enum):
    A = auto()
    B = auto()
    C = auto()

class TrackMode(Enum):
    T0 = auto()
    T1 = auto()

class LaneObjectMode(Enum):
    Vehicle = auto()
    Ped = auto()

class State:
    x: float
    y: float
    agent_mode: AgentMode
    track_mode: TrackMode
    type: LaneObjectMode
    v: float = 0.0
    def __init__(self, x, y, agent_mode: AgentMode, track_mode: TrackMode, type: LaneObjectMode, v):
        pass

def decisionLogic(%s):
    output = copy.deepcopy(ego)
    if ego.x > 0:
        output.agent_mode = AgentMode.B
    return output
'''
CONT, DISC, STAT = ["x", "y", "v"], ["agent_mode", "track_mode"], ["type"]
SIGS = {"alone": ("ego: State", None), "others": ("ego: State, others: List[State]", "others"),
        "cars": ("ego: State, cars: List[State]", "cars"),
        "map": ("ego: State, others: List[State], track_map", "others"),
        "maponly": ("ego: State, track_map", None),
        "maplist": ("ego: State, lane_map, vehicles: List[State]", "vehicles")}


def body(ctx, sig, n, pos, simulate, extra=0):
    src = HEAD2 % SIGS[sig][0]
    ag = agent(src, "me")
    oname = SIGS[sig][1]
    ids = [f"o{i}" for i in range(n)]
    ids.insert(pos, "me")
    modes = [("A", "T0"), ("B", "T1"), ("C", "T0"), ("A", "T1")]
    stats = [["Vehicle"], ["Ped"], ["Vehicle"], ["Ped"]]
    sd, want = {}, {}
    for i, a in enumerate(ids):
        def vals(s):
            return [ctx.real(f"{a}_{v}{s}", -50, 50) for v in CONT]
        if simulate:
            row = vals("")
            sd[a] = ([ctx.real(f"t_{a}", 0, 9)] + list(row), modes[i], stats[i])
            want[a] = {k: [v] for k, v in zip(CONT, row)}
        else:
            lo, hi = vals("_l"), vals("_u")
            t = ctx.real(f"t_{a}", 0, 9)
            sd[a] = ([[t] + list(lo), [t + 0.1] + list(hi)], modes[i], stats[i])
            want[a] = {k: [l, h] for k, l, h in zip(CONT, lo, hi)}
    others = [a for a in ids if a != "me"]
    cont, disc, lens = BaseSensor().sense(ag, sd, LaneMap(), simulate)

    def same(got, exp):
        got = [got] if simulate else list(got)
        return ctx.And(len(got) == len(exp), *[ctx.exact(g, e) for g, e in zip(got, exp)])
    keys = {"ego." + k for k in CONT}
    if oname and others:
        keys |= {oname + "." + k for k in CONT}
    ctx.check("cont_names", set(cont) == keys)
    for k in CONT:
        ctx.check("ego_cont", same(cont["ego." + k], want["me"][k]))
    dkeys = {"ego." + k for k in DISC + STAT}
    if oname and others:
        dkeys |= {oname + "." + k for k in DISC + STAT}
    ctx.check("disc_names", set(disc) == dkeys)
    i = ids.index("me")
    for k, m in zip(DISC + STAT, list(modes[i]) + stats[i]):
        ctx.check("ego_disc", disc["ego." + k] == m)
    if oname:
        ctx.check("count", lens[oname] == len(others))
    if oname and others:
        for k in CONT:
            lst = cont[oname + "." + k]
            ctx.check("others_cont", len(lst) == len(others))
            for a, g in zip(others, lst):
                ctx.check("others_cont", same(g, want[a][k]))
        for j, k in enumerate(DISC + STAT):
            ctx.check("others_disc", list(disc[oname + "." + k]) == [(list(modes[ids.index(a)]) + stats[ids.index(a)])[j] for a in others])


def noego(ctx, simulate):
    ag = PlainAgent("me")
    r = [0.0] + [ctx.real(f"v{i}", -9, 9) for i in range(3)]
    sd = {a: (r if simulate else [r, r], ("A", "T0"), ["Ped"]) for a in ("o", "me")}
    cont, disc, lens = BaseSensor().sense(ag, sd, LaneMap(), simulate)
    ctx.check("cont_names", cont == {})
    ctx.check("disc_names", disc == {})


ALL = ("cont_names", "disc_names", "ego_cont", "ego_disc")


def cases(tier):
    out = []
    for sig, (_, oname) in SIGS.items():
        for n in ((0, 1, 2, 3) if tier == "thorough" or sig in ("others", "cars") else (0, 2)):
            for pos in range(n + 1):
                for sim in (True, False):
                    reach = ALL + (("count",) if oname else ()) + (("others_cont", "others_disc") if oname and n else ())
                    out.append(Case(f"{sig}-{n}-{pos}-{'sim' if sim else 'set'}", body, sig=sig, n=n, pos=pos, simulate=sim, must_reach=reach))
    for sim in (True, False):
        out.append(Case(f"noego-{sim}", noego, simulate=sim, must_reach=("cont_names",)))
    return out
