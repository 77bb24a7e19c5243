"""Serves the Python prototype pool to the harness: one JSON request per line, one answer per line.

The prototype is read from /repo at start; its own printing is dropped. A request that does not
come back is ended by the harness (or by the alarm below when the harness is gone)."""
import json
import math
import os
import signal
import sys

sys.dont_write_bytecode = True
SRC = os.path.join(os.environ.get("HMMCL_REPO", "/repo"),
                   "programs/hmmcl-sandbox/src/cl_python/v3_pool.py")
out = os.fdopen(os.dup(1), "w", buffering=1)
sys.stdout = open(os.devnull, "w")
mod = type(sys)("v3_pool")
sys.modules["v3_pool"] = mod
exec(compile(open(SRC).read(), SRC, "exec"), mod.__dict__)
Pool = mod.Pool
ONE = 10 ** 12
pools = {}


def f(v):
    """1e-12 units to a double, exactly as the Rust side does"""
    v = int(v)
    q, r = abs(v) // ONE, abs(v) % ONE
    if v < 0:
        q, r = -q, -r
    return float(q) + float(r) / 1e12


def orc(v):
    return f(v) if int(v) else None


def obs(p):
    g = p.global_state
    vals = [p.X, p.X_adj, p.X_fee, p.Y, p.Y_adj, p.Y_fee, g.L, g.rP, g.fg_x, g.fg_y, g.hg_x, g.hg_y]
    return {"v": [repr(float(x)) for x in vals], "tick": g.tick,
            "ticks": sorted(p.active_ticks.keys()), "np": len(p.positions)}


# the static functions: name, and what the arguments are (amounts n, ticks t, flags b)
CALLS = {
    "t2p": (lambda t: float(Pool.tick_to_rP(t)), "t"),
    "p2t": (lambda r, b: Pool.rP_to_tick(r, b), "nb"),
    "p2tl": (lambda r, b, s: Pool.rP_to_tick(r, b), "nbt"),
    "tposs": (lambda t, s, b: spaced(s).tick_to_possible_tick(t, b), "ttb"),
    "pposs": (lambda r, s, b, _: spaced(s).rP_to_possible_tick(r, b), "ntbt"),
    "liqx": (Pool.liq_x_only, "nnn"), "liqy": (Pool.liq_y_only, "nnn"),
    "liq": (Pool.liq_from_x_y_rP_rng, "nnnnn"), "liqt": (Pool._liq_from_x_y_rP_rng, "nnttt"),
    "xl": (Pool.x_from_L_rP_rng, "nnnn"), "xlt": (Pool._x_from_L_rP_rng, "nttt"),
    "yl": (Pool.y_from_L_rP_rng, "nnnn"), "ylt": (Pool._y_from_L_rP_rng, "nttt"),
    "rpa1": (Pool.rPa_from_L_rP_y, "nnn"), "rpb1": (Pool.rPb_from_L_rP_x, "nnn"),
    "rpa2": (Pool.rPa_from_x_y_rP_rPb, "nnnn"), "rpb2": (Pool.rPb_from_x_y_rP_rPa, "nnnn"),
    "dx": (Pool.dX_from_L_drP, "nnn"), "dy": (Pool.dY_from_L_drP, "nnn"),
    "dxh": (Pool.dX_from_L_drP_hmm, "nnnnn"), "dyh": (Pool.dY_from_L_drP_hmm, "nnnnn"),
    "rpdx": (Pool.rP_new_from_L_dX, "nnn"), "rpdy": (Pool.rP_new_from_L_dY, "nnn"),
}


def spaced(s):
    p = Pool("X", 9, "Y", 6, 1.0)
    p.tick_spacing = s
    return p


def serve(q):
    c = q["cmd"]
    if c == "call":
        g, kinds = CALLS[q["op"]]
        v = g(*[int(x) / 1e12 if k == "n" else x for x, k in zip(q["a"], kinds)])
        return {"i": v} if isinstance(v, int) else {"n": repr(float(v))}
    if c == "new":
        p = Pool("X", 9, "Y", 6, f(q["boot"]), q["spacing"], f(q["c"]), f(q["fee"]))
        pools[q["id"]] = p
        return obs(p)
    if c == "drop":
        pools.pop(q["id"], None)
        return {}
    if c == "rp":
        return {"rp": repr(float(Pool.tick_to_rP(q["t"])))}
    p = pools[q["id"]]
    r = None
    if c == "obs":
        pass
    elif c == "dep":
        p.deposit(q["u"], f(q["x"]), f(q["y"]), f(q["rpa"]), f(q["rpb"]))
    elif c == "wit":
        p.withdraw(q["u"], f(q["l"]), f(q["rpa"]), f(q["rpb"]))
    elif c == "swx":
        dx, dy, adj, fee, avg, end = p.execute_swap_from_X(f(q["d"]), orc(q["orc"]))
        r = [dx, dy, adj, fee, avg, end]
    elif c == "swy":
        dx, dy, adj, fee, avg, end = p.execute_swap_from_Y(f(q["d"]), orc(q["orc"]))
        r = [dy, dx, adj, fee, avg, end]
    o = obs(p)
    if r is not None:
        o["r"] = [repr(float(0.0 if x is None else x)) for x in r]
    return o


for line in sys.stdin:
    signal.alarm(90)
    try:
        a = serve(json.loads(line))
    except Exception as e:  # a refusal: the harness discards the pool
        a = {"err": f"{type(e).__name__}: {e}"[:200]}
    signal.alarm(0)
    out.write(json.dumps(a) + "\n")
