"""C02 registration changes are visible to every lookup that starts afterwards"""
from .. import regmodel as RM
from . import common as K
from .regwork import Slots

ID = "C02"
QUICK, THOROUGH = 12000, 400000
RULE = ("a run = 2-3 simulated threads registering/unregistering uniquely tagged coders and reading (encode, decode, "
        "encodability, lookups, also via tuples and arrays) on one registry, preempted at bytecode instructions (one run in 80: a long single-threaded life of one registry); the history "
        "(invocation/return in simulator sequence numbers) must be explained by some total order of the changes in which each "
        "read saw a state current at a moment of its own interval; non-trivial = a preemptive switch happened")


def make(rng, idx, prof):
    u = K.Uid()
    sl = Slots(rng, rng.choice((1, 1, 2)), rng.random() < 0.4)
    base = rng.choice(("lean", "lean", "copy", "std"))
    mode = rng.choice(("E", "D", "both", "mix"))
    if mode == "E" and rng.random() < 0.25:
        base = "packed"
        sl.dyn = False
    rk = {"E": ("enc", "enc", "isenc", "istype", "has", "getE"), "D": ("dec", "dec", "getD"),
          "both": ("enc", "dec", "isenc", "has"), "mix": ("enc", "dec", "isenc", "istype", "has", "getE", "getD")}[mode]
    ro = {"E": ("regE",), "D": ("regD",), "both": ("reg",), "mix": ("regE", "regD", "reg")}[mode]
    uo = {"E": ("unE",), "D": ("unD",), "both": ("un",), "mix": ("unE", "unD", "un")}[mode]
    comp = rng.choice((0.0, 0.3, 0.8))
    setup = []
    for s in sl.slots:
        if not s["std"] and rng.random() < 0.5:
            setup.append(sl.reg(rng, u, s, "reg"))
    for _ in range(rng.choice((0, 0, 1, 3))):
        setup.append(sl.read(rng, u, rng.choice(sl.slots), kinds=rk, comp=comp))
    threads = []
    nt = rng.choice((2, 2, 2, 3))
    muts = 0
    for t in range(nt):
        ops = []
        role = rng.random()
        for _ in range(rng.randint(1, 4)):
            s = rng.choice(sl.slots)
            pm = 0.9 if t == 0 else (0.15 if role < 0.6 else 0.7)
            if rng.random() < pm and muts < 7:
                muts += 1
                if rng.random() < 0.5:
                    ops.append(sl.un(rng, u, s, rng.choice(uo)))
                else:
                    ops.append(sl.reg(rng, u, s, rng.choice(ro)))
            else:
                ops.append(sl.read(rng, u, s, kinds=rk, comp=comp))
        threads.append(ops)
    if idx % 80 == 11:  # a long life in one thread
        ops = []
        few = rng.random() < 0.4  # mostly reads, or mostly changes
        for _ in range(rng.choice((120, 300, 600))):
            s = rng.choice(sl.slots)
            if rng.random() < (0.03 if few else 0.5):
                ops.append(sl.un(rng, u, s, rng.choice(uo)) if rng.random() < 0.5 else sl.reg(rng, u, s, rng.choice(ro)))
            else:
                ops.append(sl.read(rng, u, s, kinds=rk, comp=comp))
        threads = [ops]
    finale = [sl.read(rng, u, s, kinds=rk, comp=c) for s in sl.slots for c in (0.0, 1.0)]
    if len(threads) == 1:
        return {"setup": setup, "threads": threads, "finale": finale, "sched": {"mode": "none"}, "base": base, "long": 1}
    finale += [dict(op, u=u()) for op in setup + sum(threads, []) if op["o"] not in RM.MUT]
    return {"setup": setup, "threads": threads, "finale": finale, "sched": K.sched(rng, prof), "base": base}


LEAN = ("uint", "bool", "has_arrlist", "is_base_tuple")


def run(ctx):
    it = RM.Interp()
    b = ctx.sc["base"]
    it.base("r", b, LEAN)
    st = RM.base_state(b, LEAN if b == "lean" else None)
    it.prepare(ctx.sc)
    ctx.make_sim()
    ctx.run_ops(ctx.sc["setup"], it)
    ctx.run_threads(it)
    ctx.run_ops(ctx.sc["finale"], it, "end")
    if "long" in ctx.sc:
        ctx.stats["nontrivial"] = 1
        return RM.check_sequential(ctx, {"r": st})
    RM.check_concurrent(ctx, {"r": st})
