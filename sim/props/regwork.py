"""workload pieces for the registry properties"""
from .. import refabi as R
from .. import regmodel as RM

NAMES = ["alpha", "beta", "gamma8", "delta"]


class Slots:
    """each slot: a label, a lookup and the type strings it covers"""

    def __init__(self, rng, n, arrays):
        self.tag = 0
        self.arrays = arrays
        self.dyn = rng.random() < 0.3  # coders of dynamic types among the others
        self.std = False  # plain functions cannot code array items (library limitation)
        self.slots = []
        names = NAMES[:]
        rng.shuffle(names)
        for i in range(n):
            if i == 0 and rng.random() < 0.3:
                self.slots.append({"lb": "uint", "lk": ["base", "uint", None], "ty": ["uint8", "uint256"], "std": True})
                self.std = True
                continue
            nm = names.pop()
            k = rng.choice(("str", "fn", "eqp", "meth", "part", "eq"))
            lk = {"str": ["str", nm], "eq": ["eq", nm]}.get(k) or [k, "p_" + nm, [nm]]
            lb = nm if k == "str" else "L" + nm
            self.slots.append({"lb": lb, "lk": lk, "ty": [nm], "std": False})

    def coder(self, rng):
        self.tag += 1
        if self.dyn and rng.random() < 0.5:
            return ["tag", self.tag, rng.choice(("dyn", "dynobj"))]
        if rng.random() < 0.2:
            return ["tag", self.tag, "obj"]
        return ["tag", self.tag, "cls" if self.arrays or self.std or rng.random() < 0.5 else "fn"]

    def by(self, rng, s):
        if s["lk"][0] == "str" or rng.random() < 0.5:
            return ["label", s["lb"]]
        return s["lk"]

    def reg(self, rng, u, s, o, r="r"):
        op = {"u": u(), "o": o, "r": r, "lk": s["lk"], "co": self.coder(rng)}
        if s["lk"][0] != "str":
            op["lb"] = s["lb"]
        return op

    def un(self, rng, u, s, o, r="r"):
        by = ["label", s["lb"]] if o == "un" else self.by(rng, s)
        return {"u": u(), "o": o, "r": r, "by": by}

    def read(self, rng, u, s, r="r", kinds=("enc", "dec", "isenc", "istype", "has", "getE", "getD"), comp=0.5):
        t = rng.choice(s["ty"])
        v = rng.randint(0, 200)
        x = rng.random()
        if x < comp:
            f = rng.choice(("(%s)", "(%s,bool)", "(bool,(%s))") + (("%s[]", "%s[2]", "(%s[],bool)") if self.arrays else ()))
            T = f % t
            V = {"(%s)": (v,), "(%s,bool)": (v, True), "(bool,(%s))": (True, (v,)), "%s[]": [v], "%s[2]": [v, v],
                 "(%s[],bool)": ([v, v], False)}[f]
        else:
            T, V = t, v
        o = rng.choice(kinds)
        if o in ("enc", "isenc") and rng.random() < 0.12:  # a value the coder refuses
            b = rng.choice((-1, 2**300, "x", None, b"7"))
            V = replaced(V, v, b)
        op = {"u": u(), "o": o, "r": r}
        if o in ("enc", "dec"):
            op["ty"] = [T]
        else:
            op["ty"] = T
        if o == "enc":
            op["v"] = [R.to_j(V)]
        elif o == "isenc":
            op["v"] = R.to_j(V)
        elif o == "dec":
            # payload laid out for one-word elements, whatever decoder is used
            if self.dyn and rng.random() < 0.5:
                op["d"] = RM.layout(T, V, True).hex()
            else:
                n = R.resolve(T.replace(t, "uint256"))
                op["d"] = R.encode([n], [V]).hex()
        return op


def replaced(V, v, b):
    if isinstance(V, (list, tuple)):
        return type(V)(replaced(x, v, b) for x in V)
    return b if V is v else V
