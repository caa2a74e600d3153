"""large members of the families of spec/Pump.tla and spec/LexPump.tla"""
import gen_lex

SIZES = [255, 256, 257, 1000, 4097, 65535, 65536, 65537, 70001]


def pick(rng, n, lim):
    if lim < 255:
        return [rng.randint(lim // 2, lim) for _ in range(n)]
    s = [x for x in SIZES if x <= lim]
    big = [x for x in s if x > lim // 3] or s
    return [rng.choice(big)] + [rng.choice(s + [rng.randint(30, lim)]) for _ in range(n - 1)]


def parse(rng, parser, n=2):
    out = []
    fams = [("L", 70001), ("R", 1000), ("N", 700), ("E", 1000), ("A", 4097), ("V", 1000), ("W", 16), ("D", 16), ("C", 1000)] \
        if parser == "packrat" else [("R", 70001), ("N", 40000), ("E", 70001), ("A", 4097), ("V", 4097), ("D", 4097), ("C", 1000)]
    for f, lim in fams:
        for bad in (0, 1):
            for k in pick(rng, n, lim):
                out.append({"op": "pump", "fam": "parse", "f": f, "n": k, "bad": bad, "parser": parser})
    return out


def rg(rng, n=2):
    return [{"op": "pump", "fam": "rg", "f": f, "n": k} for f, lim in (("star", 1000), ("group", 500)) for k in pick(rng, n, lim)]


def trees(rng, pid, n=2):
    out = []
    for f, do, i in [("wide", "print", "C14"), ("pairs", "print", "C14"), ("deep", "print", "C14"), ("wide", "clone", "C14"), ("pairs", "clone", "C14"),
                     ("deep", "clone", "C14"), ("wide", "removeall", "C15"), ("wide", "removechildren", "C15"), ("pairs", "grand", "C15"),
                     ("wide", "reduce", "C16"), ("pairs", "reduce", "C16"), ("deep", "reduce", "C16")]:
        if i == pid:
            for k in pick(rng, n, 4097 if f == "deep" else 70001 if f == "wide" else 35000):
                out.append({"op": "pump", "fam": "tree", "f": f, "do": do, "n": k, "id": pid})
    return out


def sets(rng, n=3):
    return [{"op": "pump", "fam": "set", "n": k} for k in pick(rng, n, 70001)]


def grams(rng, n=2):
    return [{"op": "pump", "fam": "gram", "end": e, "n": k} for e, lim in (("loop", 4097), ("end", 4097), ("cycle", 400), ("hidden", 400), ("open", 400), ("solid", 400))
            for k in pick(rng, n, lim)]


def eats(r, b):
    if r["t"] == "c":
        return b in r["s"]
    if r["t"] in ("n", "z"):
        return r["t"] == "n" and b not in r["s"]
    return any(eats(x, b) for x in (r["a"] if "a" in r else [r["r"]]))


NL = {"t": "c", "s": [10]}


def line_def(rng, kind):
    """a definition in which exactly one rule of each sub-lexer is about newlines, and only about them"""
    alpha = [b for b in gen_lex.alphabet(rng) if b != 10] or [97, 98]
    while True:
        d, texts = (gen_lex.simple_def if kind == "simple" else gen_lex.stack_def)(rng, alpha)
        if any(eats(r["re"], 10) for r in gen_lex.rules_of(d)) or not gen_lex.rules_of(d):
            continue
        nl = dict(t="rule", kind="NL", discard=rng.randint(0, 1), push=0, pop=rng.choice([0, 0, 9]) if kind == "stack" else 0, grps=[], re=NL)
        line = gen_lex.rule_text(rng, nl, "\\n") + "\n"
        if kind == "simple":
            texts = texts + [line] if len(texts) > 1 else [texts[0] + "\n" + line]
            d["subs"][0]["items"].append(nl)
            return d, texts, alpha
        # the rule goes first in every sub-lexer, so that inherited ones do not matter
        out, k = [], 0
        for t in texts:
            ls = []
            for l in t.split("\n"):
                ls.append(l)
                if l.strip().startswith("=="):
                    d["subs"][k]["items"].insert(0, nl)
                    ls.append(line.rstrip("\n"))
                    k += 1
            out.append("\n".join(ls))
        return d, out, alpha


def light(d):
    """lexers that take time in proportion to the input, roughly"""
    rs = gen_lex.rules_of(d)
    return len(rs) <= 8 and not any(r["push"] or r["pop"] for r in rs)


def lines(rng, kind, n, total):
    out = []
    while len(out) < n:
        d, texts, alpha = line_def(rng, kind)
        unit = gen_lex.lex_input(rng, d, alpha, maxlen=rng.choice([4, 8, 14]))
        unit += [10] * rng.choice([1, 1, 2])
        k = max(20, rng.choice([total, total // 3, rng.randint(30, 600), rng.randint(30, 3000)] if light(d) else [4000, rng.randint(30, 4000)]) // len(unit))
        out.append({"op": "pump", "fam": "lines", "kind": kind, "def": gen_lex.strip(d), "defs": [gen_lex.bts(t) for t in texts], "unit": unit, "n": k})
    return out


def runs(rng, kind, n, lim):
    out = []
    for _ in range(n):
        alpha = gen_lex.alphabet(rng)
        d, texts = (gen_lex.simple_def if kind == "simple" else gen_lex.stack_def)(rng, alpha)
        if not d["subs"]:
            continue
        c = rng.choice(alpha + [10, 33, 0xff])
        lits = {b for r in gen_lex.rules_of(d) for g in r["grps"] for b in g["lit"]}
        side = lambda: [b for b in gen_lex.lex_input(rng, d, alpha, maxlen=6) if b != c]
        if c in lits:
            continue
        out.append({"op": "pump", "fam": "run", "kind": kind, "def": gen_lex.strip(d), "defs": [gen_lex.bts(t) for t in texts],
                    "pre": side(), "c": c, "post": side(),
                    "n": pick(rng, 1, lim if rng.random() < .2 else 5000)[0] if light(d) else rng.choice([255, 256, 257, 1000, rng.randint(30, 1500)])})
    return out


EMPTY = {"kind": "stack", "dup": 0, "subs": [{"items": []}]}


def deep(rng, n):
    return [{"op": "pump", "fam": "deep", "kind": "stack", "def": EMPTY, "f": f, "n": k}
            for f in ("close", "open", "fall", "error") for k in pick(rng, n, 40000)]


def progs(rng, pid, n=2):
    fams = {"C21": [("paren", 4097), ("minus", 40)], "C22": [("items", 1000), ("nested", 1000), ("keys", 300)], "C23": [("add", 300)]}[pid]
    return [{"op": "pump", "fam": "prog", "f": f, "n": k, "bad": bad} for f, lim in fams for bad in (0, 1)
            for k in pick(rng, n, lim)]


def texts(rng, pid, n=2):
    fams = {"C14": [("tree", 70001)], "C07": [("prod", 70001), ("name", 70001), ("many", 4097)], "C08": [("rg", 1000)],
            "C13": [("simple", 4097), ("stack", 4097), ("simpleline", 70001), ("stackline", 70001), ("rules", 1000), ("subs", 1000)]}[pid]
    return [{"op": "pump", "fam": "text", "f": f, "n": k} for f, lim in fams for k in pick(rng, n, lim)]
