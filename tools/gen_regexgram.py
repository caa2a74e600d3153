"""Random regexgram definitions: expressions, their tokens, their text."""


def T(t, v=""):
    return {"t": t, "v": v}


def expr(rng, syms, depth):
    x = rng.random()
    if depth <= 0 or x < 0.4:
        return [T("sym", rng.choice(syms))]
    k = rng.choice([0, 1, 1, 2, 2, 2, 3, 5]) if rng.random() < 0.9 else 0
    return [T("lp")] + seq(rng, syms, depth - 1, k) + [T("rp")]


def unit(rng, syms, depth):
    e = expr(rng, syms, depth)
    x = rng.random()
    if x < 0.22:
        e.append(T("rep"))
    elif x < 0.4:
        e.append(T("opt"))
    return e


def seq(rng, syms, depth, n):
    ts = []
    for _ in range(n):
        ts += unit(rng, syms, depth)
        p = 0.75 if rng.random() < 0.06 else 0.18
        while rng.random() < p:
            ts.append(T("or"))
            ts += unit(rng, syms, depth)
    return ts


TERMS = ["a", "b", "a_b", "b_a", "A_B", "1", "_"]
NTSYM = ["S", "A", "B", "S_A", "D", "E1", "F"]


def width(ts):
    """upper bound on the number of alternatives: 2 per optional, k per or"""
    w = 1
    for t in ts:
        if t["t"] in ("opt", "or"):
            w *= 2
    return w


def definition(rng):
    nts = NTSYM[:rng.choice([1, 1, 2, 2, 3, 4, 7])]
    syms = rng.sample(TERMS, rng.choice([1, 2, 2, 3])) + nts * rng.choice([0, 1])
    ts = [T("nl")] if rng.random() < 0.5 else []
    first = True
    for nt in nts + [rng.choice(nts) for _ in range(rng.choice([0, 0, 0, 1]))]:
        if not first:
            ts.append(T("nl"))
        for k in range(rng.choice([1, 1, 1, 2, 3])):
            if k:
                ts.append(T("nl"))
            if k == 0:
                ts.append(T("sym", nt))
            ts.append(T("rarr"))
            while True:
                body = seq(rng, syms, rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3, 4, 4, 7]))
                if width(body) <= 64 and len(body) <= 30:
                    break
            ts += body
        first = False
    if rng.random() < 0.5:
        ts.append(T("nl"))
    return ts


def collide(rng):
    """several repetitions of groups over symbols whose names look like joined names"""
    syms = rng.choice([["a", "b", "a_b"], ["a", "_", "a_", "_a"], ["a", "_b", "a_", "b", "a__b"], ["a", "b", "a_b", "b_a", "S"]])
    ts = []
    for k, nt in enumerate(["S", "A"][:rng.choice([1, 2])]):
        if k:
            ts.append(T("nl"))
        ts += [T("sym", nt), T("rarr")]
        for _ in range(rng.choice([1, 2, 3])):
            g = []
            if "a_b" in syms and rng.random() < 0.4:
                ts += rng.choice([[T("lp"), T("sym", "a_b"), T("rp")], [T("sym", "a_b")], [T("lp"), T("sym", "a"), T("or"), T("sym", "b"), T("rp")],
                                  [T("lp"), T("sym", "a"), T("sym", "b"), T("rp")], [T("lp"), T("lp"), T("sym", "a"), T("or"), T("sym", "b"), T("rp"), T("rp")],
                                  [T("lp"), T("lp"), T("sym", "a_b"), T("rp"), T("rp")]]) + [T("rep")]
                continue
            for _ in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < 0.15:
                    g += [T("lp"), T("sym", rng.choice(syms)), T("sym", rng.choice(syms)), T("rp")]
                else:
                    g.append(T("sym", rng.choice(syms)))
                if rng.random() < 0.2:
                    g.append(T(rng.choice(["rep", "opt"])))
                if rng.random() < 0.2:
                    g += [T("or"), T("sym", rng.choice(syms))]
            ts += [T("lp")] + g + [T("rp"), T("rep")]
            if rng.random() < 0.3:
                ts.append(T("sym", rng.choice(syms)))
    return ts


def shuffled(rng):
    """repetitions of the same parts in another order or with other operators"""
    syms = rng.sample(["a", "b", "c", "A", "S"], rng.choice([2, 2, 3]))
    ts = [T("sym", "S"), T("rarr")]

    def part():
        r = []
        for k, s in enumerate(rng.sample(syms, len(syms))):
            if k and rng.random() < 0.7:
                r.append(T("or"))
            r.append(T("sym", s))
            if rng.random() < 0.15:
                r.append(T(rng.choice(["rep", "opt"])))
        return r
    for _ in range(rng.choice([2, 2, 3])):
        ts += [T("lp")] + part() + [T("rp"), T(rng.choice(["rep", "rep", "rep", "opt"]))]
        if rng.random() < 0.4:
            ts.append(T("sym", rng.choice(syms)))
    if "A" in syms:
        ts += [T("nl"), T("sym", "A"), T("rarr")] + part()
    return ts


def siblings(rng):
    """repetitions of two or three groups that differ in a single operator, symbol or bracket"""
    syms = rng.sample(["a", "b", "A", "c"], 2)
    us = [[T("sym", rng.choice(syms))] for _ in range(rng.choice([1, 2, 2, 3]))]
    if rng.random() < 0.4:
        us[rng.randrange(len(us))] = [T("lp"), T("sym", rng.choice(syms)), T("sym", rng.choice(syms)), T("rp")]
    us = [(u, rng.choice([None, None, "opt", "rep"]), rng.random() < 0.3) for u in us]

    def flat(us):
        r = []
        for k, (u, op, alt) in enumerate(us):
            r += ([T("or")] if k and alt else []) + u + ([T(op)] if op else [])
        return [T("lp")] + r + [T("rp"), T("rep")]

    def near():
        v = list(us)
        k = rng.randrange(len(v))
        u, op, alt = v[k]
        x = rng.randrange(6)
        if x <= 2:
            v[k] = (u, rng.choice([o for o in (None, "opt", "rep") if o != op]), alt)
        elif x == 3:
            v[k] = (u, op, not alt)
        elif x == 4:
            v[k] = (u[1:-1] if len(u) > 1 else [T("lp")] + u + [T("rp")], op if len(u) == 1 else None, alt)
        else:
            v[k] = ([T("sym", rng.choice(syms))], op, alt)
        return v
    parts = [us] + [near() for _ in range(rng.choice([1, 1, 2]))]
    rng.shuffle(parts)
    ts = [T("sym", "S"), T("rarr")]
    two = rng.random() < 0.3
    for k, p in enumerate(parts):
        if k and two:
            ts += [T("nl"), T("sym", "A" if k == 1 else "B"), T("rarr")]
        ts += flat(p)
        if rng.random() < 0.7:
            ts.append(T("sym", rng.choice(["x", syms[0]])))
    if "A" in syms and not two:
        ts += [T("nl"), T("sym", "A"), T("rarr"), T("sym", "b")]
    if two:
        ts[2:2] = [T("sym", "A")] + ([T("sym", "B")] if len(parts) > 2 else [])
    return ts


def longgroups(rng):
    """repetitions of long groups, or of groups with long names, that differ late"""
    if rng.random() < 0.5:
        pre = "x" * rng.choice([7, 15, 31, 40, 64, 100, 255, 300])
        syms = [pre + s for s in ("", "y", "z")]
        k = rng.choice([0, 1, 2])
    else:
        syms = ["a", "b", "c"]
        k = rng.choice([4, 8, 12, 16, 20, 33, 40])
    base = [rng.choice(syms) for _ in range(k)]
    ts = [T("sym", "S"), T("rarr")]
    for _ in range(rng.choice([2, 2, 3])):
        g = [T("sym", s) for s in base + [rng.choice(syms) for _ in range(rng.choice([1, 1, 2]))]]
        if rng.random() < 0.15:
            g.append(T(rng.choice(["opt", "rep"])))
        ts += [T("lp")] + g + [T("rp"), T("rep")]
        if rng.random() < 0.5:
            ts.append(T("sym", rng.choice(["k", syms[0]])))
    return ts


def collapse(ts):
    out = []
    for t in ts:
        if t["t"] == "nl" and out and out[-1]["t"] == "nl":
            continue
        out.append(t)
    return out


def mutate(rng, ts):
    ts = [dict(t) for t in ts]
    for _ in range(rng.choice([1, 1, 2])):
        x = rng.randrange(4)
        i = rng.randrange(len(ts)) if ts else 0
        new = rng.choice([T("nl"), T("rarr"), T("rep"), T("opt"), T("or"), T("lp"), T("rp"), T("sym", "a"), T("junk", rng.choice(["+", ".", "-", "{", "=>", "#", "\u00e9", "'", ">", "->-"]))])
        if x == 0 and ts:
            del ts[i]
        elif x == 1 and ts:
            ts[i] = new
        elif x == 2 and len(ts) > 1:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        else:
            ts.insert(i, new)
    return collapse(ts)


S = {"rarr": "->", "rep": "*", "opt": "?", "or": "|", "lp": "(", "rp": ")"}
NLS = ["\n", "\n", "\n  ", "\r\n\t", "\r", "\r\n // a | b\r\n", "\n\r ", "\n\n   ", "\n // a comment -> (x)*\n  ", "\n//\n", "\n\n  // one\n\n // two | ?\n\n "]


def render(rng, ts):
    out = ""
    for n, t in enumerate(ts):
        k = t["t"]
        if k == "nl":
            out += rng.choice(["", " "]) + rng.choice(NLS + (["// first\n", "// first\n\n  // second\n"] if n == 0 else []))
            continue
        s = t["v"] if k in ("sym", "junk") else S[k]
        sep = rng.choice(["", " ", " ", "  ", "\t"])
        if sep == "" and out and (out[-1].isalnum() or out[-1] == "_") and (s[0].isalnum() or s[0] == "_"):
            sep = " "
        if k == "junk" or (n and ts[n - 1]["t"] == "junk"):
            sep = " "
        out += sep + s
    if ts and ts[-1]["t"] == "nl" and rng.random() < 0.3:
        out += "// end"
    return out


def nsize(ts):
    return sum(1 for t in ts if t["t"] == "sym") * max([1] + [width(b) for b in split_lines(ts)])


def split_lines(ts):
    r, cur = [], []
    for t in ts:
        if t["t"] == "nl":
            r.append(cur)
            cur = []
        else:
            cur.append(t)
    return r + [cur]


def case(rng, bad, what):
    x = rng.random()
    ts = longgroups(rng) if x < 0.02 else definition(rng) if x < 0.75 else collide(rng) if x < 0.86 else siblings(rng) if x < 0.94 else shuffled(rng)
    if bad:
        ts = mutate(rng, ts)
    nts = {t["v"] for t, u in zip(ts, ts[1:]) if u["t"] == "rarr"}
    terms = sorted({t["v"] for t in ts if t["t"] == "sym"} - nts) or ["a"]
    words = [[rng.choice(terms) for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 12]))] for _ in range(rng.choice([0, 1, 3]))]
    n = 4 if len(terms) <= 2 else 3
    return {"op": "regexgram", "ts": ts, "text": list(render(rng, ts).encode()), "seed": rng.randrange(1 << 30), "what": what,
            "trees": 3 if what == "tree" else 0, "words": words if what == "tree" else [], "n": n}
