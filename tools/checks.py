#!/usr/bin/env python3
"""check.py <property id>: decides one property (VERIF_TIER, VERIF_SEED)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
from gen_grammar import *
import gen_lex
import gen_tree
import gen_regexgram
import gen_render
import gen_shared
import gen_pump
import gen_examples

CHECKS = {}
VIAS = ["text", "add", "addset", "own"]


def check(*ids):
    def d(f):
        for i in ids:
            CHECKS[i] = f
        return f
    return d


def shape(t):
    return {"k": t["k"], "ch": [shape(c) for c in t["ch"]]}


def unflat(f):
    stack = []
    for x in reversed(f):
        stack.append({"k": x["k"], "ch": [stack.pop() for _ in range(x["n"])]})
    return stack[0]


def rec(c, o):
    r = {k: v for k, v in c.items() if k not in ("op",)}
    r["obs"] = o
    return r


def calls_for(rng, n):
    xs = list(range(1, n + 1))
    rng.shuffle(xs)
    return xs + [rng.choice(xs) for _ in range(2)]


# ------------------------------------------------------------------ parsers
NT2 = ["S", "A"]
_, LISTS2 = scope(NT2, ["a", "b"], 2, 2)


def scope_sample(rng, n, nts=NT2, lists=LISTS2):
    total = len(lists) ** len(nts)
    return [scope_grammar(nts, lists, rng.randrange(total)) for _ in range(n)]


def parse_case(rng, g, ins, parser):
    prods = sum(len(rs) for rs in g["ps"])
    # every non-terminal has a production, so that adding one by one gives the same order
    grow = rng.randint(1, prods - 1) if prods > 1 and all(g["ps"]) and rng.random() < 0.25 and not (parser == "topdown" and left_recursive(g)) else 0
    return {"op": "parse", "g": g, "via": rng.choice(["text", "add", "addset", "own"]), "parser": parser,
            "ins": [lexemes(rng, s) for s in ins], "calls": calls_for(rng, len(ins)), "grow": grow}


def ambiguous_grammar(rng):
    """grammars likely to be ambiguous without empty or cyclic productions"""
    g = rand_grammar(rng, nnt=(1, 4), nterm=(1, 2), nprod=(2, 4), maxlen=4, p_eps=rng.choice([0, 0, 0.1, 0.25]), p_nt=0.6)
    return g


def big_grammars(rng, n):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.008:           # many symbols
            out.append((padded(rng, rand_grammar(rng, nnt=(1, 3), maxlen=3)), 6))
        elif x < 0.016:
            out.append((bushy(rng), 30))
        elif x < 0.045:         # long inputs
            out.append((rand_grammar(rng, nnt=(1, 3), nterm=(1, 3), nprod=(1, 3), maxlen=3, p_eps=rng.choice([0, .2])), rng.choice([20, 32])))
        elif x < 0.09:
            out.append((wide_grammar(rng), 14))
        elif x < 0.16:
            out.append((ranked(rng, nmax=6), 9))
        elif x < 0.45:
            out.append((rand_grammar(rng), 9))
        elif x < 0.65:
            out.append((rand_grammar(rng, nnt=(2, 6), nterm=(2, 4), nprod=(1, 5), maxlen=6, p_eps=0.1), 12))
        else:
            out.append((ambiguous_grammar(rng), 7))
    return out


def gen_parse(rng, nscope, nbig, parser, td=False):
    cases = []
    ins3 = all_inputs(["a", "b"], 3)
    for g in scope_sample(rng, nscope):
        cases.append(parse_case(rng, g, ins3, parser))
    for g, ml in big_grammars(rng, nbig):
        if td and left_recursive(g):
            for _ in range(20):
                g = wide_grammar(rng, p_nt=.2) if rng.random() < .1 else \
                    ranked(rng, back=False) if rng.random() < .2 else \
                    rand_grammar(rng, nnt=(1, 5), nterm=(1, 4), nprod=(1, 4), maxlen=rng.choice([2, 3, 5]),
                                 p_eps=rng.choice([0, .1, .3]), p_nt=rng.choice([.2, .35, .5]))
                if not left_recursive(g):
                    break
        ins = [rand_input(rng, g, ml) for _ in range(rng.randint(2, 5))]
        if rng.random() < 0.3:
            ins.append([])
        cases.append(parse_case(rng, g, cheap(g, ins), parser))
    for _ in range(nbig // 60):
        g, ins = rows(rng)
        ins = cheap(g, ins)
        if not (td and left_recursive(g)):
            cases.append(parse_case(rng, g, ins, parser))
    for _ in range(nbig // 100):
        cases.append(parse_case(rng, choices(rng), [["a"], ["b"], ["b", "a"], ["a", "a"], ["u3"]], parser))
    for _ in range(nbig // 250):
        g, ins = lengthy(rng, td or parser == "topdown")
        c = parse_case(rng, g, ins, parser)
        c["calls"] = rng.sample([1, 2, 3], 3)
        cases.append(c)
    return cases


@check("C01", "C02", "C03")
def c_packrat(ctx):
    rng = ctx.rng
    gs = scope_sample(rng, ctx.pick(150, 1500))
    gf = ctx.path("grammars")
    with open(gf, "w") as f:
        f.writelines(json.dumps(g) + "\n" for g in gs)
    em = ctx.explore("Packrat", "deduction machine, %d grammars of the scope {S,A}x{a,b}, <=2 productions of <=2 symbols, inputs <= 3" % len(gs),
                     env={"GF": gf, "MAXIN": "3", "ANYMAX": str(ctx.pick(12, 16))})
    cases = []
    for e in em:
        c = parse_case(rng, e["g"], [e["w"]], "packrat")
        c["calls"] = [1]
        c["exp"] = e["exp"]
        cases.append(c)
    if ctx.pid == "C01":
        ctx.replay("Packrat", [dict(c, exp=c["exp"]["ok"]) for c in cases], lambda c, o: o["res"][0]["ok"])
    elif ctx.pid == "C03":
        ctx.replay("Packrat", [dict(c, exp=c["exp"]["best"]) for c in cases if c["exp"]["best"]],
                   lambda c, o: [unflat(o["res"][0]["tree"])] if o["res"][0]["ok"] else c["exp"])
    cases = gen_parse(rng, ctx.pick(600, 8000), ctx.pick(3000, 30000), "packrat")
    if ctx.pid == "C02":
        cases += gen_parse(rng, ctx.pick(300, 4000), ctx.pick(2000, 20000), "topdown")
    run_traces(ctx, "Trace_Parse", cases)
    n = ctx.pick(1, 4)
    pumped(ctx, gen_pump.parse(rng, "packrat", n) + (gen_pump.parse(rng, "topdown", n) if ctx.pid == "C02" else []))


def run_traces(ctx, module, cases, ids=None, chunk=20000, prep=None, faults=True):
    for k in range(0, len(cases), chunk):
        part = cases[k:k + chunk]
        obs = ctx.drive(part)
        recs = [rec(c, o) for c, o in ctx.split_faults(part, obs, faults)]
        if prep:
            recs = [r for r in recs if prep(r)]
        for r in recs[:2]:
            ctx.sample(r)
        ctx.validate(module, recs, ids)


def pumped(ctx, cases, faults=True):
    """large members of families whose outcome has a closed form"""
    ctx.explore("MC_Pump", "closed forms of the families, sizes up to %d" % ctx.pick(7, 16), env={"MAXN": str(ctx.pick(7, 16))})
    pump_traces(ctx, cases, faults)


def pump_traces(ctx, cases, faults=True):
    obs = ctx.drive(cases)
    # how long a large case takes, or how much memory, is nobody's promise
    big = lambda o: o.get("fault") == "hang" or (o.get("fault") == "crash" and "memory limit" in o["msg"])
    late = [c for c, o in zip(cases, obs) if big(o)]
    on_time = [(c, o) for c, o in zip(cases, obs) if not big(o)]
    recs = [rec(c, o) for c, o in ctx.split_faults([c for c, _ in on_time], [o for _, o in on_time], faults)]
    for r in recs[:1]:
        ctx.sample({k: v for k, v in r.items() if k != "obs"})
    ctx.validate("Trace_Pump", recs)
    ctx.stages[-1]["given_up"] = len(late)
    ctx.stages[-1]["largest"] = max([r["n"] for r in recs] or [0])


def pumped_lex(ctx, kinds, faults=True):
    rng, cases = ctx.rng, []
    for k in kinds:
        m = ctx.pick(2, 1) * len(kinds)
        cases += gen_pump.lines(rng, k, ctx.pick(24, 200) // m, 70000) + gen_pump.runs(rng, k, ctx.pick(160, 1600) // m, 70001)
    if "stack" in kinds:
        cases += gen_pump.deep(rng, ctx.pick(1, 3))
    lf = ctx.path("pump")
    with open(lf, "w") as f:
        f.writelines(json.dumps({k: v for k, v in c.items() if k not in ("op", "defs")}) + "\n" for c in cases)
    em = ctx.explore("MC_LexPump", "closed forms of the families of %d lexers" % len(cases), env={"LF": lf, "MAXN": "4"})
    if len(em) < len(cases) // 3:
        raise CheckError("few families with a closed form: %d of %d" % (len(em), len(cases)))
    pump_traces(ctx, [cases[e["i"] - 1] for e in sorted(em, key=lambda e: e["i"])], faults)


@check("C04")
def c_topdown(ctx):
    rng = ctx.rng
    em = explore_grammars(ctx, "OrderedChoice", [g for g in scope_sample(rng, ctx.pick(400, 4000)) if not left_recursive(g)],
                          "ordered choice machine", env={"MAXIN": "3"})
    cases = []
    for e in em:
        c = parse_case(rng, e["g"], [e["w"]], "topdown")
        c["calls"] = [1]
        c["exp"] = e["exp"]
        cases.append(c)
    ctx.replay("OrderedChoice", cases,
               lambda c, o: [unflat(o["res"][0]["tree"])] if o["newerr"] == "" and o["res"][0]["ok"] else [])
    run_traces(ctx, "Trace_Parse", gen_parse(rng, ctx.pick(500, 8000), ctx.pick(3500, 40000), "topdown", td=True))
    pumped(ctx, gen_pump.parse(rng, "topdown", ctx.pick(1, 4)))


def explore_grammars(ctx, module, gs, desc, env=None):
    gf = ctx.path("grammars")
    with open(gf, "w") as f:
        f.writelines(json.dumps(g) + "\n" for g in gs)
    return ctx.explore(module, "%s, %d grammars" % (desc, len(gs)), env=dict(env or {}, GF=gf))


# ------------------------------------------------------------ facts about grammars
NT3 = ["S", "A", "B"]
_, LISTS3 = scope(NT3, ["a"], 2, 2)


def gram_pool(rng, nscope, nbig, eps=True):
    gs = scope_sample(rng, nscope)
    gs += scope_sample(rng, nscope, NT3, LISTS3)
    for _ in range(nbig):
        x = rng.random()
        if x < (0.02 if eps else 0.01):
            gs.append(padded(rng, rand_grammar(rng, nnt=(1, 3), maxlen=3, p_eps=0.2 if eps else 0, p_nt=rng.choice([.2, .45]))))
            continue
        if x < 0.03 and eps:
            gs.append(bushy(rng))
            continue
        if eps and x < 0.17:
            gs.append(wide_grammar(rng))
            continue
        if x < 0.25:
            gs.append(chained(rng, eps))
            continue
        if x < 0.3:
            gs.append(units(rng) if rng.random() < .6 else primed(rng))
            continue
        if x < 0.5:
            gs.append(ranked(rng, eps=eps, nmax=8 if eps else 4))
            continue
        p_nt = rng.choice([.3, .5, .8])
        gs.append(rand_grammar(rng, nnt=(1, 6 if eps else (6 if p_nt == .3 else 4 if p_nt == .5 else 3)), nterm=(1, 4),
                               nprod=(1, 4 if eps or p_nt < .8 else 3), maxlen=rng.choice([2, 4, 5]),
                               p_eps=rng.choice([0, 0.15, 0.3]) if eps else 0, p_nt=p_nt))
    if not eps:
        gs = [g for g in gs if all(r for rs in g["ps"] for r in rs)]
    return gs


@check("C05")
def c_leftrec(ctx):
    rng = ctx.rng
    em = explore_grammars(ctx, "FrontMachine", gram_pool(rng, ctx.pick(400, 4000), ctx.pick(300, 3000)), "sentential fronts")
    ctx.replay("FrontMachine", [{"op": "lr", "g": e["g"], "via": rng.choice(VIAS), "exp": e["lr"]} for e in em if e["start"]],
               lambda c, o: o["lr"])
    gs = gram_pool(rng, ctx.pick(1500, 30000), ctx.pick(3000, 60000))
    run_traces(ctx, "Trace_Gram", [{"op": "lr", "what": "lr", "g": g, "via": rng.choice(VIAS), "grow": rng.randint(0, 1)} for g in gs])
    pumped(ctx, gen_pump.grams(rng, ctx.pick(1, 4)))


@check("C06")
def c_removelr(ctx):
    rng = ctx.rng
    small = [g for g in gram_pool(rng, ctx.pick(1200, 12000), 0, eps=False)]
    small += [g for g in [units(rng) if rng.random() < .5 else rand_grammar(rng, nnt=(2, 3), nterm=(1, 2), nprod=(1, 3), maxlen=3, p_eps=0, p_nt=.6)
                          for _ in range(ctx.pick(200, 3000))] if len(g["nts"]) < 4]
    n = ctx.pick(3, 4)
    em = explore_grammars(ctx, "RemoveLR", small, "any order of steps, strings of <= %d" % n, env={"MAXLEN": str(n)})
    cases = {}
    for e in em:
        ts = sorted({s for rs in e["g"]["ps"] for r in rs for s in r} - set(e["g"]["nts"]))
        w = sorted(e["acc"])
        cases[json.dumps(e["g"])] = {"op": "removeparse", "g": e["g"], "via": rng.choice(VIAS), "qs": ts, "n": n, "grow": rng.randint(0, 1), "exp": [w, 1]}
    ctx.replay("RemoveLR", list(cases.values()), lambda c, o: [sorted(o["acc"]), o["td"]] if "acc" in o else o)
    gs = []
    while len(gs) < ctx.pick(2500, 40000):
        gs += gram_pool(rng, 300, 300, eps=False)
    cases = []
    for g in gs:
        cases.append({"op": "remove", "what": "remove", "g": g, "via": rng.choice(VIAS), "n": 5, "grow": rng.randint(0, 1)})

    def bound(r):       # how long the strings are that are compared: by the size of the grammars
        size = sum(map(len, r["obs"]["out"]["ps"])) + sum(map(len, r["g"]["ps"]))
        r["n"] = 5 if size <= 16 else 4 if size < 30 else 3 if size <= 200 else 2
        return size <= 1500
    run_traces(ctx, "Trace_Gram", cases, prep=bound)


@check("C20")
def c_analyze(ctx):
    rng = ctx.rng
    em = explore_grammars(ctx, "FrontMachine", gram_pool(rng, ctx.pick(400, 4000), ctx.pick(300, 3000)), "sentential fronts")
    cases = []
    for e in em:
        ts = sorted({s for rs in e["g"]["ps"] for r in rs for s in r} - set(e["g"]["nts"]))
        cases.append({"op": "analyze", "g": e["g"], "via": rng.choice(VIAS), "set": rng.randint(0, 2), "qs": [e["a"]] + ts,
                      "exp": [1, e["nil"], [t for t in ts if t in e["first"]]]})
    ctx.replay("FrontMachine", cases, lambda c, o: [o["ans"][0]["nonterm"], o["ans"][0]["nil"],
                                                    [t for t, f in zip(c["qs"][1:], o["ans"][0]["first"][1:]) if f]])
    cases = []
    for g in gram_pool(rng, ctx.pick(1000, 20000), ctx.pick(2500, 50000)):
        syms = sorted({s for rs in g["ps"] for r in rs for s in r} | set(g["nts"]))
        qs = syms + ["unknown", "S'"]
        rng.shuffle(qs)
        cases.append({"op": "analyze", "what": "analyze", "g": g, "via": rng.choice(VIAS), "qs": qs, "set": rng.randint(0, 2), "grow": rng.randint(0, 1)})
    run_traces(ctx, "Trace_Gram", cases)
    pumped(ctx, gen_pump.grams(rng, ctx.pick(1, 4)))


# ------------------------------------------------------------ grammar text and histories
def B(s):
    return list(s.encode() if isinstance(s, str) else s)


SYMS = ["A", "B", "E", "a", "b", "int", "(", ")", "*", "|", "a.b", "-", ">", "-x", "START", "\u00e9\u4e2d", "E'", "%s", "1", "\\n", "\"q\"",
        "%d", "%", "%!", "$1", "${a}", "{", "}", "/", "//", "#", "=>", "::=", "A_1", "aB", "\u00c9", "\\", "`", "'", ",", ";", "<a>", "[b]", "&", "?"]


def gram_text(rng):
    lines = []
    big = rng.random() < 0.02
    calm = rng.random() < 0.7
    odd = rng.random() < 0.1
    S = SYMS + (["s%d" % k for k in range(400)] + ["x" * 70] if big else [])
    for _ in range(rng.choice([40, 90]) if big else rng.choice([0, 1, 2, 3, 4, 6, 9, 20])):
        ws = lambda: rng.choice(["", " ", "  ", "\t", " \t ", "    ", "\r", "\f "] if odd else ["", " ", "  ", "\t", " \t ", "    "])
        gap = lambda: rng.choice([" ", "  ", " \t ", "   ", " \r ", "\r  ", " \v", " \f ", "\t "] if odd else [" ", "  ", " \t ", "   "])
        if lines and rng.random() < 0.08:      # the same line again
            lines.append(rng.choice(lines[-2:]))
            continue
        syms = [rng.choice(S) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 9 if not big else 40]))]
        body = gap().join(syms)
        x = rng.random()
        if x < 0.5:
            ln = ws() + rng.choice(S if big else S[:5] if calm else SYMS) + gap() + "->" + gap() + body + ws()
        elif x < 0.75:
            ln = ws() + "->" + gap() + body + ws()
        elif x < 0.9:
            ln = ws() + body + ws()
        elif x < 0.93:
            ln = rng.choice(SYMS[:4]) + " -> " + rng.choice(["-> ", "b -> c", "x -> y -> z"])
        else:
            ln = ws()
        lines.append(ln + rng.choice(["", "", "", "\r"]))
    return "\n".join(lines)


def gram_hist(rng):
    steps = []
    kinds = ["string", "set", "own", "nil"]
    known = list(SYMS[:8]) if rng.random() < 0.7 else rng.sample(SYMS, 8)
    for n in range(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 16])):
        x = rng.random()
        if n == 0 or x < 0.1:
            steps.append({"do": "new", "text": B(gram_text(rng))} if rng.random() < 0.8 else {"do": "empty"})
        elif x < 0.5:
            steps.append({"do": "add", "from": B(rng.choice(known)), "kind": rng.choice(kinds),
                          "to": [B(rng.choice(known)) for _ in range(rng.choice([0, 1, 2, 3]))]})
        elif x < 0.75:
            steps.append({"do": "query", "sym": B(rng.choice(SYMS + ["nope"])), "kind": rng.choice(kinds)})
        elif x < 0.93:
            steps.append({"do": "print"})
        else:
            steps.append({"do": "scribble"})
    steps.append({"do": "print"})
    return {"op": "gramhist", "steps": steps}


@check("C07")
def c_gramtext(ctx):
    em = ctx.explore("MC_GrammarText", "all texts of <= %d lines over 9 line forms" % ctx.pick(4, 5), env={"MAXLINES": str(ctx.pick(4, 5))})
    cases = [{"op": "gramhist", "exp": e["exp"], "steps": [{"do": "new", "text": [b for k, l in enumerate(e["lines"]) for b in ([10] if k else []) + l]}]}
             for e in em]
    ctx.replay("MC_GrammarText", cases, lambda c, o: {"err": o["steps"][0]["err"], "g": o["steps"][0]["g"]})
    run_traces(ctx, "Trace_GrammarHist", [gram_hist(ctx.rng) for _ in range(ctx.pick(4000, 60000))])
    pumped(ctx, gen_pump.grams(ctx.rng, ctx.pick(1, 4)) + gen_pump.texts(ctx.rng, "C07", ctx.pick(2, 6)))


# ------------------------------------------------------------ symbols and productions
def sym_alias_hist(rng):
    """histories in which several handles lead to the same stored production"""
    T = ["a", "b", "c", "d"]
    ts = lambda k: [rng.choice(T) for _ in range(k)]
    steps = [{"do": "prod", "set": 1, "from": rng.randint(0, 2), "texts": ts(rng.randint(0, 2))}]
    for _ in range(rng.randint(0, 3)):
        steps.append({"do": "padd", "h": 1, "from": 0, "texts": ts(1)})
    steps.append({"do": "list", "set": rng.choice([1, 1, 2]), "hs": [1] * rng.randint(1, 2)})
    for _ in range(2):
        steps.append({"do": "lget", "h": 1, "i": 0})
    if rng.random() < 0.4:
        steps.append({"do": "list", "set": 1, "hs": [2, 3]})
    if rng.random() < 0.4:
        steps.append({"do": "pcast", "set": rng.randint(1, 2), "h": rng.randint(1, 3)})
    for _ in range(rng.randint(2, 5)):
        steps.append({"do": "padd", "h": rng.randint(1, 3), "from": rng.randint(0, 2), "texts": ts(rng.randint(1, 2))})
    if rng.random() < 0.5:
        steps.append({"do": "ladd", "h": 1, "hs": [rng.randint(1, 3)]})
        steps.append({"do": "padd", "h": rng.randint(1, 3), "from": 0, "texts": ts(1)})
    return {"op": "symhist", "steps": steps}


def sym_hist(rng):
    if rng.random() < 0.3:
        return sym_alias_hist(rng)
    T = ["a", "b", "c", "d", "", "a b", "A"]
    if rng.random() < 0.15:
        T += ["s%d" % k for k in range(15)]
    big = rng.random() < 0.03
    if big:
        T += ["s%d" % k for k in range(rng.choice([70, 140, 300]))]
    np = nl = 0
    lens = []           # list lengths are not tracked: lget may be out of range
    steps = []
    maybe = 0           # handles that may exist depending on lget
    n = rng.randint(4, 22) if rng.random() < 0.9 else 40
    sizes = {}
    lists = []
    for _ in range(n):
        x = rng.random()
        st, fr = rng.randint(1, 2), rng.randint(0, 2)
        texts = [rng.choice(T) for _ in range(rng.choice([0, 1, 1, 2, 3, 5] if not big else [0, 3, 20, 70]))]
        if x < 0.06:
            e = {"do": "str", "set": st, "text": rng.choice(T)}
        elif x < 0.12:
            e = {"do": "conv", "set": st, "from": fr, "text": rng.choice(T)}
        elif x < 0.15:
            e = {"do": "has", "set": st, "text": rng.choice(T)}
        elif x < 0.21:
            e = {"do": rng.choice(["idx", "hassym"]), "set": st, "from": fr, "text": rng.choice(T)}
        elif x < 0.25:
            e = {"do": "byidx", "set": st, "i": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 12, 20, 65, 130, 260])}
        elif x < 0.27:
            e = {"do": "size", "set": st}
        elif x < 0.31:
            e = {"do": "load", "set": st, "texts": texts}
        elif x < 0.43 or not np:
            e = {"do": "prod", "set": st, "from": fr, "texts": texts}
            np += 1
        elif x < 0.63:
            e = {"do": "padd", "h": rng.randint(max(1, np - 3), np), "from": fr, "texts": texts}
        elif x < 0.69:
            e = {"do": "pcast", "set": st, "h": rng.randint(1, np)}
            np += 1
        elif x < 0.72:
            e = {"do": rng.choice(["pget", "sget"]), "h": rng.randint(1, np), "i": rng.choice([0, 1, 2, 3, 4, 5, 300])}
        elif x < 0.73:
            e = {"do": "nil"}
        elif x < 0.75:
            rules = [[rng.choice(T) for _ in range(rng.choice([1, 2, 3, 5]))] for _ in range(rng.choice([0, 1, 3, 6]))]
            e = {"do": "loadg", "from": 0, "rules": rules}
        elif x < 0.77 and lists:
            e = {"do": "slget", "h": rng.randint(1, len(lists)), "i": rng.choice([0, 1, 2, 3, 60])}
        elif x < 0.80 or not lists:
            hs = [rng.randint(1, np) for _ in range(rng.choice([0, 1, 2, 3]))]
            e = {"do": "list", "set": st, "hs": hs}
            lists.append([len(hs)])
        elif x < 0.86:
            hs = [rng.randint(1, np) for _ in range(rng.choice([1, 2]))]
            h = rng.randint(1, len(lists))
            e = {"do": "ladd", "h": h, "hs": hs}
            lists[h - 1][0] += len(hs)
        elif x < 0.96:
            h = rng.randint(1, len(lists))
            i = rng.randint(0, 3)
            e = {"do": "lget", "h": h, "i": i}
            steps.append(e)
            e = {"do": "size", "set": st}
            if i < lists[h - 1][0]:
                np += 1
        else:
            h = rng.randint(1, len(lists))
            e = {"do": "lcast", "set": st, "h": h}
            # only within the same set is it the same object; its set decides
            lists.append(lists[h - 1] if sizes.get(h) == st else [lists[h - 1][0]])
        if e["do"] in ("list", "lcast"):
            sizes[len(lists)] = st
        steps.append(e)
    return {"op": "symhist", "steps": steps}


@check("C19")
def c_symbols(ctx):
    d = ctx.pick(4, 5)
    em = ctx.explore("MC_Symbols", "all histories of %d operations" % d, env={"DEPTH": str(d)})
    if not ctx.thorough:
        em = [e for e in em if ctx.rng.random() < min(1, 12000 / len(em))]
    ctx.replay("MC_Symbols", [{"op": "symhist", "steps": e["steps"], "exp": e["exp"]} for e in em],
               lambda c, o: o["steps"][-1]["view"] if not any(s["note"] for s in o["steps"]) else o["steps"])
    run_traces(ctx, "Trace_Symbols", [sym_hist(ctx.rng) for _ in range(ctx.pick(3000, 60000))])
    pumped(ctx, gen_pump.sets(ctx.rng, ctx.pick(2, 9)))


# ------------------------------------------------------------ lexers
def lex_model_defs(rng, kind, n):
    out = []
    while len(out) < n:
        alpha = sorted(rng.sample(gen_lex.ALPHA, 3))
        d, defs = (gen_lex.simple_def if kind == "simple" else gen_lex.stack_def)(rng, alpha)
        if not gen_lex.rules_of(d):
            continue
        if kind == "simple" or rng.random() < 0.3 or any(it.get("push") for s in d["subs"] for it in s["items"]):
            out.append({"def": gen_lex.strip(d), "mode": rng.choice(["len", "len", "pri"]), "alpha": alpha + [33],
                        "start": {"kind": rng.choice(["", "S"]), "val": [115]}, "end": {"kind": rng.choice(["", "E"]), "val": [101]},
                        "defs": [gen_lex.bts(t) for t in defs]})
    return out


def lex_explore(ctx, kind, n, maxin):
    ds = lex_model_defs(ctx.rng, kind, n)
    df = ctx.path("defs")
    with open(df, "w") as f:
        f.writelines(json.dumps({k: v for k, v in d.items() if k != "defs"}) + "\n" for d in ds)
    em = ctx.explore("MC_Lex", "%d %s lexers, all inputs <= %d over 4 bytes" % (n, kind, maxin), env={"DF": df, "MAXIN": str(maxin)})
    cases = []
    for e in em:
        d = ds[e["d"] - 1]
        steps = [{"do": "new", "kind": kind, "defs": d["defs"]}, {"do": "mode", "mode": d["mode"]},
                 {"do": "start", "ins": d["start"]}, {"do": "end", "ins": d["end"]}, {"do": "lex", "in": e["w"]}]
        cases.append({"op": "lexhist", "steps": steps, "exp": e["exp"]})
    return cases


def texts(lxs):
    return [[x["k"], x["v"], x["e"]] for x in lxs]


@check("C10", "C11")
def c_lex(ctx):
    kind = "simple" if ctx.pid == "C10" else "stack"
    cases = lex_explore(ctx, kind, ctx.pick(60, 300), 4)
    ctx.replay("MC_Lex", [dict(c, exp=texts(c["exp"])) for c in cases], lambda c, o: texts(o["steps"][-1]["lxs"]))
    run_traces(ctx, "Trace_Lex", [gen_lex.lex_hist(ctx.rng, kind) for _ in range(ctx.pick(4000, 60000))])
    pumped_lex(ctx, [kind])


@check("C12")
def c_lexpos(ctx):
    cases = lex_explore(ctx, "simple", ctx.pick(30, 150), 4) + lex_explore(ctx, "stack", ctx.pick(30, 150), 4)
    ctx.replay("MC_Lex", cases,
               lambda c, o: o["steps"][-1]["lxs"] if texts(o["steps"][-1]["lxs"]) == texts(c["exp"]) else c["exp"], faults=False)
    run_traces(ctx, "Trace_Lex", [gen_lex.lex_hist(ctx.rng, k) for k in ("simple", "stack") for _ in range(ctx.pick(2500, 30000))], faults=False)
    pumped_lex(ctx, ["simple", "stack"], faults=False)


@check("C13")
def c_lexdef(ctx):
    rng = ctx.rng
    for n, k in ctx.pick([(1, 3), (2, 2), (3, 1)], [(1, 4), (2, 2), (3, 1), (4, 1)]):
        em = ctx.explore("MC_LexDef", "all definitions of %d sub-lexers with <= %d items" % (n, k), env={"NSUBS": str(n), "NITEMS": str(k)})
        names = gen_lex.SUBS[:n]
        cases = []
        for e in em:
            defs = ""
            for nm, sub in zip(names, e["def"]["subs"]):
                defs += "== %s ==\n" % nm
                for it in sub["items"]:
                    if it["t"] == "inh":
                        defs += "  " + names[it["sub"] - 1] + "\n"
                    else:
                        it["re"] = dict(it["re"], text="[a")
                        defs += gen_lex.rule_text(rng, it, gen_lex.render(it["re"]), names) + "\n"
            cases.append({"op": "lexhist", "exp": [e["exp"]["ok"], texts(e["exp"]["lxs"])],
                          "steps": [{"do": "new", "kind": "stack", "defs": [gen_lex.bts(defs)]}, {"do": "lex", "in": e["in"]}]})
        ctx.replay("MC_LexDef", cases,
                   lambda c, o: [1 - o["steps"][0]["err"] if o["steps"][0]["err"] != o["steps"][0]["have"] else 2, texts(o["steps"][1]["lxs"])])
    cases = [gen_lex.lex_hist(rng, rng.choice(["simple", "stack"]), bad=rng.random() < 0.7) for _ in range(ctx.pick(5000, 60000))]
    run_traces(ctx, "Trace_Lex", cases)
    pumped(ctx, gen_pump.texts(rng, "C13", ctx.pick(1, 6)))


# ------------------------------------------------------------ trees
@check("C14")
def c_treetext(ctx):
    rng = ctx.rng
    n = ctx.pick(4, 5)
    em = ctx.explore("MC_TreeText", "all texts of <= %d lines over 9 line forms" % n, env={"MAXLINES": str(n)})
    cases = [{"op": "treehist", "exp": e["exp"],
              "steps": [{"do": "text", "r": 1, "text": list(b"\n".join(gen_tree.line_text(rng, l) for l in e["lines"]))}]} for e in em]
    ctx.replay("MC_TreeText", cases,
               lambda c, o: {"err": o["steps"][0]["err"], "t": [o["steps"][0]["regs"][0]] if o["steps"][0]["err"] == 0 and o["steps"][0]["links"] else []})
    run_traces(ctx, "Trace_Tree", [gen_tree.text_hist(rng) for _ in range(ctx.pick(5000, 60000))])
    pumped(ctx, gen_pump.trees(rng, ctx.pid, ctx.pick(1, 4)) + gen_pump.texts(rng, "C14", ctx.pick(2, 6)))


def tree_end(c, o):
    if any(s["links"] != 1 for s in o["steps"]):
        return "links"
    return o["steps"][-1]["regs"][0]


@check("C15")
def c_treeedit(ctx):
    rng = ctx.rng
    for n, d in ctx.pick([(5, 1), (4, 2)], [(6, 1), (5, 2)]):
        em = ctx.explore("MC_Trees", "all trees of <= %d nodes, %d edits" % (n, d), env={"MAXN": str(n), "DEPTH": str(d), "MODE": "edit"})
        if len(em) > ctx.pick(15000, 300000):
            em = rng.sample(em, ctx.pick(15000, 300000))
        ctx.replay("MC_Trees", [{"op": "treehist", "exp": e["exp"], "steps":
                                 [{"do": "build", "r": 1, "t": e["t"], "how": rng.choice([0, 1, 3, 4]), "spare": rng.choice([0, 2])}] +
                                 [{"do": "edit", "r": 1, "path": h["path"], "op": h["op"]} for h in e["hist"]]} for e in em], tree_end)
    run_traces(ctx, "Trace_Tree", [gen_tree.edit_hist(rng) for _ in range(ctx.pick(5000, 80000))])
    pumped(ctx, gen_pump.trees(rng, ctx.pid, ctx.pick(1, 4)))


@check("C16")
def c_reduce(ctx):
    rng = ctx.rng
    n = ctx.pick(5, 6)
    em = ctx.explore("MC_Trees", "all trees of <= %d nodes, reducers of two rules" % n, env={"MAXN": str(n), "DEPTH": "1", "MODE": "reduce"})
    if len(em) > ctx.pick(15000, 300000):
        em = rng.sample(em, ctx.pick(15000, 300000))
    ctx.replay("MC_Trees", [{"op": "treehist", "exp": [e["t"], e["exp"]], "steps":
                             [{"do": "build", "r": 1, "t": e["t"], "how": rng.randint(0, 2)},
                              {"do": "reduce", "r": 2, "rs": [e["hist"]], "how": rng.randint(0, 1), "cans": []}]} for e in em],
               lambda c, o: o["steps"][-1]["regs"] if o["steps"][-1]["links"] == 1 else "links")
    run_traces(ctx, "Trace_Tree", [gen_tree.reduce_hist(rng) for _ in range(ctx.pick(5000, 80000))])
    pumped(ctx, gen_pump.trees(rng, ctx.pid, ctx.pick(1, 4)))


@check("C17")
def c_reducertext(ctx):
    rng = ctx.rng
    n = ctx.pick(8, 11)
    em = ctx.explore("MC_ReducerText", "all token sequences of <= %d tokens with a viable prefix" % n, env={"MAXTOK": str(n)})
    cases = [{"op": "reducetext", "text": list(gen_tree.render_toks(rng, e["ts"]).encode()), "trees": [e["tree"]], "cans": [],
              "exp": [e["exp"]["ok"], e["exp"]["out"]]} for e in em]
    if len(cases) > ctx.pick(15000, 200000):
        cases = rng.sample(cases, ctx.pick(15000, 200000))
    ctx.replay("MC_ReducerText", cases, lambda c, o: [1 - o["err"] if o["err"] != o["have"] else 2, o["outs"]])
    run_traces(ctx, "Trace_ReducerText", [gen_tree.reducer_text(rng, rng.random() < 0.4) for _ in range(ctx.pick(5000, 60000))]
               + [gen_tree.string_args(rng) for _ in range(ctx.pick(600, 8000))])


# ------------------------------------------------------------ regexgram
def rg_view(c, o):
    """the defined non-terminals and their productions, helpers shown as *, without repetitions"""
    if o["err"] or o["have"] != 1:
        return {"ok": 1 - o["err"] if o["have"] == 1 - o["err"] else 2, "nts": [], "alts": []}
    names = {t["v"] for t in c["ts"] if t["t"] == "sym"}
    nts, alts = [], []
    for nt, ps in zip(o["g"]["nts"], o["g"]["ps"]):
        if nt in names:
            a = []
            for q in ps:
                q = [x if x in names else "*" for x in q]
                if q not in a:
                    a.append(q)
            nts.append(nt)
            alts.append(a)
    return {"ok": 1, "nts": nts, "alts": alts}


@check("C08", "C09")
def c_regexgram(ctx):
    rng = ctx.rng
    n = ctx.pick(7, 8)
    em = ctx.explore("MC_RegexGram", "all token sequences of <= %d tokens with a viable prefix" % n, env={"MAXTOK": str(n), "MAXLEN": "3"})
    cases = [{"op": "regexgram", "ts": e["ts"], "text": list(gen_regexgram.render(rng, e["ts"]).encode()), "seed": 0, "trees": 0, "words": [],
              "n": 3, "what": "lang", "exp": e["exp"]} for e in em]
    if ctx.pid == "C08":
        ctx.replay("MC_RegexGram", cases, rg_view)
    what = "lang" if ctx.pid == "C08" else "tree"
    for c in cases:
        c.pop("exp")
        if what == "tree":
            c.update(what="tree", trees=2, words=[["a"], ["a", "a_b", "a"]], seed=rng.randrange(1 << 30))
    ok = [c for c, e in zip(cases, em) if e["exp"]["ok"]]
    k = ctx.pick(3000, 40000)
    cases = rng.sample(ok, min(k, len(ok)))
    cases += [gen_regexgram.case(rng, what == "lang" and rng.random() < 0.25, what) for _ in range(ctx.pick(4000, 50000))]
    run_traces(ctx, "Trace_RegexGram", cases, faults=ctx.pid == "C08")
    if ctx.pid == "C09":
        pumped(ctx, gen_pump.rg(rng, ctx.pick(1, 4)), faults=False)
    else:
        pumped(ctx, gen_pump.texts(rng, "C08", ctx.pick(2, 6)))


# ------------------------------------------------------------ the pipeline
def pipe_calls(rng):
    pat = [rng.random() < 0.25 for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 10]) if rng.random() < 0.98 else 30)]
    calls = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        n = rng.choice([0, 0, 1, 2, 3, 6, 15]) if rng.random() < 0.98 else 120
        errs = sorted(rng.sample(range(1, n + 1), rng.choice([0, 0, 1, min(n, 3)]))) if n else []
        calls.append({"in": rng.choice(["", "x", "x", "y z"]), "lex": {"nil": 0 if n or rng.random() < 0.7 else 1, "n": n, "errs": errs},
                      "parse": rng.choice([0, 1, 1, 1, 2]),
                      "reds": [{"nil": 1, "out": 0} if a else {"nil": 0, "out": rng.choice([0, 1, 10, 11, 12, 13, 14])} for a in pat]})
    return {"op": "pipeline", "calls": calls, "runner": rng.randint(0, 1), "how": rng.randrange(64)}


def pipe_real(rng):
    g = rand_grammar(rng, nnt=(1, 3), nterm=(1, 3))
    terms = sorted(terms_of(g)) or ["a"]
    kind = rng.choice(["simple", "stack"])
    lexer = ("== L ==\n" if kind == "stack" else "") + "".join("  %s /%s/\n" % (t, t) for t in terms) + "  space /\\s+/ -\n"
    ins = []
    for _ in range(rng.choice([1, 3, 4])):
        w = "".join(rng.choice(["", " "]) + t for t in rand_input(rng, g, 5))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            k = rng.randint(0, len(w))
            w = w[:k] + "!" + w[k:]
        ins.append(list(w.encode()))
    return {"op": "pipelinereal", "inputs": ins, "kind": kind, "lexer": lexer, "g": g, "parser": rng.choice(["packrat", "topdown"]),
            "nreds": rng.choice([0, 1, 2, 4]), "how": rng.randrange(3)}


@check("C18")
def c_pipeline(ctx):
    rng = ctx.rng
    for calls, reds, lx in ctx.pick([(1, 3, 3), (2, 2, 2)], [(1, 5, 5), (2, 3, 3), (3, 2, 1)]):
        em = ctx.explore("MC_Pipeline", "all answers of the stages in %d runs, <= %d reducers, <= %d lexemes" % (calls, reds, lx),
                         env={"CALLS": str(calls), "MAXR": str(reds), "MAXLX": str(lx)})
        if len(em) > 200000:
            em = rng.sample(em, 200000)
        ctx.replay("MC_Pipeline", [{"op": "pipeline", "calls": e["calls"], "runner": k % 2, "how": rng.randrange(64), "exp": e["exp"]}
                                   for k, e in enumerate(em)], lambda c, o: o["runs"])
    run_traces(ctx, "Trace_Pipeline", [pipe_calls(rng) for _ in range(ctx.pick(4000, 60000))])

    def real(r):
        r["calls"] = r["obs"].pop("calls")
        return True
    run_traces(ctx, "Trace_Pipeline", [pipe_real(rng) for _ in range(ctx.pick(1500, 20000))], prep=real, faults=False)


# ------------------------------------------------------------ example programs
def from_file(ctx, module, recs, desc, key):
    """what the specification says about each record of a file"""
    vf = ctx.path("texts")
    with open(vf, "w") as f:
        f.writelines(json.dumps(r) + "\n" for r in recs)
    em = ctx.explore(module, desc, env={"SRC": "file", "MAXIN": "0", "VF": vf})
    if len(em) != len(recs):
        raise CheckError("%s: %d answers for %d texts" % (module, len(em), len(recs)))
    return em


def prog_cmp(c, o):
    return c["exp"] if [o["ok"], o["same"]] == [c["exp"]["ok"], 1] else {"ok": o["ok"], "got": o["got"], "want": o["want"]}


@check("C21")
def c_math(ctx):
    rng = ctx.rng
    for src, n in ctx.pick([("bytes", 5), ("tokens", 8)], [("bytes", 6), ("tokens", 10)]):
        em = ctx.explore("MC_MathExpr", "all texts of <= %d %s" % (n, src), env={"SRC": src, "MAXIN": str(n)})
        ctx.replay("MC_MathExpr", [dict(e, op="math") for e in em], prog_cmp, src)
    recs = [gen_examples.math_text(rng) for _ in range(ctx.pick(8000, 100000))]
    em = from_file(ctx, "MC_MathExpr", recs, "%d random texts" % len(recs), "text")
    ctx.replay("MC_MathExpr", [dict(e, op="math") for e in em], prog_cmp, "random texts")
    pumped(ctx, gen_pump.progs(rng, ctx.pid, ctx.pick(1, 4)))


@check("C22")
def c_json(ctx):
    rng = ctx.rng
    n = ctx.pick(8, 10)
    em = ctx.explore("MC_JsonText", "all sequences of <= %d tokens with a viable prefix" % n, env={"MAXTOK": str(n)})
    if len(em) > ctx.pick(15000, 100000):
        em = rng.sample(em, ctx.pick(15000, 100000))
    cases = [dict(gen_examples.json_layout(rng, e["ps"]), exp2=e["exp"]) for e in em]
    ctx.replay("MC_JsonText", [dict(c, exp={"ok": c["exp2"], "c": []}) for c in cases], lambda c, o: {"ok": 1 - o["err"], "c": []})
    cases = [{k: v for k, v in c.items() if k != "exp2"} for c in cases]
    run_traces(ctx, "Trace_Json", cases + [gen_examples.json_text(rng) for _ in range(ctx.pick(8000, 100000))])
    pumped(ctx, gen_pump.progs(rng, ctx.pid, ctx.pick(1, 4)))


@check("C23")
def c_scalc(ctx):
    rng = ctx.rng

    def go(em, desc, every):
        # where the code has a known defect only the listed inputs are tried: all of <= 5 words
        cases = [dict(e, op="scalc", text=gen_examples.scalc_text(rng, e["ws"])) for e in em
                 if e["exp"]["ok"] != 2 and (e["exp"]["ok"] == 0 or e["aff"] == 0 or (every and len(e["ws"]) <= 5))]
        ctx.replay("MC_Scalc", cases, prog_cmp, desc)
    n = ctx.pick(5, 6)
    em = ctx.explore("MC_Scalc", "all sequences of <= %d words" % n, env={"SRC": "all", "MAXIN": str(n)})
    go(em, "all sequences", True)
    recs = [{"ws": gen_examples.scalc_words(rng)} for _ in range(ctx.pick(6000, 80000))]
    go(from_file(ctx, "MC_Scalc", recs, "%d random sequences" % len(recs), "ws"), "random sequences", False)
    pumped(ctx, gen_pump.progs(rng, ctx.pid, ctx.pick(1, 4)))


@check("C24")
def c_helpers(ctx):
    rng = ctx.rng
    n = ctx.pick(2, 3)
    em = ctx.explore("MC_Render", "all lists of <= %d lexemes over few kinds, values and positions" % n, env={"MAXIN": str(n)})
    cases = []
    for e in em:
        ls = [dict(x, how=rng.randrange(3)) for x in e["ls"]]
        cases.append({"op": "lexemes", "ls": ls, "exp": e["exp"]})
    ctx.replay("MC_Render", cases, lambda c, o: {k: o[k] for k in ("str", "list", "errs", "own")})
    cases = gen_render.musts() + [gen_render.lexemes(rng) for _ in range(ctx.pick(4000, 60000))]
    cases += [gen_render.musttext(rng) for _ in range(ctx.pick(1500, 20000))]
    cases += [gen_render.iters(rng) for _ in range(ctx.pick(1500, 20000))]
    cases += [gen_render.errtext(rng) for _ in range(ctx.pick(1000, 20000))]
    run_traces(ctx, "Trace_Render", cases)


@check("C25")
def c_shared(ctx):
    rng = ctx.rng
    os.environ["GORACE"] = "halt_on_error=1 exitcode=66"
    ctx.build("-race")
    defs, files = [], []
    while len(defs) < ctx.pick(30, 200):
        kind = rng.choice(["simple", "stack"])
        alpha = gen_lex.alphabet(rng)[:4]
        d, ds = gen_lex.simple_def(rng, alpha, rng.randint(1, 3)) if kind == "simple" else gen_lex.stack_def(rng, alpha)
        if sum(len(s["items"]) for s in d["subs"]) > 6:
            continue
        ins = [[rng.choice(alpha + [36]) for _ in range(k)] for k in (rng.randint(1, 3), 3, 4)]
        defs.append({"def": gen_lex.strip(d), "ins": ins})
        files.append({"do": "new", "kind": kind, "defs": [gen_lex.bts(t) for t in ds]})
    df = ctx.path("defs")
    with open(df, "w") as f:
        f.writelines(json.dumps(d) + "\n" for d in defs)
    em = ctx.explore("MC_Shared", "two callers on one lexer, all interleavings, %d lexers" % len(defs), env={"DF": df})
    seen, cases = set(), []
    for e in em:
        k = (e["d"], tuple(e["who"]))
        if k not in seen:
            seen.add(k)
            d = e["d"] - 1
            ins = [defs[d]["ins"][w - 1] for w in e["who"]]
            cases.append(gen_shared.case(form="lexer", steps=[files[d]], ins=ins, who=[[1] * 4, [2] * 4], want=1,
                                         exp=[e["exp"][0]] * 4 + [e["exp"][1]] * 4))
    ctx.replay("MC_Shared", cases, lambda c, o: o["vals"])
    # what the package does for the first time in a process, at the same time: a few cases per process
    for _ in range(ctx.pick(8, 40)):
        run_traces(ctx, "Trace_Shared", [gen_shared.shared(rng, "package") for _ in range(8)])
    run_traces(ctx, "Trace_Shared", [gen_shared.shared(rng) for _ in range(ctx.pick(1500, 20000))], chunk=5000)


if __name__ == "__main__":
    main(CHECKS)
