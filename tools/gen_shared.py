"""Concurrent calls on one value."""
import gen_examples
import gen_lex
import gen_regexgram
import gen_tree
from gen_grammar import *

FORMS = ["mix", "lexer", "lexer", "parser", "parser", "grammar", "reducer", "runner", "package"]


def case(**kw):
    c = {"op": "shared", "form": "", "steps": [], "ins": [], "g": {"nts": [], "ps": []}, "via": "text", "parser": "", "lxs": [],
         "text": [], "trees": [], "fns": [], "parts": [], "who": []}
    c.update(kw)
    return c


def who(rng, ncalls, m=None):
    m = m or rng.choice([2, 3, 4, 8])
    return [[rng.randint(1, max(1, ncalls)) for _ in range(rng.randint(2, 5))] for _ in range(m)]


def lexer_steps(rng, kind):
    while True:
        h = gen_lex.lex_hist(rng, kind)["steps"]
        steps = [{"do": "new", "kind": kind, "defs": h[0]["defs"]}]
        if rng.random() < 0.3:
            steps.append({"do": "pri"})
        if rng.random() < 0.3:
            steps.append({"do": "seterr", "kind": "ERR"})
        if rng.random() < 0.3:
            steps.append({"do": "start", "ins": gen_lex.ins(rng)})
        ins = [s["in"] for s in h if s["do"] == "lex"]
        ins.append([36, 7, 97])        # most likely an error
        return steps, [i[:60] for i in ins]


def fn(rng):
    f = rng.choice(["grammar", "regexgram", "regexgram", "reducer", "reducer", "tree", "simple", "stack", "math", "json", "scalc"])
    bad = rng.random() < 0.5
    r = {"fn": f, "text": [], "defs": []}
    if f == "grammar":
        r["text"] = gen_lex.bts(rng.choice(["S -> a S\n  ->\n", "S -> S a\nbad line\n", "E -> E op E\n  -> int\n", ""]))
    elif f == "regexgram":
        r["text"] = gen_regexgram.case(rng, bad, "lang")["text"]
    elif f == "reducer":
        r["text"] = gen_tree.reducer_text(rng, bad)["text"]
    elif f == "tree":
        r["text"] = gen_lex.bts(rng.choice(["E {\n a: \"1\"\n b {\n c\n }\n}", "E {", "a", "a: \"x", "x {\n y\n}\n"]))
    elif f in ("simple", "stack"):
        steps, ins = lexer_steps(rng, f)
        r["defs"], r["text"] = steps[0]["defs"], ins[0]
    elif f == "math":
        r["text"] = gen_examples.math_text(rng)["text"]
    elif f == "json":
        r["text"] = gen_examples.json_text(rng)["text"]
    else:
        r["text"] = gen_lex.bts(rng.choice(["1 2 +", "1 2 3 + *", "+", "1 2 ) (", "3 4 5 - -", "$"]))
    return r


def other_names(rng, c):
    """a parser whose symbols are its own"""
    p = "".join(rng.choice("pqrstuvwxyz") for _ in range(4))
    c["g"] = {"nts": [p + x for x in c["g"]["nts"]], "ps": [[[p + x for x in r] for r in rs] for rs in c["g"]["ps"]]}
    for l in c["lxs"]:
        for x in l:
            x["k"] = p + x["k"]
    return c


def shared(rng, form=None):
    form = form or rng.choice(FORMS)
    if form == "mix":            # different values at the same time
        f = rng.choice(["parser", "parser", "lexer", "grammar", "runner", "any", "any"])
        parts = [shared(rng, f if f != "any" else rng.choice(["parser", "lexer", "grammar", "runner", "package", "reducer"])) for _ in range(rng.choice([2, 3, 4]))]
        parts = [other_names(rng, p) if p["form"] in ("parser", "grammar") and rng.random() < 0.7 else p for p in parts]
        for p in parts:
            p["who"] = []
        return case(form="mix", parts=parts, who=who(rng, 30))
    if form == "lexer":
        steps, ins = lexer_steps(rng, rng.choice(["simple", "stack"]))
        return case(form=form, steps=steps, ins=ins, who=who(rng, len(ins)))
    if form in ("parser", "runner"):
        g = ranked(rng, back=False) if rng.random() < 0.5 else rand_grammar(rng, nnt=(1, 4), maxlen=3)
        c = case(form=form, g=g, via=rng.choice(["text", "add", "addset", "own"]), parser=rng.choice(["packrat", "topdown"]))
        ins = [rand_input(rng, g, 7) for _ in range(4)]
        if form == "runner":
            c["steps"] = [{"do": "new", "kind": "simple", "defs": [gen_lex.bts("a\nb\nc\nd\nspace /\\s+/ -\n")]}]
            c["ins"] = [gen_lex.bts(" ".join(i)) for i in ins] + [gen_lex.bts("a ? b")]
            c["text"] = gen_lex.bts(rng.choice(["", "S {\n", "A PromoteChild(0)\n", "S RemoveAll(\"a\")\n"]))
            c["who"] = who(rng, len(c["ins"]))
        else:
            c["lxs"] = [lexemes(rng, i) for i in ins]
            c["who"] = who(rng, len(ins))
        return c
    if form == "grammar":
        g = ranked(rng) if rng.random() < 0.5 else rand_grammar(rng, nnt=(1, 4), maxlen=3)
        if rng.random() < 0.5:
            g["ps"] = [[r for r in rs if r] or [["a"]] for rs in g["ps"]]
        n = 2 * (1 + 2 * len(g["nts"])) + 6
        return case(form=form, g=g, via=rng.choice(["text", "add", "addset", "own"]), who=who(rng, n))
    if form == "reducer":
        x = gen_tree.reducer_text(rng, rng.random() < 0.1)
        return case(form=form, text=x["text"], trees=x["trees"], who=who(rng, 2 * len(x["trees"])))
    fns = [fn(rng) for _ in range(rng.randint(2, 5))]
    return case(form="package", fns=fns, who=who(rng, len(fns)))
