"""Cases for the helpers: lexemes, Must forms, iterators."""
import gen_lex
import gen_regexgram
import gen_tree

KS = ["a", "E", "int", "E'", "", "a b", "kind: x", "%d", "\u00e9", "(", "Lexeme{", "\"", "\n", "%s%!q"]
VS = ["", "", "x", "12", "a\"b", "\\", "\n", "\t", "a\nb\r\n", "\u00e9\u4e2d", "\x00\x01\x1f", "\x7f", "\a\b\f\v", ", ", "]", "%d%s", "  ", "'", "`", "</a>&", "x" * 50]


def bts(s):
    return list(s.encode())


def lexemes(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8]) if rng.random() < 0.97 else rng.choice([20, 33, 70])
    ls = []
    for _ in range(n):
        k, v = rng.choice(KS), rng.choice(VS) if rng.random() < 0.8 else "".join(rng.choice(VS) for _ in range(3))
        l, c = rng.choice([(-1, 0), (0, 0), (0, 1), (1, 0), (1, 1), (3, 12), (100, 0), (2, 1024), (-1, 5), (-7, -1), (0, -1), (1000000, 99)])
        ls.append({"k": bts(k), "v": bts(v), "l": l, "c": c, "err": int(rng.random() < 0.3), "how": rng.randrange(5)})
    return {"op": "lexemes", "what": "lexemes", "ls": ls}


def musttext(rng):
    form = rng.choice(["regexgram", "reducer", "stack"])
    c = {"op": "musttext", "what": "musttext", "form": form, "text": [], "subs": [], "probe": []}
    bad = rng.random() < 0.5
    if form == "regexgram":
        c["text"] = gen_regexgram.case(rng, bad, "lang")["text"]
    elif form == "reducer":
        c["text"] = gen_tree.reducer_text(rng, bad)["text"]
    else:
        alpha = gen_lex.alphabet(rng)
        for s in gen_lex.lex_hist(rng, "stack", bad=bad)["steps"]:
            if s["do"] == "new":
                c["text"], c["subs"] = s["defs"][0] if s["defs"] else [], s["defs"][1:]
                break
        c["probe"] = [rng.choice(alpha) for _ in range(12)]
        c["probe"] = [x if isinstance(x, int) else ord(x) for x in c["probe"]]
    return c


def iters(rng):
    syms = [bts(s) for s in ["a", "b", "E", "E'", "", "->", "\u00e9"]]
    ps = [[rng.choice(syms) for _ in range(rng.choice([0, 1, 2, 3, 9]))] for _ in range(rng.choice([0, 1, 2, 3, 7]))]
    if rng.random() < 0.03:
        ps += [[rng.choice(syms) for _ in range(300)]] + [[] for _ in range(60)]
    return {"op": "iter", "what": "iter", "ps": ps, "how": rng.randrange(4)}


ERRS = ["#", "##", "\u00e9", "x#", "%d", "%", "\"", "\\", ")", ":", "\u4e2d\u4e2d", "\U0001f600", "\x00", "-"]


def errtext(rng):
    t = "".join(rng.choice(["x", " ", "\n", "xx ", "\n\n"] + ERRS) for _ in range(rng.choice([0, 1, 2, 4, 8, 14])))
    return {"op": "errtext", "what": "errtext", "form": rng.choice(["simple", "stack"]),
            "kind": bts("".join(rng.choice(["Error", "E", "e r r", "\u00e9", "%s", "\u4e2d", "x", "\U0001f600"]) for _ in range(rng.choice([1, 1, 2, 5])))), "in": bts(t)}


def musts():
    return [{"op": "must", "what": "must", "form": f, "obj": o, "err": e} for f in ("lexer", "parser", "grammar") for o in (0, 1) for e in (0, 1)]
