"""random trees, edits, reductions and their texts"""
KINDS = ["A", "B", "C", "Foo", "x1"]
ODD = ["(", ")", "a.b", "%s", "\\", "+", "'", "[0]", "E'", "//", "\u00e9", "-", "_", "#\u4e2d"]
VALS = [b"", b"", b"v", b"12", b"\"", b"\\", b"\n", b"\\n", b"\t", b"\r\n", b"\x00\x07\x7f", b"\xff\xfe", "\u00e9\u4e2d\u2028\U0001f600\ufeff".encode(),
        b"{ }", b"a: \"b\" {", b"}", b"\\\"", b"%d%s", b" ", b"\\x41", b"\\u0041", b"'`", b"long" * 80]


PIECES = ([bytes([b]) for b in list(range(32)) + [127, 128, 0x9f, 0xa0, 0xc0, 0xc3, 0xe2, 0xed, 0xf0, 0xff]]
          + [chr(c).encode() for c in (0x7e, 0x80, 0x85, 0xa0, 0xad, 0xe9, 0x300, 0x378, 0x2028, 0x200b, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff)]
          + [b"\xed\xa0\x80", b"\xc0\x80", b"a", b"v", b"U", b"\\", b'"', b"'", b"x41", b"U000e0001", b"u200b", b"101", b"n", b"{", b"}", b": ", b"%q"])


class Vals:
    """values with all kinds of characters"""
    def pick(self, rng):
        if rng.random() < 0.7:
            return rng.choice(VALS)
        return b"".join(rng.choice(PIECES) for _ in range(rng.choice([1, 1, 2, 3, 5])))


WEIRD = Vals()


def tree(rng, n, kinds=KINDS, vals=None):
    """random tree with about n nodes"""
    vals = vals or [b"", b"v", b"w", b"1"]
    root = None
    nodes = []
    style = rng.random()            # mostly mixed; sometimes very deep or very wide
    for i in range(max(1, n)):
        x = {"k": rng.choice(kinds), "v": list(vals.pick(rng) if isinstance(vals, Vals) else rng.choice(vals)), "l": rng.choice([-1, 0, 1, 3]), "c": rng.choice([0, 1, 5]), "ch": []}
        if nodes:
            if style < 0.08:
                p = nodes[-1] if rng.random() < 0.9 else rng.choice(nodes)
            elif style < 0.2:
                p = nodes[0] if rng.random() < 0.85 else rng.choice(nodes)
            else:
                p = rng.choice(nodes[-4:] if rng.random() < 0.6 else nodes)
            p["ch"].insert(rng.randint(0, len(p["ch"])), x)
        else:
            root = x
        nodes.append(x)
    return root


def few(rng, t):
    x = rng.choice([-1, 0, 1])

    def walk(n):
        n["l"], n["c"] = x, 0
        if rng.random() < 0.7:
            n["v"] = []
        for c in n["ch"]:
            walk(c)
    walk(t)


def broad(rng, kinds=KINDS):
    """a node with hundreds of children"""
    t = tree(rng, 3, kinds)
    ks = rng.sample(kinds, min(2, len(kinds)))
    t["ch"] = [tree(rng, rng.choice([1, 1, 1, 3]), ks) for _ in range(rng.choice([130, 200, 258, 300]))]
    return t


def far(rng, o):
    """indexes that are far to the right"""
    z = lambda: rng.choice([1, -1]) * rng.choice([rng.randint(0, 300), rng.randint(120, 136), rng.randint(250, 260)])
    o["i"] = z()
    o["is"] = [z() for _ in o["is"]]
    return o


def size(rng, n):
    """up to n nodes, at times many more"""
    x = rng.random()
    return rng.randint(1, n) if x < 0.9 else rng.randint(n, 3 * n) if x < 0.993 else rng.randint(70, 150)


OPS_I = ["RemoveChild", "ReplaceWithChild", "PromoteChild", "PromoteChildValue", "PromoteChildrenOf"]


def op(rng, kinds=KINDS):
    o = {"o": "", "i": 0, "is": [], "ks": []}
    x = rng.random()
    if x < 0.62:
        o["o"] = rng.choice(OPS_I)
        o["i"] = rng.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, -3, -4, 5, 7, -7, 4, 6, 10, 12, -10, -12, 40, -40])
    elif x < 0.74:
        o["o"] = "RemoveChildren"
        m = rng.choice([5, 5, 5, 13, 13, 70])
        o["is"] = [rng.randint(-m, m) for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 8] if m < 70 else [8, 40]))]
    elif x < 0.84:
        o["o"] = "RemoveAll"
        o["ks"] = [rng.choice(kinds) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
    else:
        o["o"] = rng.choice(["PromoteSingleChild", "PromoteGrandChildren"])
    return o


def path(rng):
    return [rng.randint(0, 5) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 6]))]


def red(rng, depth=2, text=False):
    x = rng.random()
    if not text and rng.random() < 0.2:
        return {"t": "fn", "f": rng.choice(["mark", "rename", "grow"]), "k": rng.choice(KINDS)}
    if depth == 0 or x < 0.5:
        o = op(rng)
        if text:
            while (o["o"] == "RemoveChildren" and not o["is"]) or (o["o"] == "RemoveAll" and not o["ks"]):
                o = op(rng)
        return {"t": "op", "op": o}
    if x < 0.58:
        return {"t": "nil"}
    if x < 0.8:
        a = [red(rng, depth - 1, text) for _ in range(rng.choice([1 if text else 0, 1, 2, 3, 4, 7]) if rng.random() < 0.99 else 24)]
        return {"t": "chain", "a": a, "how": rng.randint(0, 2)}
    c = {"t": "childis", "i": rng.choice([-3, -2, -1, 0, 0, 1, 2, 3, 5, 10]), "k": rng.choice(KINDS)}
    if not text:
        y = rng.random()
        if y < 0.2:
            c = {"t": "nchildren", "i": rng.randint(0, 3), "k": ""}
        elif y < 0.3:
            c = {"t": "nil", "i": 0, "k": ""}
    return {"t": "if", "c": c, "y": branch(rng, depth - 1, text), "n": branch(rng, depth - 1, text), "how": rng.randint(0, 1)}


def branch(rng, depth, text):
    x = rng.random()
    if x < 0.25:
        return {"t": "nil"}
    if x < 0.5:
        return {"t": "chain", "a": [red(rng, 0, text) for _ in range(rng.choice([2, 2, 3, 5]))], "how": rng.randint(0, 2)}
    return red(rng, depth, text)


def reducer(rng):
    return [{"k": k, "r": red(rng)} for k in [rng.choice(KINDS) for _ in range(rng.choice([0, 1, 2, 3, 4, 7]))]]


# -- histories
def edit_hist(rng):
    how = rng.choice([0, 0, 1, 1, 3, 3, 4])
    t = tree(rng, size(rng, 14))
    if how == 3:                                   # nodes that look alike share their lexemes
        few(rng, t)
    steps = [{"do": "build", "id": "C15", "r": 1, "t": t, "how": how, "spare": rng.choice([0, 0, 1, 4])}]
    if rng.random() < 0.3:
        steps.append({"do": "build", "id": "C15", "r": 2, "t": tree(rng, rng.randint(1, 6)), "how": 0, "spare": 2})
    wide = rng.random() < 0.01
    if wide:
        steps = steps[:1]
        steps[0]["t"] = broad(rng)
    for _ in range(3 if wide else rng.randint(2, 12) if rng.random() < 0.98 else 40):
        r = 1 if len(steps) < 2 or steps[1]["do"] != "build" else rng.randint(1, 2)
        if rng.random() < 0.8:
            steps.append({"do": "edit", "r": r, "path": path(rng), "op": op(rng)} if not wide else
                         {"do": "edit", "r": r, "path": [], "op": far(rng, op(rng))})
        else:
            steps.append({"do": "query", "r": r, "path": path(rng), "ks": [rng.choice(KINDS) for _ in range(rng.randint(1, 3))]})
    return {"op": "treehist", "steps": steps}


def reduce_hist(rng):
    steps = [{"do": "build", "id": "C16", "r": 1, "t": tree(rng, size(rng, 16)), "how": rng.choice([0, 1, 2, 4]), "spare": rng.choice([0, 3])}]
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if x < 0.75:
            src = 1 if len(steps) == 1 else rng.randint(1, 2)
            steps.append({"do": "reduce", "r": 3 - src, "rs": [reducer(rng) for _ in range(rng.choice([1, 1, 1, 2, 3, 5]))],
                          "how": rng.randint(0, 1), "cans": KINDS + ["nope"]})
        elif len(steps) > 1 or steps[0]["how"] != 2:
            r = 2 if len(steps) > 1 and steps[0]["how"] == 2 else 1
            ok = steps[0]["how"] != 2 or any(s["do"] == "reduce" and s["r"] == 2 for s in steps)
            if ok:
                steps.append({"do": "apply", "r": r, "path": path(rng), "red": red(rng, 3)})
                if rng.random() < 0.3:
                    steps.append({"do": "scribble", "id": "C16", "r": r, "path": path(rng)})
    if steps[0]["how"] == 2:     # a foreign node cannot be edited in place
        seen = set()
        out = []
        for s in steps:
            if s["do"] in ("reduce", "build"):
                seen.add(s["r"]) if s["do"] == "reduce" else None
            elif s["r"] not in seen:
                continue
            out.append(s)
        steps = out
    return {"op": "treehist", "steps": steps}


BAD = ["this is not", "{", 'foo "x"', "a: b", "}}", "a {{", '"x"', 'a: "x', ': "v"', "} a }", "foo:", 'a: "x" "y"', "{ a", "a b", 'a: "x"b', "a } b", '{}', '} {']


def quote(rng, v):
    """a value in tree text: bytes as they are or escaped the way Go does"""
    out = b""
    for ch in v.decode("utf-8", "surrogateescape"):
        c = ch.encode("utf-8", "surrogateescape")
        if c == b'"' or c == b"\\":
            out += b"\\" + c
        elif c == b"\n":
            out += b"\\n"
        elif 0xdc80 <= ord(ch) <= 0xdcff or len(c) == 1 and rng.random() < 0.15:
            out += b"\\x%02x" % c[0]
        elif ord(ch) > 127 and rng.random() < 0.2:
            out += (b"\\u%04x" if ord(ch) < 0x10000 else b"\\U%08x") % ord(ch)
        else:
            out += c
    return out


def line_text(rng, ln):
    w = lambda: rng.choice([b"", b" ", b"\t", b"   "])
    if ln["bad"]:
        return w() + rng.choice(BAD).encode()
    s = w()
    if ln["close"]:
        s += b"}" + w()
    if ln["k"]:
        s += ln["k"].encode()
        if ln["v"] or rng.random() < 0.1:
            s += w() + b":" + w() + b'"' + quote(rng, bytes(ln["v"])) + b'"'
        s += w()
        if ln["open"]:
            s += b"{"
    return s


def tree_lines(rng, t):
    ln = lambda c, k, v, o: {"close": c, "k": k, "v": v, "open": o, "bad": 0}
    if not t["ch"] and rng.random() < 0.9:
        return [ln(0, t["k"], t["v"], 0)]
    ls = [ln(0, t["k"], t["v"], 1)]
    for c in t["ch"]:
        ls += tree_lines(rng, c)
    return ls + [ln(1, "", [], 0)]


def join_close(rng, ls):
    """write some closing braces before the following node"""
    out = []
    i = 0
    while i < len(ls):
        a = ls[i]
        if a["close"] and not a["k"] and i + 1 < len(ls) and not ls[i + 1]["close"] and ls[i + 1]["k"] and rng.random() < 0.3:
            out.append(dict(ls[i + 1], close=1))
            i += 2
            continue
        out.append(a)
        i += 1
    return out


def text_step(rng, r, bad):
    kinds = KINDS + ODD
    ls = join_close(rng, tree_lines(rng, tree(rng, size(rng, 8), kinds, WEIRD)))
    blank = {"close": 0, "k": "", "v": [], "open": 0, "bad": 0}
    for _ in range(rng.choice([0, 0, 1, 2])):
        ls.insert(rng.randint(0, len(ls)), blank)
    if bad:
        x = rng.randrange(7)
        i = rng.randrange(len(ls))
        if x == 0:
            ls.insert(rng.randint(0, len(ls)), dict(blank, bad=1))
        elif x == 1:
            ls.insert(rng.randint(0, len(ls)), dict(blank, close=1))
        elif x == 2:
            del ls[i]
        elif x == 3:
            ls = [blank] * rng.randint(1, 3)
        elif x == 4:
            ls = ls + tree_lines(rng, tree(rng, 2, kinds))
        elif x == 5:
            ls = ls[:i] or [blank]
        else:
            ls.insert(0, dict(blank, close=1))
    return {"do": "text", "r": r, "lines": ls, "text": list(b"\n".join(line_text(rng, l) for l in ls))}


def text_hist(rng):
    kinds = KINDS + ODD
    steps = []
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        r = rng.randint(1, 2)
        if x < 0.4:
            steps.append({"do": "build", "id": "C14", "r": r, "t": tree(rng, size(rng, 9), kinds, WEIRD), "how": rng.randint(0, 1), "spare": 0})
            steps.append({"do": "print", "r": 3 - r})
        elif x < 0.6:
            steps.append({"do": "build", "id": "C14", "r": r, "t": tree(rng, size(rng, 9), kinds, WEIRD), "how": rng.randint(0, 2), "spare": rng.choice([0, 3])})
            own = steps[-1]["how"] == 2
            steps.append({"do": "clone", "r": 3 - r})
            for _ in range(rng.randint(1, 3)):
                steps.append({"do": "scribble", "id": "C14", "r": 3 - r if own else rng.randint(1, 2), "path": path(rng)})
            if own:
                steps.append({"do": "build", "id": "C14", "r": r, "t": tree(rng, 2), "how": 0, "spare": 0})
        else:
            steps.append(text_step(rng, r, rng.random() < 0.6))
    return {"op": "treehist", "steps": steps}


# -- textual reducers
def toks_red(r):
    T = lambda t, n=0, v="": {"t": t, "n": n, "v": v}
    if r["t"] == "nil":
        return [T("Nil")]
    if r["t"] == "op":
        o = r["op"]
        ts = [T(o["o"]), T("lp")]
        if o["o"] == "RemoveChildren":
            args = [T("num", i) for i in o["is"]]
        elif o["o"] == "RemoveAll":
            args = [T("str", 0, k) for k in o["ks"]]
        elif o["o"] in OPS_I:
            args = [T("num", o["i"])]
        else:
            args = []
        for k, a in enumerate(args):
            if k:
                ts.append(T("comma"))
            ts.append(a)
        return ts + [T("rp")]
    if r["t"] == "chain":
        ts = []
        for k, a in enumerate(r["a"]):
            if k:
                ts.append(T("period"))
            ts += toks_red(a)
        return ts
    return [T("If"), T("lp"), T("ChildIs"), T("lp"), T("num", r["c"]["i"]), T("comma"), T("str", 0, r["c"]["k"]), T("rp"), T("comma")] + \
        toks_red(r["y"]) + [T("comma")] + toks_red(r["n"]) + [T("rp")]


SYM = {"lp": "(", "rp": ")", "comma": ",", "period": "."}


def render_toks(rng, ts):
    out = ""
    for t in ts:
        k = t["t"]
        if k in SYM:
            s = SYM[k]
        elif k == "num":
            s = str(t["n"])
            if rng.random() < 0.1:      # whole numbers, written in another way
                s = ("-" if t["n"] < 0 or (t["n"] == 0 and rng.random() < 0.5) else "") + rng.choice(["0", "0", "00"]) + str(abs(t["n"]))
        elif k == "str":
            raw = "\n" in t["v"] and not set(t["v"]) & set('"\\') and rng.random() < 0.5      # over two lines, as it is
            esc = lambda c: c if raw else "\\" + c if c in '"\\' else "\\n" if c == "\n" else "\\x%02x" % ord(c) if rng.random() < 0.03 else c
            s = '"' + "".join(esc(c) for c in t["v"]) + '"'
        elif k == "rule":
            s = t["v"]
        elif k == "junk":
            s = t["v"]
        else:
            s = k
        sep = rng.choice(["", "", " ", "\n", "\t ", "  // note (RemoveChild(1)) \"\n", " //\n"])
        if k == "junk":
            s += " "
        if out and (out[-1].isalnum() or out[-1] == "_") and (s[0].isalnum() or s[0] == "_") and sep == "":
            sep = " "
        if out.endswith("/") and s.startswith("/"):
            sep = " "
        out += sep + s
    if rng.random() < 0.2:
        out += rng.choice(["\n", " // end", "//", "\n\n  "])
    return out


ALLTOK = ["PromoteSingleChild", "RemoveChild", "RemoveChildren", "RemoveAll", "Nil", "If", "ChildIs", "PromoteChild", "PromoteGrandChildren",
          "PromoteChildValue", "PromoteChildrenOf", "ReplaceWithChild", "lp", "rp", "comma", "period", "num", "str", "rule", "junk"]


def rand_tok(rng):
    t = rng.choice(ALLTOK)
    return {"t": t, "n": rng.randint(-3, 3), "v": rng.choice(["A", "B", "Foo"]) if t != "junk" else rng.choice([";", "1.5", ".5", "#", "\"", "-", "/", "[", "{", "=", "\\", "\u00e9"])}


NAMES = KINDS + ["If2", "PromoteChildX", "_", "Nil1"]


def reducer_text(rng, bad):
    ts = []
    kk = ["A", "B", "(", "a\"b", "c\\d", "//", "a\nb", "\t", "a b"] if rng.random() < 0.3 else KINDS
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 9]) if rng.random() < 0.99 else 30):
        ts.append({"t": "rule", "n": 0, "v": rng.choice(NAMES)})
        r = red(rng, 3, True)
        ts += toks_red(r)
    for t in ts:
        if t["t"] == "str":
            t["v"] = rng.choice(kk)
        if t["t"] == "num" and rng.random() < 0.03:
            t["n"] = rng.choice([100, -100, 2147483647, -2147483647])
    if bad:
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.randrange(4)
            i = rng.randrange(len(ts)) if ts else 0
            if x == 0 and ts:
                del ts[i]
            elif x == 1 and ts:
                ts.insert(i, dict(ts[rng.randrange(len(ts))]))
            elif x == 2 and ts:
                ts[i] = rand_tok(rng)
            else:
                ts.insert(i, rand_tok(rng))
    trees = [tree(rng, size(rng, 10), kk) for _ in range(3)]
    if rng.random() < 0.05:
        trees = [broad(rng, kk)]
        trees[0]["k"] = next((t["v"] for t in ts if t["t"] == "rule"), "A")
        for t in ts:
            if t["t"] == "num":
                t["n"] = far(rng, {"is": []})["i"]
    return {"op": "reducetext", "ts": ts, "text": list(render_toks(rng, ts).encode()), "trees": trees,
            "cans": NAMES}


STRS = ["A", "B", "(", "a\"b", "c\\d", "//", "a\nb", "\t", "a b", "If", "RemoveAll(\"A\")", "1", "-1", "'", "%s", ",", "", "\\", "\\n", "n", "ab"]


def string_args(rng):
    """one rule about the root, decided by a string"""
    T = lambda t, n=0, v="": {"t": t, "n": n, "v": v}
    kk = rng.sample(STRS, rng.randint(2, 4))
    some = lambda: T("str", 0, rng.choice(kk))
    rm = lambda: [T("RemoveChild"), T("lp"), T("num", rng.randint(-2, 2)), T("rp")]
    ts = [T("rule", 0, "A")]
    if rng.random() < 0.5:
        ts += [T("RemoveAll"), T("lp"), some()]
        for _ in range(rng.randint(0, 2)):
            ts += [T("comma"), some()]
        ts += [T("rp")]
    else:
        ts += [T("If"), T("lp"), T("ChildIs"), T("lp"), T("num", rng.randint(-3, 3)), T("comma"), some(), T("rp"), T("comma")] + rm() + [T("comma"), T("Nil"), T("rp")]
    leaf = lambda k: {"k": k, "v": list(rng.choice([b"", b"v"])), "l": -1, "c": 0, "ch": []}
    ks = [k for k in kk if k] + ["B"]
    trees = [dict(leaf("A"), ch=[leaf(rng.choice(ks)) for _ in range(rng.randint(1, 6))]) for _ in range(3)]
    return {"op": "reducetext", "ts": ts, "text": list(render_toks(rng, ts).encode()), "trees": trees, "cans": NAMES}
