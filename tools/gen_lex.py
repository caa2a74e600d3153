"""random lexer definitions, their texts and inputs"""
import json

ALPHA = [ord(c) for c in "abAB1 \n-"]
WIDE = ALPHA + [ord(c) for c in "/_|)\"\t\r^"]
EXTRA = [ord("!"), 0xff, 0xc3, 0xa9, 0]
SPACE = [b for b in WIDE if chr(b).isspace()]
WORD = [b for b in WIDE if chr(b).isalnum() or chr(b) == "_"]
ASCII_WORD = [b for b in range(128) if chr(b).isalnum() or b == 95]
NOTS = [{"t": "n", "s": [10], "cls": "."}, {"t": "n", "s": [9, 10, 12, 13, 32], "cls": "\\S"}, {"t": "n", "s": ASCII_WORD, "cls": "\\W"},
        {"t": "n", "s": [], "cls": "(?s:.)"}, {"t": "n", "s": list(range(48, 58)), "cls": "\\D"}]
SPELT = [{"t": "c", "s": [65, 97], "cls": "(?i:a)"}, {"t": "c", "s": [97, 98], "cls": "[a-b]"}, {"t": "c", "s": [49], "cls": "\\d"},
         {"t": "c", "s": [65, 66, 97, 98], "cls": "[[:alpha:]]"}, {"t": "c", "s": [97], "cls": "\\x61"}]
ZERO = {"end": ["$", "\\z"], "eol": ["(?m:$)"], "wb": ["\\b"], "nwb": ["\\B"]}


def cls(rng, alpha):
    x = rng.random()
    if x < 0.5:
        return {"t": "c", "s": [rng.choice(alpha)]}
    if x < 0.62:
        return {"t": "c", "s": SPACE, "cls": "\\s"}
    if x < 0.74:
        return {"t": "c", "s": WORD, "cls": "\\w"}
    if x < 0.86:
        s = sorted(rng.sample(alpha, rng.randint(1, min(3, len(alpha)))))
        return rng.choice([{"t": "n", "s": s}] * 3 + NOTS)
    if x < 0.9:
        return dict(rng.choice(SPELT))
    return {"t": "c", "s": sorted(rng.sample(alpha, rng.randint(1, min(3, len(alpha)))))}


def nullable(r):
    t = r["t"]
    if t in ("c", "n"):
        return False
    if t == "z":
        return True
    if t == "cat":
        return all(nullable(x) for x in r["a"])
    if t == "alt":
        return any(nullable(x) for x in r["a"])
    if t == "q":
        return r["min"] == 0 or nullable(r["r"])
    return nullable(r["r"])


def zeros(rng, r, p):
    """r with assertions in it, none at its start"""
    a, solid = [], False
    for x in r["a"]:
        a.append(x)
        solid = solid or not nullable(x)
        if solid and rng.random() < p:
            k = rng.choice(["end", "eol", "wb", "wb", "wb", "nwb"])
            a.append({"t": "z", "k": k, "cls": rng.choice(ZERO[k])})
    return {"t": "cat", "a": a}


def regex(rng, alpha, depth=2):
    x = rng.random()
    if depth == 0 or x < 0.35:
        return cls(rng, alpha)
    if x < 0.65:
        return zeros(rng, {"t": "cat", "a": [regex(rng, alpha, depth - 1) for _ in range(rng.randint(1, 3))]}, 0.06)
    if x < 0.78:
        return {"t": "alt", "a": [regex(rng, alpha, depth - 1) for _ in range(rng.randint(2, 3))]}
    r = regex(rng, alpha, depth - 1)
    if nullable(r):
        return r
    mn, mx = rng.choice([(0, 0), (1, 0), (1, 0), (0, 1), (2, 2), (1, 3)])
    return {"t": "q", "r": r, "min": mn, "max": mx, "lazy": 1 if rng.random() < 0.15 else 0}


def grouped(rng, alpha):
    """a regular expression with capturing groups at the top level"""
    n = rng.choice([1, 1, 2, 2, 3, 3, 4, 11])
    a, k = [], 0
    for _ in range(n + rng.randint(0, 2)):
        if k < n and rng.random() < 0.7:
            k += 1
            g = {"t": "g", "n": k, "r": regex(rng, alpha, 1)}
            if rng.random() < 0.25 and not nullable(g["r"]):
                g = {"t": "q", "r": g, "min": 0, "max": 1, "lazy": 0}
            a.append(g)
        else:
            a.append(regex(rng, alpha, 1))
    return {"t": "cat", "a": a}, k


def ch(b):
    c = chr(b)
    if c == "\n":
        return "\\n"
    if c == "\t":
        return "\\t"
    if c == "\r":
        return "\\r"
    if c.isalnum() or c in " _":
        return c
    return "\\" + c


def render(r, top=True):
    t = r["t"]
    if t == "bad":
        return r["text"]
    if t == "c":
        if r.get("cls"):
            return r["cls"]
        return ch(r["s"][0]) if len(r["s"]) == 1 else "[" + "".join(ch(b) for b in r["s"]) + "]"
    if t == "z":
        return r["cls"]
    if t == "n":
        return r.get("cls") or "[^" + "".join(ch(b) for b in r["s"]) + "]"
    if t == "cat":
        s = "".join(render(x, False) for x in r["a"])
        return s if top else "(?:" + s + ")"
    if t == "alt":
        s = "|".join(render(x, True) for x in r["a"])
        return s if top else "(?:" + s + ")"
    if t == "g":
        return "(" + render(r["r"]) + ")"
    q = {(0, 0): "*", (1, 0): "+", (0, 1): "?", (2, 2): "{2}", (1, 3): "{1,3}"}[(r["min"], r["max"])]
    inner = render(r["r"], False)
    if r["r"]["t"] == "q":
        inner = "(?:" + inner + ")"
    return inner + q + ("?" if r["lazy"] else "")


def sample(rng, r):
    t = r["t"]
    if t == "c":
        return [rng.choice(r["s"])]
    if t == "z":
        return []
    if t == "n":
        return rng.choice([[b] for b in WIDE + EXTRA if b not in r["s"]] + [[0xc3, 0xa9]])
    if t == "cat":
        return [b for x in r["a"] for b in sample(rng, x)]
    if t == "alt":
        return sample(rng, rng.choice(r["a"]))
    if t == "g":
        return sample(rng, r["r"])
    mx = r["max"] or r["min"] + 3
    return [b for _ in range(rng.randint(r["min"], mx)) for b in sample(rng, r["r"])]


def lit(word):
    return {"t": "cat", "a": [{"t": "c", "s": [ord(c)]} for c in word]}


KINDS = ["a", "b", "ab", "aA", "bb", "word", "sp", "num", "x1", "nl", "op", "tok.", "'q'", "Z", "Error", "+", "-", "1", "k_2", "long-kind-name", "A", "B", "=", "x:y", "%d"]
REKINDS = {"a+": {"t": "q", "r": {"t": "c", "s": [97]}, "min": 1, "max": 0, "lazy": 0}, "[ab]": {"t": "c", "s": [97, 98]},
           "a|b": {"t": "alt", "a": [{"t": "c", "s": [97]}, {"t": "c", "s": [98]}]}, "(ab)": {"t": "g", "n": 1, "r": {"t": "cat", "a": [{"t": "c", "s": [97]}, {"t": "c", "s": [98]}]}},
           "\\s": {"t": "c", "s": SPACE}, "b?": {"t": "q", "r": {"t": "c", "s": [98]}, "min": 0, "max": 1, "lazy": 0}, "1*": {"t": "q", "r": {"t": "c", "s": [49]}, "min": 0, "max": 0, "lazy": 0}}
LITKINDS = ["a|b", "b|1", "|", "||", "a)", "^", "^a", "a^b", "1|b)", "-", "a-b", "ab|", ")^|", "a_b", "a\"b"]
BADRE = ["[a", "a(b", "*a", "a)", "(?z)", "a{3,1}", "\\"]


def rule(rng, kind, alpha, nsubs=0, groups=False):
    """returns the rule for the specification and its text pieces"""
    r = {"t": "rule", "kind": kind, "discard": 1 if rng.random() < 0.2 else 0, "push": 0, "pop": 0, "grps": []}
    plain = all(c.isalnum() for c in kind) and rng.random() < 0.5 and all(ord(c) in alpha for c in kind)
    text = None
    # an expression that is nearly the word
    near = rng.choice([kind.swapcase(), kind.upper(), kind.lower(), kind[:-1] or "a", kind + kind[0], kind[::-1], kind + "b"]) if kind.isalnum() else "?"
    if rng.random() < 0.06:
        r["kind"] = kind = rng.choice(sorted(REKINDS))
        r["re"] = REKINDS[kind]         # the word is the expression
    elif rng.random() < 0.05:
        r["kind"] = kind = rng.choice([k for k in LITKINDS if all(ord(c) in alpha for c in k)] or LITKINDS)
        r["re"] = lit(kind)
        text = render(r["re"])          # the expression means the word itself, letter by letter
    elif all(ord(c) in alpha for c in near) and rng.random() < 0.3:
        text = near
        r["re"] = lit(text)
    elif plain:
        r["re"] = lit(kind)
        if rng.random() < 0.3:
            text = kind
    elif groups and rng.random() < 0.45:
        r["re"], n = grouped(rng, alpha)
        text = render(r["re"])
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 9])):
            if rng.random() < 0.65:
                r["grps"].append({"g": rng.randint(0, n), "lit": []})
            else:
                r["grps"].append({"g": -1, "lit": list(rng.choice([":", "x", "1", "a|b", " ", "", "12", "-", "^", "|", "\u00e9", "\n", "a\"b", "\\", "\t|", "0"]).encode())})
    else:
        r["re"] = regex(rng, alpha)
        if rng.random() < 0.15:
            r["re"] = zeros(rng, {"t": "cat", "a": [r["re"]]}, 1)
        text = render(r["re"])
    if nsubs:
        x = rng.random()
        if x < 0.3:
            r["push"] = rng.randint(1, nsubs)
        elif x < 0.5:
            r["pop"] = rng.choice([1, 1, 1, 2, 2, 3, 4, 4, 5])
    return r, text


def ws(rng):
    return rng.choice(["", " ", "  ", "\t", "    "])


def gap(rng):
    return rng.choice([" ", "  ", "\t", " \t"])


def rule_text(rng, r, text, names=()):
    s = ws(rng) + r["kind"]
    if text is not None:
        s += rng.choice([" ", "  ", ""] if not r["kind"].endswith("/") else [" "]) + "/" + text + "/"
        if r["grps"]:
            segs = []
            for g in r["grps"]:
                if g["g"] >= 0:
                    segs.append(str(g["g"]))
                else:
                    l = bytes(g["lit"]).decode()
                    segs.append(l if l == "x" and rng.random() < 0.3 else
                                '"%s"' % l.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t"))
            s += rng.choice(["", " ", "  "]) + "(" + "|".join(segs) + ")"
    if r["pop"]:
        s += gap(rng) + "^" * r["pop"]
    elif r["push"]:
        s += gap(rng) + (names[r["push"] - 1] if r["push"] > 0 else r.get("pushname", "Nowhere"))
    if r["discard"]:
        s += gap(rng) + "-"
    return s + ws(rng)


def simple_def(rng, alpha, n=None, bad=None):
    big = n is None and rng.random() < 0.01
    n = rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 8, 14]) if n is None else n
    kinds = rng.sample(KINDS, n)
    if big:
        kinds += ["w%d" % i for i in range(rng.choice([30, 70]))]
        rng.shuffle(kinds)
    items, lines = [], []
    for i, k in enumerate(kinds):
        r, t = rule(rng, k, alpha)
        if r["kind"] != k:
            if r["kind"] in kinds:
                continue
            kinds[i] = r["kind"]
        items.append(r)
        lines.append((r, t))
    if bad == "dup" and items:
        r, t = rule(rng, rng.choice(kinds), alpha)
        i = rng.randint(0, len(items))
        items.insert(i, r)
        lines.insert(i, (r, t))
    if bad == "re":
        k = rng.choice([x for x in KINDS if x not in kinds])
        tx = rng.choice(BADRE)
        r = {"t": "rule", "kind": k, "discard": 0, "push": 0, "pop": 0, "grps": [], "re": {"t": "bad", "text": tx}}
        i = rng.randint(0, len(items))
        items.insert(i, r)
        lines.insert(i, (r, tx))
    out = []
    for r, t in lines:
        out.append(rule_text(rng, r, t))
        if rng.random() < 0.15:
            out.append(ws(rng))
    k = rng.randint(0, len(out)) if rng.random() < 0.25 else None
    texts = ["\n".join(out)] if k is None else ["\n".join(out[:k]), "\n".join(out[k:])]
    if rng.random() < 0.5:
        texts[0] = "\n" + texts[0] + "\n  "
    return {"kind": "simple", "dup": 0, "subs": [{"items": items}]}, texts


SUBS = ["Main", "Inner", "Str", "Shared", "_x1", "other", "a1", "mAin", "Q", "Mainx"]


def stack_def(rng, alpha, bad=None):
    n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 9])
    names = rng.sample(SUBS, n)
    order = list(range(1, n + 1))
    rng.shuffle(order)              # inherit only towards later in this order: no cycle
    rank = {s: i for i, s in enumerate(order)}
    subs, texts = [], []
    dup = 0
    deep = bad is None and n > 2 and rng.random() < 0.3       # one byte per lexeme: inputs that go deep and come back by several levels
    for i in range(1, n + 1):
        items, lines = [], []
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5, 9] if not deep else [2, 3, 4, 6])):
            later = [j for j in range(1, n + 1) if rank[j] > rank[i]]
            if later and rng.random() < 0.28:
                j = rng.choice(later)
                items.append({"t": "inh", "sub": j})
                lines.append(ws(rng) + names[j - 1] + ws(rng))
            else:
                r, t = rule(rng, rng.choice(KINDS), alpha, n, True)
                if deep:
                    one = rng.choice(alpha)
                    r = {"t": "rule", "kind": rng.choice(KINDS), "discard": r["discard"], "grps": [], "re": {"t": "c", "s": [one]}, "push": 0, "pop": 0}
                    t = render(r["re"])
                    x = rng.random()
                    if x < 0.5:
                        r["push"] = rng.randint(1, n)
                    elif x < 0.75:
                        r["pop"] = rng.choice([1, 2, 3, 4, 5, 6])
                items.append(r)
                lines.append(rule_text(rng, r, t, names))
            if rng.random() < 0.1:
                lines.append(ws(rng))
        subs.append({"items": items})
        texts.append(lines)
    if bad in ("re", "push", "group"):
        i = rng.randrange(n)
        r, t = rule(rng, rng.choice(KINDS), alpha, n, bad == "group")
        if bad == "re":
            t = rng.choice(BADRE)
            r["re"], r["grps"] = {"t": "bad", "text": t}, []
        elif bad == "push":
            r["push"], r["pop"] = -1, 0
            r["pushname"] = rng.choice(["Nowhere", "main", "MAIN"] + [x for x in SUBS if x not in names])
            if r["pushname"] in names:
                r["pushname"] = "Nowhere"
        else:
            if t is None:
                t = render(r["re"])
            from_n = count_groups(r["re"])
            r["grps"].insert(rng.randint(0, len(r["grps"])), {"g": from_n + rng.choice([1, 1, 2, 100]), "lit": []})
        k = rng.randint(0, len(subs[i]["items"]))
        subs[i]["items"].insert(k, r)
        texts[i].append(None)
        # text in the same place among the rules does not matter for rejection
        texts[i][-1] = rule_text(rng, r, t, names)
    if bad == "cycle":
        cyc = rng.sample(range(1, n + 1), rng.randint(1, n))
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            k = rng.randint(0, len(texts[a - 1]))
            subs[a - 1]["items"].append({"t": "inh", "sub": b})
            texts[a - 1].insert(k, "  " + names[b - 1])
    if bad == "dup":
        dup = 1
    head = lambda nm: rng.choice(["== %s ==", "==%s==", "== %s", "  == %s ==  "]) % nm
    parts = []
    for nm, ls in zip(names, texts):
        parts.append("\n".join([head(nm)] + ls) + "\n")
    if bad == "dup":
        parts.insert(rng.randint(0, n), head(rng.choice(names)) + "\n  zz /z/\n")
    if bad == "none":
        parts, subs = rng.choice([[], [""], ["  a /b/\n"], ["foo\nbar\n"]]), []
    if len(parts) > 1 and rng.random() < 0.2:
        k = rng.randint(1, len(parts) - 1)
        defs = ["".join(parts[:k]), "".join(parts[k:])]
    else:
        defs = ["".join(parts)] if parts else []
    if defs and rng.random() < 0.3:
        defs[0] = "\n" + defs[0]
    return {"kind": "stack", "dup": dup, "subs": subs, "deep": deep}, defs


def count_groups(r):
    t = r["t"]
    if t in ("c", "n", "z", "bad"):
        return 0
    if t in ("cat", "alt"):
        return sum(count_groups(x) for x in r["a"])
    return count_groups(r["r"]) + (1 if t == "g" else 0)


def rules_of(d):
    return [it for s in d["subs"] for it in s["items"] if it["t"] == "rule" and it["re"]["t"] != "bad"]


def own_rules(d, i, seen=()):
    out = []
    for it in d["subs"][i]["items"]:
        if it["t"] == "rule":
            if it["re"]["t"] != "bad":
                out.append(it)
        elif it["sub"] - 1 not in seen:
            out += own_rules(d, it["sub"] - 1, tuple(seen) + (i,))
    return out


def lex_input(rng, d, alpha, maxlen=None):
    """mostly a walk along the rules of the current sub-lexer, so that deep stacks come up"""
    if maxlen is None and d.get("deep"):
        maxlen = 24
    if maxlen is None:
        maxlen = rng.choice([14] * 9 + [24, 40]) if rng.random() > 0.006 else 140
    rs = rules_of(d)
    guided = len(d["subs"]) > 1 and rng.random() < (0.6 if not d.get("deep") else 0.95)
    stk = [0]
    out = []
    n = rng.choice([0, 1, 2, 3, 4, 5, 7]) * (1 if maxlen == 14 else 3 if maxlen < 50 else 12)
    if maxlen > 50 and rng.random() < 0.6:         # one long line, or many lines
        run = [rng.choice([10, rng.choice(alpha), rng.choice(EXTRA)])] * rng.randint(20, 100)
        if rng.random() < 0.4:
            run += [10]
        out += run
    for _ in range(n):
        x = rng.random()
        cur = own_rules(d, stk[-1]) if guided else rs
        if guided and not cur and len(stk) > 1:
            stk.pop()
            continue
        if cur and x < (0.85 if guided else 0.72):
            ups = [r for r in cur if r["push"] > 0]
            far = [r for r in cur if 1 < r["pop"] < len(stk)]
            r = rng.choice(far) if guided and far and rng.random() < 0.4 else rng.choice(ups) if guided and ups and rng.random() < 0.5 else rng.choice(cur)
            s = sample(rng, r["re"])
            if rng.random() < 0.1 and s:
                s = s[:-1]
            out += s
            if r["push"] > 0:
                stk.append(r["push"] - 1)
            elif r["pop"]:
                stk = stk[:max(1, len(stk) - r["pop"])]
        elif x < 0.85:
            out += [rng.choice(alpha)]
        elif x < 0.9:
            out += [10] * rng.randint(1, 2)
        else:
            out += [rng.choice(EXTRA) for _ in range(rng.randint(1, 3))]
    return out[:maxlen]


def alphabet(rng):
    al = WIDE if rng.random() < 0.25 else ALPHA
    return sorted(rng.sample(al, rng.randint(2, len(al))))


def strip(d):
    """what the specification reads"""
    def re(r):
        return {k: ([re(x) for x in v] if k == "a" else re(v) if k == "r" else v) for k, v in r.items() if k not in ("cls", "text")}

    def item(it):
        return dict({k: v for k, v in it.items() if k != "pushname"}, re=re(it["re"])) if it["t"] == "rule" else it
    return {"kind": d["kind"], "dup": d["dup"], "subs": [{"items": [item(i) for i in s["items"]]} for s in d["subs"]]}


def bts(s):
    return list(s.encode())


def new_step(d, defs):
    return {"do": "new", "kind": d["kind"], "def": strip(d), "defs": [bts(t) for t in defs]}


def ins(rng):
    return {"kind": rng.choice(["START", "nl", "", "a", "END"]), "val": bts(rng.choice(["", "x", "\n", "v v"]))}


# marks and characters beyond two bytes; no class of the generated expressions contains any of their bytes
SPECIAL = [[0xef, 0xbb, 0xbf], [0xef, 0xbb, 0xbf], [0xc2, 0xa0], [0xe2, 0x80, 0xa8], [0xe2, 0x80, 0x8b], [0xf0, 0x9f, 0x98, 0x80], [0xed, 0xa0, 0x80],
           [0xc2, 0x85], [0x1a], [0x7f], [0x1b], [0], [0xef, 0xbf, 0xbd], [0xfe, 0xff], [0xff, 0xfe]]


def special(rng, steps):
    """put such characters at the ends of some inputs or into them"""
    if '"t": "n"' in json.dumps(steps):
        return
    for s in steps:
        if s["do"] == "lex" and rng.random() < 0.12:
            x, b = rng.choice(SPECIAL), s["in"]
            k = rng.choice([0, 0, len(b), rng.randint(0, len(b))])
            s["in"] = b[:k] + x * rng.choice([1, 1, 2]) + b[k:]


def lex_hist(rng, kind, bad=False):
    alpha = alphabet(rng)
    mk = simple_def if kind == "simple" else stack_def
    b = None
    if bad:
        b = rng.choice(["dup", "re"] if kind == "simple" else ["re", "push", "group", "cycle", "cycle", "dup", "none"])
    d, defs = mk(rng, alpha, bad=b)
    steps = [new_step(d, defs)]
    src = {"subs": [{"items": list(rules_of(d))}]} if kind == "simple" or bad or not d["subs"] else d
    had = []

    def nxt():
        if had and rng.random() < 0.15:
            return rng.choice(had)
        had.append(lex_input(rng, src, alpha))
        return had[-1]
    for _ in range(rng.randint(2, 6) if rng.random() < 0.97 else rng.randint(12, 20)):
        x = rng.random()
        if x < 0.55:
            steps.append({"do": "lex", "in": nxt()})
        elif x < 0.62:
            steps.append({"do": "mode", "mode": rng.choice(["pri", "len", "pri"])})
        elif x < 0.67:
            steps.append({"do": rng.choice(["start", "end"]), "ins": ins(rng)})
        elif x < 0.70:
            steps.append({"do": "seterr", "kind": rng.choice(["Error", "ERR", "a", "sp"])})
        elif x < 0.75:
            steps.append({"do": "again"})
        elif kind == "simple" and x < 0.93:
            r, t = rule(rng, rng.choice(KINDS), alpha)
            e = {"do": "add", "rule": strip({"kind": "simple", "dup": 0, "subs": [{"items": [r]}]})["subs"][0]["items"][0],
                 "retext": bts(t or render(r["re"])), "sym": rng.randint(0, 1)}
            src["subs"][0]["items"].append(r)
            steps.append(e)
        elif kind == "simple" and not any(s["do"] == "add" for s in steps):
            steps.append({"do": "print"})
    steps.append({"do": "lex", "in": nxt()})
    special(rng, steps)
    return {"op": "lexhist", "steps": steps}
