"""Texts for the example programs."""


def bts(s):
    return list(s.encode() if isinstance(s, str) else s)


# ---------------------------------------------------------------- math
def num(rng):
    return rng.choice(["0", "1", "2", "3", "7", "10", "42", "007", "1.5", ".5", "0.25", "12.125", "3.3", "1000000", "99999999999999999999", ".0001"])


def mexpr(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.25:
        return [rng.choice(["", "", "", "-", "+"]), num(rng)]
    if x < 0.4:
        return ["("] + mexpr(rng, d - 1) + [")"]
    r = mexpr(rng, d - 1)
    for _ in range(rng.choice([1, 1, 2, 3])):
        r += [rng.choice("+-*/")] + mexpr(rng, d - 2)
    return r


def math_text(rng):
    ts = [t for t in mexpr(rng, rng.choice([1, 2, 3, 4])) if t]
    if len(ts) > 24:
        ts = ts[:24]
    x = rng.random()
    if x < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(ts) + 1)
            y = rng.randrange(3)
            if y == 0 and k < len(ts):
                del ts[k]
            elif y == 1:
                ts.insert(k, rng.choice(["(", ")", "+", "-", "*", "/", "1", ".", "x", "^", "1.", "**", "2 3", "\u00e9", "e5", ","]))
            elif k < len(ts):
                ts[k] = rng.choice(["(", ")", "+", "-", "*", "/", "9"])
    out = ""
    for t in ts:
        sep = rng.choice(["", "", " ", "\t", " \n ", "\r\n", "\f", ""])
        out += sep + t
    return {"text": bts(out + rng.choice(["", "", " ", "\n"]))}


# ---------------------------------------------------------------- json
def jstr(rng):
    return '"' + "".join(rng.choice(["a", "b", " ", "\\\"", "\\\\", "\\n", "\\u0041", ",", ":", "{", "}", "[", "]", "\u00e9", "//", "/", "\n", "\t", "1", "null", "'", "\\/", "\\\u00e9"])
                         for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))) + '"'


def jval(rng, d):
    x = rng.random()
    if d <= 0 or x < 0.4:
        return [rng.choice([jstr(rng), num(rng), "true", "false", "null"])]
    k = rng.choice([0, 1, 1, 2, 2, 3, 5])
    ts = []
    for i in range(k):
        if i:
            ts.append(",")
        if x < 0.7:
            ts += jval(rng, d - 1)
        else:
            ts += [jstr(rng), ":"] + jval(rng, d - 1)
    return (["["] + ts + ["]"]) if x < 0.7 else (["{"] + ts + ["}"])


def json_text(rng):
    ts = jval(rng, rng.choice([0, 1, 2, 3, 4]))
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(ts) + 1)
            y = rng.randrange(4)
            new = rng.choice(["[", "]", "{", "}", ",", ":", "1", "\"a\"", "true", "nul", "-1", "1e5", "tru", "True", "\"", "\\", "'a'", "\"\\\n\"", "1.", "//", "\u00e9", "nulll", "truefalse", "\"x\\"])
            if y == 0 and k < len(ts):
                del ts[k]
            elif y == 1:
                ts.insert(k, new)
            elif y == 2 and len(ts) > 1:
                j = rng.randrange(len(ts))
                k = min(k, len(ts) - 1)
                ts[k], ts[j] = ts[j], ts[k]
            elif k < len(ts):
                ts[k] = new
    return json_layout(rng, [bts(t) for t in ts])


def json_layout(rng, ts):
    out = []
    tight = rng.random() < 0.4
    for t in ts:
        out += bts("" if tight else rng.choice(["", " ", "\n", "\t  ", "\r\n", "\f"])) + list(t)
    return {"op": "json", "text": out + bts(rng.choice(["", "", " ", "\n"]))}


# ---------------------------------------------------------------- scalc
SNUM = ["0", "1", "2", "3", "-4", "+5", "10", "2.5", "-0.25", "+1.125", "3.0", "100", "7.00"]
UOP, BOP, SOP = ["--", "abs"], ["+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr"], ["len", "sum", "avg", "min", "max", "first", "last"]


def words(rng, kinds, n):
    ws = []
    h = 0
    for _ in range(n):
        x = rng.random()
        if h >= 3 and "?" in kinds and x < 0.12:
            ws.append(("?", "?"))
            h -= 2
        elif "s" in kinds and x < 0.18:
            ws.append(("sop", rng.choice(SOP)))
            h = 1
        elif h >= 2 and x < 0.42:
            ws.append(("bop", rng.choice(BOP)))
            h -= 1
        elif h >= 1 and x < 0.55:
            ws.append(("uop", rng.choice(UOP)))
        elif "(" in kinds and x < 0.65 and n > 2:
            ws += [("(", "(")] + words(rng, kinds, rng.randrange(n - 1)) + [(")", ")")]
            h = 0
        else:
            ws.append(("num", rng.choice(SNUM)))
            h += 1
    return ws


def scalc_words(rng, maxn=9):
    kinds = rng.choice(["", "", "s", "?", "s(", "s(", "("])
    ws = words(rng, kinds, rng.randint(0, maxn))
    if kinds == "s" and rng.random() < 0.5:        # one operator on a stack of several numbers
        ws = [("num", rng.choice(SNUM)) for _ in range(rng.randint(2, 6))] + [("sop", rng.choice(SOP))]
        if rng.random() < 0.3:
            ws += [("num", rng.choice(SNUM)), ("bop", rng.choice(BOP))]
    if len(ws) > 14:
        ws = [w for w in ws if w[0] not in "()"][:14]
    x = rng.random()
    if x < 0.2 and ws:
        k = rng.randrange(len(ws))
        y = rng.randrange(3)
        if y == 0:
            del ws[k]
        elif y == 1:
            ws.insert(k, rng.choice([("bop", rng.choice(BOP)), ("uop", rng.choice(UOP)), (")", ")"), ("(", "("), ("junk", rng.choice(["x", "#", "foo", "2x", "&&", "1,2", "abx", "1.", "-2.", ".", "\u00e9"]))]))
        else:
            ws[k] = ("bop", rng.choice(BOP))
    return [{"t": t, "v": bts(v)} for t, v in ws]


def scalc_text(rng, ws):
    out = b""
    for k, w in enumerate(ws):
        sep = rng.choice([b" ", b" ", b"  ", b"\t", b"\n", b"\r\n", b"\f"])
        if w["t"] in "()" or (k and ws[k - 1]["t"] in "()"):
            sep = rng.choice([b"", b" "])
        out += (sep if k else rng.choice([b"", b" "])) + bytes(w["v"])
    return list(out + rng.choice([b"", b" "]))
