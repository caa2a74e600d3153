"""Generators of grammars and lexeme sequences."""
import itertools


def rand_grammar(rng, nnt=(1, 5), nterm=(1, 4), nprod=(1, 4), maxlen=4, p_eps=0.2, p_nt=0.45, style=None):
    nts = ["S", "A", "B", "D", "E", "F", "G", "H", "I", "J", "K", "L"][:rng.randint(*nnt)]
    terms = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"][:rng.randint(*nterm)]
    if rng.random() < 0.15:      # names that look alike, or like helpers
        ren = dict(zip(nts, ["E", "E'", "START", "EE", "a1", "_", "E''", "S", "A", "S'", "B", "D"]))
        nts = [ren[x] for x in nts]
    ps = []
    for _ in nts:
        rules, k = [], rng.randint(*nprod)
        for _ in range(k):
            if rng.random() < p_eps:
                r = []
            else:
                r = [rng.choice(nts) if rng.random() < p_nt else rng.choice(terms)
                     for _ in range(rng.randint(1, maxlen))]
            if r not in rules or rng.random() < 0.1:
                rules.append(r)
        ps.append(rules)
    return {"nts": nts, "ps": ps}


def ranked(rng, eps=True, back=None, nmax=8):
    """No left recursion by construction (the front of every production leads to higher ranks only), nullable
    non-terminals found late; then at most one link back, often hidden behind symbols that derive nothing
    (or behind ones that do not)."""
    n = rng.randint(2, nmax)
    nts = ["S", "A", "B", "D", "E", "F", "G", "H", "I", "J"][:n]
    terms = ["a", "b", "c", "d"][:rng.randint(1, 4)]
    null = {A for A in nts[1:] if rng.random() < 0.5} if eps else set()
    hi = lambda i, pool=None: [x for x in nts[i + 1:] if pool is None or x in pool]

    def front(i, kmax=3):     # symbols that derive nothing, of higher rank
        h = hi(i, null)
        return [rng.choice(h) for _ in range(rng.randint(0, kmax))] if h else []

    def rest():
        return [rng.choice(nts if rng.random() < 0.4 else terms) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    ps = []
    for i, A in enumerate(nts):
        rules = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            f = front(i)
            h = hi(i, set(nts) - null)
            rules.append(f + [rng.choice(h if h and rng.random() < 0.6 else terms)] + rest())
        if A in null:
            h = hi(i, null)
            r = [rng.choice(h) for _ in range(rng.randint(1, 3))] if h and rng.random() < 0.75 else []
            if rng.random() < 0.3:
                rules = [r]
            else:
                rules.insert(rng.randint(0, len(rules)), r)
        ps.append(rules)
    if back is None:
        back = rng.random() < 0.6
    if back:
        pm = dict(zip(nts, ps))
        path = [rng.randrange(n)]     # from some non-terminal along the fronts
        while rng.random() < 0.7:
            nxt = set()
            for r in ps[path[-1]]:
                for s in r:
                    if s in pm and nts.index(s) > path[-1]:
                        nxt.add(nts.index(s))
                    if s not in null:
                        break
            if not nxt:
                break
            path.append(rng.choice(sorted(nxt)))
        i = path[-1]
        block = [rng.choice(terms + hi(i))] if rng.random() < 0.25 else []
        ps[i].insert(rng.randint(0, len(ps[i])), front(i, 4) + block + [nts[path[0]]] + rest())
    order = list(range(1, n))
    x = rng.random()
    if x < 0.4:
        rng.shuffle(order)
    elif x < 0.6:
        order.reverse()
    order = [0] + order if rng.random() < 0.8 else order + [0]
    return {"nts": [nts[i] for i in order], "ps": [ps[i] for i in order]}


def wide_grammar(rng, **kw):
    """many non-terminals, terminals and productions"""
    n = rng.randint(4, 12)
    a = dict(nnt=(n, n), nterm=(4, 10), nprod=(1, rng.choice([2, 3, 7])), maxlen=rng.choice([2, 3, 7]),
             p_eps=rng.choice([0, 0.05, 0.2]), p_nt=rng.choice([.2, .35, .5]))
    a.update(kw)
    return rand_grammar(rng, **a)


def padded(rng, g):
    """the same grammar among many other symbols"""
    n = rng.choice([20, 40, 70, 140, 300])
    pre, post = [], []
    for _ in range(rng.choice([1, 2, 3])):
        k = rng.randint(1, n)
        junk = ("X%d" % len(pre + post), [["x%d" % rng.randrange(2 * n) for _ in range(rng.randint(1, 5))] for _ in range(max(1, k // 3))])
        (pre if rng.random() < 0.6 else post).append(junk)
    if rng.random() < 0.5:       # one very long production
        (pre if rng.random() < 0.6 else post).append(("Y", [["y%d" % i for i in range(n)]]))
    old = list(zip(g["nts"], g["ps"]))
    chain = []
    if rng.random() < 0.6:       # reached through a long chain
        k = rng.choice([3, 10, 20, 33])
        for i in range(k):
            r = [["C%d" % (i + 1) if i + 1 < k else g["nts"][0]]]
            if rng.random() < 0.15:
                r.append([rng.choice(["q", "x1", g["nts"][-1]])])
            chain.append(("C%d" % i, r))
        tail = chain[1:] + old + pre + post
        if rng.random() < 0.5:
            rng.shuffle(tail)
        alls = chain[:1] + tail
    else:
        alls = old[:1] + pre + old[1:] + post
    return {"nts": [a for a, _ in alls], "ps": [b for _, b in alls]}


def bushy(rng):
    """many productions for one non-terminal, long productions"""
    terms = ["t%d" % i for i in range(rng.choice([5, 20, 40]))]
    k = rng.choice([12, 20, 40, 70, 140])
    rows = [[rng.choice(terms + ["A"]) for _ in range(rng.choice([1, 1, 2, 2, 3, 9]))] for _ in range(k)]
    return {"nts": ["S", "A"], "ps": [rows, [[rng.choice(terms) for _ in range(rng.choice([1, 1, 2, 12]))] for _ in range(rng.randint(1, k))]]}


def choices(rng):
    """hundreds of productions for one non-terminal, a few of which derive the same strings"""
    k = rng.choice([135, 200, 260, 300, 300])
    rows = [["u%d" % i] for i in range(k)]
    at = sorted(rng.sample(range(k), rng.randint(3, 6)))
    alts = [["A"], ["B"], ["C"], ["a"], ["b", "a"], ["B", "a"], ["C", "A"], ["b"]]
    rng.shuffle(alts)
    for i, r in zip(at, alts):
        rows[i] = r
    return {"nts": ["S", "A", "B", "C"], "ps": [rows, [["a"], ["b"]], [["b"], ["a"]], [["b", "a"], ["a"], ["b"]]]}


def units(rng, eps=False):
    """unit productions among directly recursive non-terminals"""
    k = rng.choice([2, 2, 3, 3, 4])
    nts = ["A", "B", "C", "D"][:k]
    terms = ["a", "b", "c", "d"]
    ps = []
    for i, A in enumerate(nts):
        rules = []
        for _ in range(rng.choice([1, 1, 2])):
            rules.append([rng.choice(nts)])
        if rng.random() < 0.75:
            rules.append([A, terms[i]])
        if rng.random() < 0.25:
            rules.append([rng.choice(nts), rng.choice(nts)] + ([rng.choice(terms)] if rng.random() < .5 else []))
        if rng.random() < 0.4 or i == 0:
            rules.append([rng.choice(terms)])
        rules = [r for n, r in enumerate(rules) if r not in rules[:n]]
        rng.shuffle(rules)
        ps.append(rules)
    return {"nts": nts, "ps": ps}


def primed(rng):
    """directly recursive non-terminals whose helpers' names are taken"""
    base = rng.choice(["A", "S", "E1"])
    k = rng.choice([2, 3, 3, 4, 5])
    nts = [base + "'" * i for i in range(k)]
    if rng.random() < 0.2:
        del nts[rng.randrange(1, k)]
    if rng.random() < 0.3:
        nts.append("B")
    rng.shuffle(nts)
    terms = ["a", "b"] + ([base + "'" * k] if rng.random() < 0.3 else [])      # a terminal may have the name as well
    ps = []
    for A in nts:
        rules = [[rng.choice(terms)]]
        if rng.random() < 0.8:
            rules.append([A if rng.random() < 0.7 else rng.choice(nts)] + [rng.choice(terms + nts) for _ in range(rng.choice([1, 1, 2]))])
        rng.shuffle(rules)
        ps.append(rules)
    return {"nts": nts, "ps": ps}


def chained(rng, eps=True):
    """long chains, through which facts take many steps, some of them twice"""
    k = rng.choice([2, 3, 4, 5, 6, 8, 12, 20, 30])
    N = ["N%d" % i for i in range(k)]
    extra = lambda: [rng.choice(["p", "q"] + N)] if rng.random() < 0.1 else []
    rules = [[[N[i + 1]] + extra()] for i in range(k - 1)]
    end = []
    if eps and rng.random() < 0.75:
        end.append([])
    if rng.random() < 0.5:
        end.append([N[rng.choice([0, 0, rng.randrange(k)])], "t"])
    if not end or rng.random() < 0.3:
        end.append(["z"])
    rng.shuffle(end)
    rules.append(end)
    for r in rules:
        if rng.random() < 0.1:
            r.insert(rng.randint(0, len(r)), [rng.choice(["p", "q"])])
    if eps and rng.random() < 0.1:
        rules[rng.randrange(k)].append([])
    alls = list(zip(N, rules))
    x = rng.random()
    if x < 0.4:
        alls.reverse()
    elif x < 0.6:
        rng.shuffle(alls)
    if rng.random() < 0.7:
        a = N[0] if rng.random() < .8 else rng.choice(N)
        s = ("S", [rng.choice([[a, "S"], [a, a, "S", "y"], [a, "x"], [a], [a, "x", "S"]])] + ([["x"]] if rng.random() < .8 else []))
        alls.insert(rng.choice([0, 0, len(alls), rng.randint(0, len(alls))]), s)
    return {"nts": [a for a, _ in alls], "ps": [b for _, b in alls]}


def rows(rng):
    """a long production over symbols that can be read in more than one way; inputs"""
    n = rng.choice([8, 9, 10, 12, 16, 17, 20])
    forms = [[["a"], ["a", "a"]], [["a", "a"], ["a"]], [["a"], []], [[], ["a"]], [["a"]], [["a"], ["b"], ["a", "b"]], [["b"], ["a"]]]
    nts = ["A", "B", "O"]
    ps = [rng.choice(forms) for _ in nts]
    row = [rng.choice(nts) for _ in range(n)] if rng.random() < .6 else [rng.choice(nts)] * n
    if rng.random() < .3:
        row[rng.randrange(n)] = rng.choice(["a", "c"])
    rs = [row]
    if rng.random() < .5:
        r2 = list(row)
        r2[-1 - rng.randrange(3)] = rng.choice(nts + ["c"])
        rs.insert(rng.randint(0, 1), r2)
    g = {"nts": ["S"] + nts, "ps": [rs] + ps}
    pm = dict(zip(g["nts"], g["ps"]))
    ins = []
    for _ in range(rng.choice([2, 3])):
        w = []
        p = rng.random()
        for s in rng.choice(rs):
            w += (rng.choice(pm[s]) if rng.random() < p else pm[s][0]) if s in pm else [s]
        if rng.random() < .2:
            w.insert(rng.randint(0, len(w)), "a")
        ins.append(w[:24])
    return g, ins


def readings(g, w):
    """in how many ways beginnings of productions can be read over parts of w: what a parser without
    sharing between them needs in time and memory"""
    pm = dict(zip(g["nts"], g["ps"]))
    n = len(w)
    E = [{A: set() for A in pm} for _ in range(n + 1)]

    def ends(x, s):
        return E[s][x] if x in pm else ({s + 1} if s < n and w[s] == x else ())
    for s in range(n, -1, -1):
        more = True
        while more:
            more = False
            for A, rs in pm.items():
                for r in rs:
                    at = {s}
                    for x in r:
                        at = {e for a in at for e in ends(x, a)}
                        if not at:
                            break
                    if not at <= E[s][A]:
                        E[s][A] |= at
                        more = True
    total = 0
    for s in range(n + 1):
        for rs in pm.values():
            for r in rs:
                cnt = {s: 1}
                for x in r:
                    nxt = {}
                    for a, c in cnt.items():
                        for e in ends(x, a):
                            nxt[e] = nxt.get(e, 0) + c
                    cnt = nxt
                    total += sum(cnt.values())
    return total


def cheap(g, ins):
    """inputs that need little"""
    if max((len(r) for rs in g["ps"] for r in rs), default=0) < 4 and all(len(w) < 12 for w in ins):
        return ins
    return [w for w in ins if readings(g, w) < 60000] or [["a"]]


def lengthy(rng, td=False):
    """a grammar in which long inputs have few readings, and long inputs of it (sentences and near misses)"""
    n = rng.choice([100, 127, 128, 130, 200, 255, 256, 257, 260, 300])
    items = ["a", "b", "c"][:rng.randint(1, 3)]
    x = rng.randrange(5 if td else 6)
    if x == 0:      # right-recursive list with an end
        g = {"nts": ["S", "I"], "ps": [[["I", "S"], ["z"]], [[t] for t in items]]}
        mk = lambda k: [rng.choice(items) for _ in range(k - 1)] + ["z"]
    elif x == 1:    # one long production
        row = [rng.choice(items + ["I"]) for _ in range(n)]
        g = {"nts": ["S", "I"], "ps": [[row[:-1] + ["q"], row], [["d"], ["e"]]]}
        mk = lambda k: [rng.choice(["d", "e"]) if s == "I" else s for s in row][:k]
    elif x == 2:    # nested
        g = {"nts": ["S"], "ps": [[["(", "S", ")"], ["x"]] if rng.random() < 0.5 else [["x"], ["(", "S", ")"]]]}
        mk = lambda k: ["("] * (k // 2) + ["x"] + [")"] * (k // 2)
    elif x == 3:    # separated list
        g = {"nts": ["S", "R", "I"], "ps": [[["I", "R"]], [[",", "I", "R"], ["."]], [[t] for t in items]]}
        mk = lambda k: [rng.choice(items) if i % 2 == 0 else "," for i in range(2 * (k // 2) - 1)] + ["."]
    elif x == 4:    # records of two lines, with something optional
        g = {"nts": ["S", "L", "O"], "ps": [[["L", "S"], ["z"]], [["k", "O", ";"]], [["o", "o"], []]]}

        def mk(k):
            r = []
            while len(r) < k - 4:
                r += ["k", ";"] if rng.random() < 0.5 else ["k", "o", "o", ";"]
            return r + ["z"]
    else:           # left-recursive list, started by one token
        n = rng.choice([32, 40, 64, 66])
        g = {"nts": ["S", "I"], "ps": [[["S", "I"], ["s"]] if rng.random() < 0.5 else [["s"], ["S", "I"]], [[t] for t in items]]}
        mk = lambda k: ["s"] + [rng.choice(items) for _ in range(k - 1)]
    ins = [mk(n)]
    bad = mk(n)
    k = rng.choice([0, n // 2, 127, 128, 255, 256, len(bad) - 1])
    if k < len(bad):
        y = rng.randrange(3)
        if y == 0:
            bad[k] = rng.choice([bad[0], "z", "x", "?"])
        elif y == 1:
            del bad[k]
        else:
            bad.insert(k, rng.choice(["a", "z", ")", "(", "q"]))
    ins.append(bad)
    ins.append(mk(rng.choice([3, 4, 6])))
    return g, ins


def terms_of(g):
    return sorted({s for rs in g["ps"] for r in rs for s in r} - set(g["nts"])) or ["a"]


def productive(g):
    pm = dict(zip(g["nts"], g["ps"]))
    cost = {}
    ch = True
    while ch:
        ch = False
        for A, rs in pm.items():
            for r in rs:
                c = 1
                ok = True
                for s in r:
                    if s in pm:
                        if s not in cost:
                            ok = False
                            break
                        c += cost[s]
                    else:
                        c += 1
                if ok and (A not in cost or c < cost[A]):
                    cost[A] = c
                    ch = True
    return cost


def rand_sentence(rng, g, maxlen, budget=200):
    """a sentence of g (list of kinds), or None"""
    pm = dict(zip(g["nts"], g["ps"]))
    cost = productive(g)
    if g["nts"][0] not in cost:
        return None
    form = [g["nts"][0]]
    out = []
    steps = 0
    while form:
        s = form.pop(0)
        if s not in pm:
            out.append(s)
            if len(out) > maxlen:
                return None
            continue
        steps += 1
        opts = [r for r in pm[s] if all(x not in pm or x in cost for x in r)]
        if steps > budget // 4 or len(out) + len(form) > maxlen:
            best = min(sum(cost.get(x, 1) for x in r) for r in opts)
            opts = [r for r in opts if sum(cost.get(x, 1) for x in r) == best]
        elif maxlen >= 20 and rng.random() < 0.7:     # long inputs: keep growing
            m = max(map(len, opts))
            opts = [r for r in opts if len(r) == m or any(x in pm for x in r)]
        if steps > budget:
            return None
        form = list(rng.choice(opts)) + form
    return out


def rand_input(rng, g, maxlen):
    ts = terms_of(g)
    x = rng.random()
    if x < 0.65:
        for _ in range(4):
            s = rand_sentence(rng, g, maxlen)
            if s is not None:
                if x < 0.2 and s:
                    i = rng.randrange(len(s))
                    y = rng.random()
                    if y < .3:
                        s = s[:i] + s[i + 1:]
                    elif y < .6:
                        s = s[:i] + [rng.choice(ts)] + s[i:]
                    else:
                        s = s[:i] + [rng.choice(ts)] + s[i + 1:]
                return s
    s = [rng.choice(ts) for _ in range(rng.randint(0, maxlen))]
    if s and rng.random() < 0.1:      # a kind the grammar does not know, or a non-terminal's name
        s[rng.randrange(len(s))] = rng.choice(["zz"] + g["nts"])
    return s


def lexemes(rng, kinds):
    out = []
    for n, k in enumerate(kinds):
        v = rng.choice(["", k, "v%d" % n, "%d" % n])
        x = rng.random()
        l, c = (-1, 0) if x < 0.1 else rng.choice([(0, 0), (0, 0), (-1, 7), (3, 0), (-5, -1), (1 << 30, 5)]) if x < 0.16 else (0, n + 1) if x < 0.3 else (rng.randrange(1000), rng.randrange(1000)) if x < 0.35 else (1 + n // 3, n * 2 + 1)
        out.append({"k": k, "v": v, "l": l, "c": c})
    return out


def scope(nts, terms, maxlen, maxprods):
    """all grammars of a small scope, lazily indexable"""
    syms = nts + terms
    rhs = [list(r) for n in range(maxlen + 1) for r in itertools.product(syms, repeat=n)]
    lists = [list(l) for n in range(1, maxprods + 1) for l in itertools.product(rhs, repeat=n)]
    return rhs, lists


def scope_grammar(nts, lists, idx):
    ps = []
    for _ in nts:
        idx, r = divmod(idx, len(lists))
        ps.append(lists[r])
    return {"nts": list(nts), "ps": ps}


def all_inputs(terms, maxlen):
    return [list(s) for n in range(maxlen + 1) for s in itertools.product(terms, repeat=n)]


def left_recursive(g):
    """only used to steer generation; the oracle is the specification"""
    pm = dict(zip(g["nts"], g["ps"]))
    null = set()
    ch = True
    while ch:
        ch = False
        for A in pm:
            if A not in null and any(all(s in null for s in r) for r in pm[A]):
                null.add(A)
                ch = True
    edges = {A: set() for A in pm}
    for A in pm:
        for r in pm[A]:
            for s in r:
                if s in pm:
                    edges[A].add(s)
                if s not in null:
                    break
    for A in pm:
        seen, todo = set(), list(edges[A])
        while todo:
            x = todo.pop()
            if x == A:
                return True
            if x not in seen:
                seen.add(x)
                todo += edges[x]
    return False
