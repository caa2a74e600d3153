package main

import (
	"encoding/json"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// large members of families of inputs (spec/Pump.tla, spec/LexPump.tla)

// flat is a tree in preorder; the lines of nodes that have no lexeme of their
// own (kinds S, A, O) are left out
type flat struct {
	K []string `json:"k"`
	N []int    `json:"n"`
	L []int    `json:"l"`
}

func flatten(n parlex.ParseNode) *flat {
	f := &flat{K: []string{}, N: []int{}, L: []int{}}
	if n == nil {
		return f
	}
	var rec func(n parlex.ParseNode)
	rec = func(n parlex.ParseNode) {
		k := n.Kind().String()
		l, _ := n.Pos()
		if k[:1] == "S" || k[:1] == "A" || k[:1] == "O" {
			l = -1
		}
		f.K, f.N, f.L = append(f.K, k), append(f.N, n.Children()), append(f.L, l)
		for i := 0; i < n.Children(); i++ {
			rec(n.Child(i))
		}
	}
	rec(n)
	return f
}

func unflatten(f *flat) *tree.PN {
	i := 0
	var rec func(p *tree.PN) *tree.PN
	rec = func(p *tree.PN) *tree.PN {
		n := &tree.PN{Lexeme: lexeme.New(stringsymbol.Symbol(f.K[i])).At(f.L[i], 0), P: p}
		k := f.N[i]
		i++
		for ; k > 0; k-- {
			n.C = append(n.C, rec(n))
		}
		return n
	}
	return rec(nil)
}

type pumpCase struct {
	Fam    string  `json:"fam"`
	F      string  `json:"f"`
	N      int     `json:"n"`
	Bad    int     `json:"bad"`
	Parser string  `json:"parser"`
	Do     string  `json:"do"`
	End    string  `json:"end"`
	Kind   string  `json:"kind"`
	Defs   [][]int `json:"defs"`
	Unit   []int   `json:"unit"`
	Pre    []int   `json:"pre"`
	C      int     `json:"c"`
	Post   []int   `json:"post"`
}

func numbered(kinds []string) []parlex.Lexeme {
	out := make([]parlex.Lexeme, len(kinds))
	for i, k := range kinds {
		out[i] = lexeme.New(stringsymbol.Symbol(k)).At(i+1, 0)
	}
	return out
}

func times(n int, ks ...string) []string {
	var out []string
	for ; n > 0; n-- {
		out = append(out, ks...)
	}
	return out
}

var pumpGrammars = map[string]string{
	"L": "S -> S a\n  -> a", "R": "S -> a S\n  -> a", "N": "S -> a S b\n  -> a b", "E": "S -> a S\n  ->",
}

func pumpParse(c *pumpCase) interface{} {
	text, in := pumpGrammars[c.F], times(c.N, "a")
	switch c.F {
	case "N":
		in = append(in, times(c.N+c.Bad, "b")...)
	case "A":
		text = "S -> t1"
		for i := 2; i <= c.N; i++ {
			text += "\n -> t" + strconv.Itoa(i)
		}
		in = []string{"t" + strconv.Itoa(c.N+c.Bad)}
	case "V":
		text = "S ->" + strings.Repeat(" a", c.N)
		in = times(c.N+c.Bad, "a")
	case "W":
		text = "S ->" + strings.Repeat(" A", c.N) + "\nA -> a\n  -> a a"
		d := c.N
		if d > 3 {
			d = 3
		}
		in = append(in, times(d, "a")...)
		if c.Bad == 1 {
			in = times(2*c.N+1, "a")
		}
	case "D":
		text = "S ->" + strings.Repeat(" O", c.N) + "\nO -> a\n  ->"
		in = times(c.N/2, "a")
		if c.Bad == 1 {
			in = times(c.N+1, "a")
		}
	case "C":
		text = "S -> A1\n"
		for i := 1; i < c.N; i++ {
			text += "A" + strconv.Itoa(i) + " -> A" + strconv.Itoa(i+1) + "\n"
		}
		text += "A" + strconv.Itoa(c.N) + " -> a"
		in = times(1+c.Bad, "a")
	default:
		if c.Bad == 1 {
			in = append(in, "b")
		}
	}
	g, err := grammar.New(text)
	if err != nil {
		panic(driverErr(err.Error()))
	}
	var p parlex.Parser
	if c.Parser == "packrat" {
		p = packrat.New(g)
	} else if p, err = topdown.New(g); err != nil {
		return O{"ok": 2, "tree": flatten(nil), "links": ""}
	}
	n := p.Parse(numbered(in))
	if n == nil {
		return O{"ok": 0, "tree": flatten(nil), "links": ""}
	}
	return O{"ok": 1, "tree": flatten(n), "links": links(n)}
}

func pumpRg(c *pumpCase) interface{} {
	text, in := "S -> a*", times(c.N, "a")
	if c.F == "group" {
		text, in = "S -> ( a b )* c?", append(times(c.N, "a", "b"), "c")
	}
	g, r, err := regexgram.New(text)
	if err != nil {
		return O{"ok": 2, "tree": flatten(nil)}
	}
	n := packrat.New(g).Parse(numbered(in))
	if n == nil {
		return O{"ok": 0, "tree": flatten(nil)}
	}
	return O{"ok": 1, "tree": flatten(r.Reduce(n))}
}

func pumpSource(f string, n int) *flat {
	t := &flat{}
	add := func(k string, n, l int) { t.K, t.N, t.L = append(t.K, k), append(t.N, n), append(t.L, l) }
	switch f {
	case "wide":
		add("r", n, 0)
		for i := 1; i <= n; i++ {
			add([]string{"c", "a", "b"}[i%3], 0, i)
		}
	case "pairs":
		add("r", n, 0)
		for i := 1; i <= n; i++ {
			add("a", 1, 2*i-1)
			add("b", 0, 2*i)
		}
	case "deep":
		for i := 1; i <= n; i++ {
			add([]string{"b", "a"}[i%2], 1, i)
		}
		add("z", 0, n+1)
	}
	return t
}

func pumpTree(c *pumpCase) interface{} {
	src := unflatten(pumpSource(c.F, c.N))
	t := src
	switch c.Do {
	case "print":
		var err error
		if t, err = tree.New(src.String()); err != nil || t == nil {
			return O{"tree": flatten(nil), "links": "error", "size": 0, "src": flatten(src)}
		}
	case "clone":
		t = tree.Clone(src)
	case "removeall":
		t.RemoveAll("b")
	case "removechildren":
		var is []int
		for i := 1; i < c.N; i += 3 {
			is = append(is, i)
		}
		t.RemoveChildren(is...)
	case "grand":
		t.PromoteGrandChildren()
	case "reduce":
		if c.F == "wide" {
			t = tree.Reducer{"r": tree.RemoveAll("b")}.RawReduce(src)
		} else {
			t = tree.Reducer{"a": tree.PromoteSingleChild}.RawReduce(src)
		}
	}
	return O{"tree": flatten(t), "links": links(t), "size": t.Size(), "src": flatten(src)}
}

func num(s parlex.Symbol) int {
	if s == nil {
		return -1
	}
	t := s.String()
	if len(t) < 2 {
		return 0
	}
	n, err := strconv.Atoi(t[1:])
	if err != nil {
		return -2
	}
	return n
}

func pumpSet(c *pumpCase) interface{} {
	set := setsymbol.New()
	name := func(i int) string { return "s" + strconv.Itoa(i) }
	idx, again, byidx, prod, cast, castidx := []int{}, []int{}, []int{}, []int{}, []int{}, []int{}
	for i := 1; i <= c.N; i++ {
		idx = append(idx, set.Str(name(i)).Idx())
	}
	p := set.Production()
	for i := c.N; i >= 1; i-- {
		p.AddSymbols(stringsymbol.Symbol(name(i)))
	}
	for i := 1; i <= c.N; i++ {
		again = append(again, set.Symbol(stringsymbol.Symbol(name(i))).Idx())
		byidx = append(byidx, num(set.ByIdx(i-1)))
	}
	for it := p.Iter(); it.Next(); {
		prod = append(prod, num(it.Symbol))
	}
	q := setsymbol.New().CastProduction(p)
	for i := 0; i < q.Symbols(); i++ {
		cast = append(cast, num(q.Symbol(i)))
		castidx = append(castidx, q.Symbol(i).(*setsymbol.Symbol).Idx())
	}
	return O{"idx": idx, "again": again, "byidx": byidx, "size": set.Size(), "prod": prod, "cast": cast, "castidx": castidx, "cmp": 0}
}

func pumpGram(c *pumpCase) interface{} {
	var sb strings.Builder
	for i := 1; i <= c.N; i++ {
		to := "A" + strconv.Itoa(i+1)
		switch {
		case i == c.N && c.End == "loop":
			to = "A1 y\n -> x"
		case i == c.N && c.End == "end":
			to = "x y\n -> x"
		case c.End == "loop" || c.End == "end":
			to += " y\n -> x"
		case i == c.N && c.End == "cycle":
			to = "A1 x\n ->"
		case i == 1 && c.End == "hidden":
			to = "A2 A1\n -> x"
		case i == 1 && c.End == "open":
			to = "A2 x\n -> y"
		case i == 1 && c.End == "solid":
			to = "A2 A1\n -> y"
		case i == c.N && c.End == "solid":
			to = "x"
		case i == c.N:
			to = ""
		}
		sb.WriteString("A" + strconv.Itoa(i) + " -> " + to + "\n")
	}
	g, err := grammar.New(sb.String())
	if err != nil {
		return O{"nts": []int{}, "prods": []int{}, "heads": []int{}, "back": 2, "lr": 2, "td": 2, "first": []int{}, "other": []int{}, "nonterm": []int{}}
	}
	nts, prods, heads, first, other, nonterm := []int{}, []int{}, []int{}, []int{}, []int{}, []int{}
	a := analyze.Analyze(g)
	for _, nt := range g.NonTerminals() {
		nts = append(nts, num(nt))
		ps := g.Productions(nt)
		prods = append(prods, ps.Productions())
		if ps.Production(0).Symbols() > 0 {
			heads = append(heads, num(ps.Production(0).Symbol(0)))
		} else {
			heads = append(heads, 0)
		}
		first = append(first, b2i(a.HasFirst(nt, stringsymbol.Symbol("x"))))
		other = append(other, b2i(a.HasFirst(nt, stringsymbol.Symbol("y")) || a.HasNilInFirst(nt)))
		nonterm = append(nonterm, b2i(a.NonTerminal(nt) && a.Contains(nt)))
	}
	h, err := grammar.New(g.String())
	back := 0
	if err == nil && h.String() == g.String() && len(h.NonTerminals()) == c.N {
		back = 1
	}
	_, err = topdown.New(g)
	return O{"nts": nts, "prods": prods, "heads": heads, "back": back, "lr": b2i(parlex.IsLeftRecursive(g)),
		"td": b2i(err == topdown.ErrLeftRecursion), "first": first, "other": other, "nonterm": nonterm}
}

// pumpLex gives a table of distinct lexemes and references to it. In a case
// with a run, n of the byte c in a row read -1.
func pumpLex(c *pumpCase) interface{} {
	defs := make([]string, len(c.Defs))
	for i, d := range c.Defs {
		defs[i] = strOf(d)
	}
	var in string
	switch c.Fam {
	case "lines":
		in = strings.Repeat(strOf(c.Unit), c.N)
	case "run":
		in = strOf(c.Pre) + strings.Repeat(string([]byte{byte(c.C)}), c.N) + strOf(c.Post)
	case "deep":
		defs = []string{"== A ==\n x /x/\n o /\\(/ B\n z /z/\n== B ==\n y /x/\n o /\\(/ B\n c /\\)/ ^\n"}
		in = strings.Repeat("(", c.N) + map[string]string{"close": "x" + strings.Repeat(")", c.N) + "x",
			"open": "x" + strings.Repeat(")", c.N-1) + "x", "fall": "zx", "error": "!x"}[c.F]
	}
	type key struct {
		k, v string
		e, c int
	}
	tab, at, lines := []O{}, []int{}, []int{}
	var lx parlex.Lexer
	var err error
	if c.Kind == "simple" {
		lx, err = simplelexer.New(defs...)
	} else {
		lx, err = stacklexer.New(defs...)
	}
	if err == nil {
		seen := map[key]int{}
		for _, l := range lx.Lex(in) {
			ln, col := l.Pos()
			_, isErr := l.(parlex.LexError)
			if !isErr {
				_, isErr = l.(error)
			}
			v := l.Value()
			k := key{l.Kind().String(), v, b2i(isErr), col}
			if seen[k] == 0 {
				seen[k] = len(tab) + 1
				tab = append(tab, O{"k": k.k, "v": fold(v, byte(c.C), c.N, c.Fam == "run"), "e": k.e, "c": col})
			}
			at, lines = append(at, seen[k]), append(lines, ln)
		}
	}
	return O{"tab": tab, "at": at, "lines": lines}
}

func fold(v string, c byte, n int, on bool) []int {
	out := []int{}
	for i := 0; i < len(v); {
		j := i
		for on && j < len(v) && v[j] == c {
			j++
		}
		if on && j-i == n {
			out, i = append(out, -1), j
		} else if on && j-i > 1000 {
			out, i = append(out, -2), j
		} else {
			out, i = append(out, int(v[i])), i+1
		}
	}
	return out
}

// pumpProg runs the example programs: numbers, or text without its white space
func pumpProg(c *pumpCase) interface{} {
	n, rep := c.N, strings.Repeat
	number := func(v float64, err error) O { return O{"ok": b2i(err == nil), "v": []int{int(v)}} }
	text := func(s string, err error) O {
		v := []int{}
		if err == nil {
			v = bytesOf(strings.Join(strings.Fields(s), ""))
		}
		return O{"ok": b2i(err == nil), "v": v}
	}
	switch c.F {
	case "paren":
		return number(parlexmath.Eval(rep("(", n) + "7" + rep(")", n+c.Bad)))
	case "minus":
		return number(parlexmath.Eval("1" + rep("-1", n) + rep("-", c.Bad)))
	case "items":
		return text(parlexjson.Format("[" + rep("1,", n) + "1" + rep(",", c.Bad) + "]"))
	case "nested":
		return text(parlexjson.Format(rep("[", n) + rep("]", n+c.Bad)))
	case "keys":
		return text(parlexjson.Format("{" + rep("\"k\":1,", n) + "\"k\":1" + rep(":", c.Bad) + "}"))
	case "add":
		got := scalc.Eval(rep("1 ", n+1) + rep("+ ", n+c.Bad))
		v := []int{}
		for _, x := range got {
			v = append(v, int(x.V))
		}
		return O{"ok": b2i(got != nil), "v": v}
	}
	panic(driverErr("unknown family " + c.F))
}

func all(s string, c byte) int {
	for i := range s {
		if s[i] != c {
			return -1
		}
	}
	return len(s)
}

// pumpText reads texts with long lines or many of them; v are some numbers
func pumpText(c *pumpCase) interface{} {
	n, rep := c.N, strings.Repeat
	bad := O{"v": []int{-9}}
	long := rep("x", n)
	gram := func(t string) interface{} {
		g, err := grammar.New(t)
		if err != nil {
			return bad
		}
		back, err := grammar.New(g.String())
		if err != nil {
			return bad
		}
		v := []int{}
		for _, s := range []*grammar.Grammar{g, back} {
			for _, nt := range s.NonTerminals() {
				ps := s.Productions(nt)
				v = append(v, all(nt.String(), 'x'), ps.Productions())
				for i := ps.Iter(); i.Next(); {
					t := 0
					for j := i.Production.Iter(); j.Next(); {
						t += all(j.Symbol.String(), 'x')
					}
					v = append(v, i.Symbols(), t)
				}
			}
		}
		return O{"v": v}
	}
	lex := func(l parlex.Lexer, err error, ins ...string) interface{} {
		if err != nil {
			return bad
		}
		v := []int{}
		for _, in := range ins {
			for _, x := range l.Lex(in) {
				v = append(v, len(x.Kind().String()), all(x.Value(), 'x'))
			}
		}
		return O{"v": v}
	}
	switch c.F {
	case "tree":
		t, err := tree.New("r: \"" + long + "\" {\n\t" + long + "\n\tb: \"y\"\n}")
		if err != nil {
			return bad
		}
		u, err := tree.New(t.String())
		if err != nil || u.Children() != 2 || t.Children() != 2 {
			return bad
		}
		return O{"v": []int{all(t.Value(), 'x'), all(t.Child(0).Kind().String(), 'x'), len(t.Child(1).Value()),
			all(u.Value(), 'x'), all(u.Child(0).Kind().String(), 'x'), len(u.Child(1).Value())}}
	case "prod":
		return gram("x ->" + rep(" x", n))
	case "name":
		return gram("x -> " + long + "\n" + long + " -> x")
	case "many":
		return gram("x -> x" + rep("\n  -> x", n-1))
	case "rg":
		g, r, err := regexgram.New("x ->" + rep(" x", n))
		if err != nil || r == nil || len(g.NonTerminals()) != 1 {
			return bad
		}
		ps := g.Productions(g.NonTerminals()[0])
		return O{"v": []int{ps.Productions(), ps.Production(0).Symbols()}}
	case "simple":
		l, err := simplelexer.New("k /" + long + "/")
		return lex(l, err, long, long+"x", long[1:])
	case "simpleline":
		l, err := simplelexer.New("k /[" + long + "]+/\nj /!/")
		return lex(l, err, "xxx!x")
	case "stackline":
		l, err := stacklexer.New("== A ==\n k /[" + long + "]+/\n j /!/\n")
		return lex(l, err, "xxx!x")
	case "stack":
		l, err := stacklexer.New("== A ==\n k /" + long + "/\n")
		return lex(l, err, long, long+"x", long[1:])
	case "rules", "subs":
		var sb strings.Builder
		var in strings.Builder
		if c.F == "subs" {
			sb.WriteString("== M ==\n")
		}
		for i := 1; i <= n; i++ {
			w := "w" + strconv.Itoa(i)
			sb.WriteString(w + " /" + w + ";/\n")
			in.WriteString(w + ";")
		}
		var l parlex.Lexer
		var err error
		if c.F == "subs" {
			l, err = stacklexer.New(sb.String())
		} else {
			l, err = simplelexer.New(sb.String())
		}
		if err != nil {
			return bad
		}
		v := []int{}
		for _, x := range l.Lex(in.String()) {
			v = append(v, num(x.Kind()))
		}
		return O{"v": v}
	}
	panic(driverErr("unknown family " + c.F))
}

func init() {
	ops["pump"] = func(raw json.RawMessage) interface{} {
		var c pumpCase
		get(raw, &c)
		switch c.Fam {
		case "parse":
			return pumpParse(&c)
		case "rg":
			return pumpRg(&c)
		case "tree":
			return pumpTree(&c)
		case "set":
			return pumpSet(&c)
		case "gram":
			return pumpGram(&c)
		case "text":
			return pumpText(&c)
		case "prog":
			return pumpProg(&c)
		case "lines", "run", "deep":
			return pumpLex(&c)
		}
		panic(driverErr("unknown family " + c.Fam))
	}
}
