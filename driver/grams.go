package main

import (
	"encoding/json"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

type gramCase struct {
	G   G        `json:"g"`
	Via string   `json:"via"`
	Qs  []string `json:"qs"`
	Set int      `json:"set"` // query with symbols of a foreign set
	// the last production is added after ask has been called for the first time
	Grow int `json:"grow"`
	N    int `json:"n"`
}

func (c *gramCase) build(ask func(g parlex.Grammar)) parlex.Grammar {
	last := len(c.G.Nts) - 1
	if c.Grow == 0 || c.Via == "own" || last < 0 || len(c.G.Ps[last]) == 0 {
		return c.G.build(c.Via)
	}
	ps := c.G.Ps[last]
	less := G{Nts: append([]string{}, c.G.Nts[:last]...), Ps: append([][][]string{}, c.G.Ps[:last]...)}
	if k := len(ps) - 1; k > 0 {
		less.Nts, less.Ps = append(less.Nts, c.G.Nts[last]), append(less.Ps, ps[:k])
	}
	if len(less.Nts) == 0 {
		return c.G.build(c.Via)
	}
	g := less.build(c.Via)
	ask(g)
	g.(*grammar.Grammar).Add(stringsymbol.Symbol(c.G.Nts[last]), strProd(ps[len(ps)-1]))
	return g
}

func b2(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	ops["lr"] = func(raw json.RawMessage) interface{} {
		var c gramCase
		get(raw, &c)
		g := c.build(func(g parlex.Grammar) { parlex.IsLeftRecursive(g); topdown.New(g) })
		lr := parlex.IsLeftRecursive(g)
		p, err := topdown.New(g)
		td := 0
		switch {
		case err == nil && p == nil:
			td = 2
		case err == topdown.ErrLeftRecursion && p == nil:
			td = 1
		case err != nil:
			td = 3
		}
		return O{"lr": b2(lr), "td": td, "again": b2(parlex.IsLeftRecursive(g)), "g1": observeGrammar(g)}
	}
	ops["remove"] = func(raw json.RawMessage) interface{} {
		var c gramCase
		get(raw, &c)
		g := c.build(func(g parlex.Grammar) { grammar.RemoveLeftRecursion(g) })
		out := grammar.RemoveLeftRecursion(g)
		_ = out.String()
		return O{"out": observeGrammar(out), "islr": b2(parlex.IsLeftRecursive(out)), "g1": observeGrammar(g)}
	}
	ops["removeparse"] = func(raw json.RawMessage) interface{} {
		var c gramCase
		get(raw, &c)
		g := c.build(func(g parlex.Grammar) { grammar.RemoveLeftRecursion(g) })
		out := grammar.RemoveLeftRecursion(g)
		_, err := topdown.New(out)
		// which strings of up to N of the symbols Qs are sentences
		p := packrat.New(out)
		acc := [][]string{}
		level := [][]string{{}}
		for n := 0; n <= c.N; n++ {
			var next [][]string
			for _, w := range level {
				var lxs []parlex.Lexeme
				for _, k := range w {
					lxs = append(lxs, lexeme.String(k).Set(k))
				}
				if p.Parse(lxs) != nil {
					acc = append(acc, w)
				}
				for _, q := range c.Qs {
					next = append(next, append(append([]string{}, w...), q))
				}
			}
			level = next
		}
		return O{"acc": acc, "td": b2(err == nil)}
	}
	ops["analyze"] = func(raw json.RawMessage) interface{} {
		var c gramCase
		get(raw, &c)
		g := c.build(func(g parlex.Grammar) { analyze.Analyze(g) })
		a := analyze.Analyze(g)
		set := setsymbol.New()
		sym := func(s string) parlex.Symbol {
			if c.Set == 1 {
				return set.Str(s)
			}
			return stringsymbol.Symbol(s)
		}
		if c.Set == 2 {
			a = analyze.Analyze(a)
		}
		ans := []O{}
		for _, s := range c.Qs {
			first := []int{}
			for _, t := range c.Qs {
				first = append(first, b2(a.HasFirst(sym(s), sym(t))))
			}
			ans = append(ans, O{"contains": b2(a.Contains(sym(s))), "nonterm": b2(a.NonTerminal(sym(s))),
				"nil": b2(a.HasNilInFirst(sym(s))), "first": first})
		}
		return O{"ans": ans, "g1": observeGrammar(a)}
	}
}
