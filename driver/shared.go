package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// a case makes one object (or none) and describes calls on it; goroutines
// make the calls at the same time
type sharedCase struct {
	Form   string    `json:"form"`
	Steps  []lexStep `json:"steps"` // lexer, runner: how the lexer is made
	Ins    [][]int   `json:"ins"`   // lexer, runner: inputs
	G      G         `json:"g"`
	Via    string    `json:"via"`
	Parser string    `json:"parser"`
	Lxs    [][]Lx    `json:"lxs"`  // parser: inputs
	Text   []int     `json:"text"` // reducer
	Trees  []*BT     `json:"trees"`
	Fns    []struct {
		Fn   string  `json:"fn"`
		Text []int   `json:"text"`
		Defs [][]int `json:"defs"`
	} `json:"fns"`
	Parts []sharedCase `json:"parts"` // mix: several of these at once

	Who  [][]int `json:"who"`  // per goroutine the calls it makes (from 1)
	Want int     `json:"want"` // also tell what the calls return
}

type call func() interface{}

// held is a result that its caller keeps and looks at again later, when other
// calls have been made, before it changes it to its own liking
type held struct {
	look  func() interface{}
	spoil func()
}

func heldTree(n parlex.ParseNode) interface{} {
	if n == nil {
		return nil
	}
	return held{func() interface{} { return nodeObs(n) }, func() {
		if pn, ok := n.(*tree.PN); ok {
			for _, ch := range pn.C {
				ch.Lexeme = lexeme.New(stringsymbol.Symbol("spoilt"))
			}
			pn.C = append(pn.C[:0], pn)
		}
	}}
}

func heldLexemes(lxs []parlex.Lexeme) interface{} {
	return held{func() interface{} { return observeLexemes(lxs) }, func() {
		for i := range lxs {
			if lx, ok := lxs[i].(*lexeme.Lexeme); ok {
				lx.Set("spoilt").At(-7, -7)
			}
			lxs[i] = lexeme.New(stringsymbol.Symbol("spoilt"))
		}
	}}
}

func heldGrammar(g *grammar.Grammar) interface{} {
	return held{func() interface{} { return observeGrammar(g) }, func() { g.Add(stringsymbol.Symbol("spoilt"), nil) }}
}

func (c *sharedCase) lexer() parlex.Lexer {
	var simple *simplelexer.Lexer
	var stack *stacklexer.StackLexer
	for _, s := range c.Steps {
		switch s.Do {
		case "new":
			defs := []string{}
			for _, d := range s.Defs {
				defs = append(defs, strOf(d))
			}
			var err error
			if s.Kind == "simple" {
				simple, err = simplelexer.New(defs...)
			} else {
				stack, err = stacklexer.New(defs...)
			}
			if err != nil {
				return nil
			}
		case "pri":
			if simple != nil {
				simple.ByPriority()
			} else {
				stack.ByPriority()
			}
		case "seterr":
			if simple != nil {
				simple.Error = s.Kind
			} else {
				stack.Error = s.Kind
			}
		case "start":
			if simple != nil {
				simple.InsertStart(s.Ins.Kind, strOf(s.Ins.Val))
			} else {
				stack.InsertStart(s.Ins.Kind, strOf(s.Ins.Val))
			}
		}
	}
	if simple != nil {
		return simple
	}
	return stack
}

func nodeObs(n parlex.ParseNode) interface{} {
	if n == nil {
		return nil
	}
	return []interface{}{flatTree(n), links(n)}
}

func (c *sharedCase) calls() []call {
	out := []call{}
	switch c.Form {
	case "lexer":
		l := c.lexer()
		for _, in := range c.Ins {
			s := strOf(in)
			out = append(out, func() interface{} {
				if l == nil {
					return nil
				}
				return heldLexemes(l.Lex(s))
			})
		}
	case "mix":
		for i := range c.Parts {
			out = append(out, c.Parts[i].calls()...)
		}
	case "parser", "runner":
		g := c.G.build(c.Via)
		var p parlex.Parser = packrat.New(g)
		if c.Parser == "topdown" {
			t, err := topdown.New(g)
			if err != nil {
				p = packrat.New(g)
			} else {
				p = t
			}
		}
		if c.Form == "runner" {
			l := c.lexer()
			if l == nil {
				break
			}
			r, err := reducer.Parse(strOf(c.Text))
			var rn *parlex.Runner
			reds := []parlex.Reducer{r, nil, r}[:len(c.Text)%4%3+len(c.Text)%2]
			if err != nil {
				reds = []parlex.Reducer{nil, nil}[:len(c.Text)%3]
			}
			rn = parlex.New(l, p, reds...)
			for _, in := range c.Ins {
				s := strOf(in)
				out = append(out, func() interface{} {
					n, err := rn.Run(s)
					if err != nil {
						return err.Error()
					}
					return heldTree(n)
				})
			}
			break
		}
		for _, in := range c.Lxs {
			lxs := []parlex.Lexeme{}
			for _, l := range in {
				lxs = append(lxs, l.lexeme())
			}
			out = append(out, func() interface{} { return heldTree(p.Parse(lxs)) })
		}
	case "grammar":
		g := c.G.build(c.Via)
		other := setsymbol.New()
		other.Str("something")
		syms := []parlex.Symbol{stringsymbol.Symbol("unknown")}
		for _, nt := range c.G.Nts {
			syms = append(syms, stringsymbol.Symbol(nt), other.Str(nt))
		}
		an := analyze.Analyze(g)
		for _, s := range syms {
			s := s
			out = append(out,
				func() interface{} { return observeProds(g.Productions(s)) },
				func() interface{} {
					r := []bool{an.Contains(s), an.NonTerminal(s), an.HasNilInFirst(s)}
					for _, t := range syms {
						r = append(r, an.HasFirst(s, t))
					}
					return r
				})
		}
		out = append(out,
			func() interface{} { return observeGrammar(g) },
			func() interface{} { return fmt.Sprint(g) },
			func() interface{} { return parlex.IsLeftRecursive(g) },
			func() interface{} {
				for _, ps := range c.G.Ps {
					for _, p := range ps {
						if len(p) == 0 {
							return nil // not meant for empty productions
						}
					}
				}
				return heldGrammar(grammar.RemoveLeftRecursion(g))
			},
			func() interface{} { _, err := topdown.New(g); return err != nil },
			func() interface{} { a := analyze.Analyze(g); return a.NonTerminal(syms[len(syms)-1]) })
	case "reducer":
		r, err := reducer.Parse(strOf(c.Text))
		for _, t := range c.Trees {
			n := makeTree(t, nil, 0, 0, nil)
			out = append(out, func() interface{} {
				if err != nil {
					return "error"
				}
				return heldTree(r.Reduce(n))
			})
			out = append(out, func() interface{} { return []interface{}{bt(n), fmt.Sprint(n)} })
		}
	case "package":
		for _, f := range c.Fns {
			out = append(out, packageCall(f.Fn, strOf(f.Text), f.Defs))
		}
	default:
		panic(driverErr("unknown form " + c.Form))
	}
	return out
}

func packageCall(fn, s string, ds [][]int) call {
	defs := []string{}
	for _, d := range ds {
		defs = append(defs, strOf(d))
	}
	return func() interface{} {
		switch fn {
		case "grammar":
			g, err := grammar.New(s)
			if err != nil {
				return "error"
			}
			return heldGrammar(g)
		case "regexgram":
			g, r, err := regexgram.New(s)
			if err != nil {
				return "error"
			}
			return []interface{}{observeGrammar(g), reducerKeys(r)}
		case "reducer":
			r, err := reducer.Parse(s)
			if err != nil {
				return "error"
			}
			return reducerKeys(r)
		case "tree":
			t, err := tree.New(s)
			if err != nil {
				return "error"
			}
			return heldTree(t)
		case "simple":
			l, err := simplelexer.New(defs...)
			if err != nil {
				return "error"
			}
			return heldLexemes(l.Lex(s))
		case "stack":
			l, err := stacklexer.New(defs...)
			if err != nil {
				return "error"
			}
			return heldLexemes(l.Lex(s))
		case "math":
			v, err := parlexmath.Eval(s)
			return []interface{}{fmt.Sprint(v), err != nil}
		case "json":
			v, err := parlexjson.Format(s)
			return []interface{}{v, err != nil}
		case "scalc":
			return scalc.Eval(s)
		}
		panic(driverErr("unknown function " + fn))
	}
}

func resultText(f call) (string, held) {
	var v interface{}
	if m := guard(func() { v = f() }); m != "" {
		return m, held{}
	}
	h, ok := v.(held)
	if ok {
		if m := guard(func() { v = h.look() }); m != "" {
			return m, held{}
		}
	}
	b, err := json.Marshal(v)
	if err != nil {
		return "not printable: " + err.Error(), held{}
	}
	return string(b), h
}

func init() {
	ops["shared"] = func(raw json.RawMessage) interface{} {
		var c sharedCase
		get(raw, &c)
		type ev struct {
			t       time.Duration
			p, c, e int
			r       string
		}
		calls := c.calls()
		logs := make([][]ev, len(c.Who))
		begin := make(chan struct{})
		t0 := time.Now()
		var ready, done sync.WaitGroup
		for p := range c.Who {
			p := p
			ready.Add(1)
			done.Add(1)
			go func() {
				defer done.Done()
				ready.Done()
				<-begin
				l := []ev{}
				type kept struct {
					held
					i int
				}
				var had []kept
				again := func(h kept) { // as if the call were made and returned the same once more
					l = append(l, ev{time.Since(t0), p + 1, h.i + 1, 0, ""})
					r, _ := resultText(h.look)
					l = append(l, ev{time.Since(t0), p + 1, h.i + 1, 1, r})
				}
				for _, k := range c.Who[p] {
					if len(calls) == 0 {
						break
					}
					i := (k - 1) % len(calls)
					l = append(l, ev{time.Since(t0), p + 1, i + 1, 0, ""})
					r, h := resultText(calls[i])
					l = append(l, ev{time.Since(t0), p + 1, i + 1, 1, r})
					if c.Want != 1 && h.look != nil {
						if n := len(had); n > 0 {
							again(had[n-1])
						}
						had = append(had, kept{h, i})
					}
					if k%3 == 0 {
						runtime.Gosched()
					}
				}
				for _, h := range had {
					again(h)
					h.spoil()
				}
				logs[p] = l
			}()
		}
		ready.Wait()
		close(begin)
		done.Wait()
		all := []ev{}
		for _, l := range logs {
			all = append(all, l...)
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].t < all[j].t })
		// the same calls, one after the other, on an object of their own
		idx := map[string]int{}
		texts := []string{}
		id := func(s string) int {
			if i, ok := idx[s]; ok {
				return i
			}
			texts = append(texts, s)
			idx[s] = len(texts)
			return len(texts)
		}
		alone := []int{}
		for _, f := range c.calls() {
			r, _ := resultText(f)
			alone = append(alone, id(r))
		}
		evs := []O{}
		for _, e := range all {
			r := 0
			if e.e == 1 {
				r = id(e.r)
			}
			evs = append(evs, O{"p": e.p, "c": e.c, "e": e.e, "r": r})
		}
		if len(texts) <= len(alone) {
			texts = nil
		}
		o := O{"alone": alone, "evs": evs, "n": len(c.Who)}
		if len(texts) > 0 && len(texts) < 60 {
			o["texts"] = texts
		}
		if c.Want == 1 {
			vs := []json.RawMessage{}
			for _, l := range logs {
				for _, e := range l {
					if e.e == 1 {
						if !json.Valid([]byte(e.r)) {
							b, _ := json.Marshal(e.r)
							e.r = string(b)
						}
						vs = append(vs, json.RawMessage(e.r))
					}
				}
			}
			o["vals"] = vs
		}
		return o
	}
}
