package main

import (
	"encoding/json"
	"fmt"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

type symStep struct {
	Do    string     `json:"do"`
	Set   int        `json:"set"`
	From  int        `json:"from"`
	Text  string     `json:"text"`
	Texts []string   `json:"texts"`
	H     int        `json:"h"`
	Hs    []int      `json:"hs"`
	I     int        `json:"i"`
	Rules [][]string `json:"rules"` // left side and then the right side
}

func init() {
	ops["symhist"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Steps []symStep `json:"steps"`
		}
		get(raw, &c)
		sets := []*setsymbol.Set{nil, setsymbol.New(), setsymbol.New()}
		var prods []*setsymbol.Production
		var lists []*setsymbol.Productions
		type held struct {
			s    *setsymbol.Symbol
			text string
			idx  int
		}
		var syms []held
		res := []O{}
		for _, e := range c.Steps {
			r := []interface{}{}
			note := ""
			mk := func(text string) parlex.Symbol {
				if e.From == 0 {
					return stringsymbol.Symbol(text)
				}
				return sets[e.From].Str(text)
			}
			mks := func() []parlex.Symbol {
				var out []parlex.Symbol
				for _, t := range e.Texts {
					out = append(out, mk(t))
				}
				return out
			}
			hold := func(s *setsymbol.Symbol, text string) {
				if s.String() != text {
					note = "symbol " + text + " reads " + s.String()
				}
				syms = append(syms, held{s, text, s.Idx()})
			}
			hsProds := func() []parlex.Production {
				var ps []parlex.Production
				for n, h := range e.Hs {
					if n%2 == 1 {
						// the same content in the other representation
						ps = append(ps, stringsymbol.CastProduction(prods[h-1]))
					} else {
						ps = append(ps, prods[h-1])
					}
				}
				return ps
			}
			switch e.Do {
			case "str":
				s := sets[e.Set].Str(e.Text)
				hold(s, e.Text)
				r = append(r, s.Idx())
			case "conv":
				s := sets[e.Set].Symbol(mk(e.Text))
				hold(s, e.Text)
				r = append(r, s.Idx())
			case "has":
				r = append(r, b2(sets[e.Set].Has(e.Text)))
			case "idx":
				r = append(r, sets[e.Set].Idx(mk(e.Text)))
			case "hassym":
				if s := sets[e.Set].HasSymbol(mk(e.Text)); s == nil {
					r = append(r, -1)
				} else {
					hold(s, e.Text)
					r = append(r, s.Idx())
				}
			case "byidx":
				if s := sets[e.Set].ByIdx(e.I); s == nil {
					r = append(r, "<nil>")
				} else {
					r = append(r, s.String())
				}
			case "size":
				r = append(r, sets[e.Set].Size())
			case "prod":
				prods = append(prods, sets[e.Set].Production(mks()...))
			case "padd":
				prods[e.H-1].AddSymbols(mks()...)
			case "pcast":
				prods = append(prods, sets[e.Set].CastProduction(prods[e.H-1]))
			case "pget":
				if s := prods[e.H-1].Symbol(e.I); s == nil {
					r = append(r, "<nil>")
				} else {
					r = append(r, s.String())
				}
			case "list":
				lists = append(lists, sets[e.Set].Productions(hsProds()...))
			case "ladd":
				lists[e.H-1].AddProductions(hsProds()...)
			case "lget":
				if p := lists[e.H-1].Production(e.I); p == nil {
					r = append(r, 0)
				} else {
					prods = append(prods, p.(*setsymbol.Production))
					r = append(r, 1)
				}
			case "lcast":
				lists = append(lists, sets[e.Set].CastProductions(lists[e.H-1]))
			case "sget":
				if s := stringsymbol.CastProduction(prods[e.H-1]).Symbol(e.I); s == nil {
					r = append(r, "<nil>")
				} else {
					r = append(r, s.String())
				}
			case "slget":
				sl := stringsymbol.CastProductions(stringsymbol.CastProductions(lists[e.H-1]))
				if p := sl.Production(e.I); p == nil {
					r = append(r, "<nil>")
				} else {
					for i := 0; i < p.Symbols(); i++ {
						r = append(r, p.Symbol(i).String())
					}
				}
			case "nil":
				set := sets[1]
				var np *setsymbol.Production
				var nl *setsymbol.Productions
				r = append(r, b2(set.Symbol(nil) == nil), b2(set.CastProduction(nil) == nil), b2(set.CastProductions(nil) == nil),
					b2(np.Symbols() == 0), b2(nl.Productions() == 0),
					b2(stringsymbol.CastProduction(nil) == nil), b2(stringsymbol.CastProductions(nil) == nil),
					b2(stringsymbol.Production(nil).Symbols() == 0), b2(stringsymbol.Productions(nil).Productions() == 0))
			case "loadg":
				g := grammar.Empty()
				for _, rl := range e.Rules {
					p := stringsymbol.Production{}
					for _, t := range rl[1:] {
						p = append(p, stringsymbol.Symbol(t))
					}
					g.Add(stringsymbol.CastSymbol(mk(rl[0])), p)
				}
				s := setsymbol.New()
				s.LoadGrammar(g)
				for i := 0; i < s.Size(); i++ {
					r = append(r, s.ByIdx(i).String())
				}
			case "load":
				var lx []parlex.Lexeme
				for n, t := range e.Texts {
					lx = append(lx, lexeme.New(stringsymbol.Symbol(t)).Set(t+"v").At(n, n+1))
				}
				out := sets[e.Set].LoadLexemes(lx)
				for n, l := range out {
					ln, co := l.Pos()
					if l.Kind().String() != e.Texts[n] || l.Value() != e.Texts[n]+"v" || ln != n || co != n+1 ||
						sets[e.Set].Idx(l.Kind()) != l.Kind().(*setsymbol.Symbol).Idx() {
						note = "LoadLexemes"
					}
				}
			default:
				panic(driverErr("symhist " + e.Do))
			}
			// project everything
			vs := [][]string{}
			for _, s := range sets[1:] {
				v := []string{}
				for i := 0; i < s.Size(); i++ {
					sy := s.ByIdx(i)
					v = append(v, sy.String())
					if s.Idx(sy) != i || s.Str(sy.String()).Idx() != i || !s.Has(sy.String()) {
						note = fmt.Sprint("index of ", sy.String())
					}
				}
				vs = append(vs, v)
			}
			vp := [][]string{}
			for _, p := range prods {
				v := observeProd(p)
				vp = append(vp, v)
				if p.Symbols() != len(v) {
					note = "Symbols()"
				}
				for i := range v {
					if p.Symbol(i).String() != v[i] {
						note = "Symbol(i) and Iter differ"
					}
				}
				if fmt.Sprint(stringsymbol.CastProduction(p)) != p.String() {
					note = "stringsymbol.CastProduction"
				}
			}
			vl := [][][]string{}
			for _, l := range lists {
				v := observeProds(l)
				vl = append(vl, v)
				if l.Productions() != len(v) {
					note = "Productions()"
				}
				if fmt.Sprint(observeProds(stringsymbol.CastProductions(l))) != fmt.Sprint(v) {
					note = "stringsymbol.CastProductions"
				}
			}
			for _, h := range syms {
				if h.s.String() != h.text || h.s.Idx() != h.idx {
					note = "a symbol changed: " + h.text
				}
			}
			res = append(res, O{"r": r, "note": note, "view": O{"sets": vs, "prods": vp, "lists": vl}})
		}
		return O{"steps": res}
	}
}
