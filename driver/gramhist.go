package main

import (
	"encoding/json"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// BG is a grammar with symbols as byte lists
type BG struct {
	Nts [][]int     `json:"nts"`
	Ps  [][][][]int `json:"ps"`
}

func bytesOf(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func strOf(b []int) string {
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x)
	}
	return string(r)
}

func bg(g parlex.Grammar) BG {
	out := BG{Nts: [][]int{}, Ps: [][][][]int{}}
	for _, nt := range g.NonTerminals() {
		out.Nts = append(out.Nts, bytesOf(nt.String()))
		out.Ps = append(out.Ps, bprods(g.Productions(nt)))
	}
	return out
}

func bprods(ps parlex.Productions) [][][]int {
	r := [][][]int{}
	if ps == nil {
		return r
	}
	for k := 0; k < ps.Productions(); k++ {
		q := [][]int{}
		p := ps.Production(k)
		for j := 0; j < p.Symbols(); j++ {
			q = append(q, bytesOf(p.Symbol(j).String()))
		}
		r = append(r, q)
	}
	return r
}

type ghStep struct {
	Do   string  `json:"do"`
	Text []int   `json:"text"`
	From []int   `json:"from"`
	To   [][]int `json:"to"`
	Sym  []int   `json:"sym"`
	Kind string  `json:"kind"` // representation of symbols: string, set, own (of the grammar itself), nil
}

func init() {
	ops["gramhist"] = func(raw json.RawMessage) interface{} {
		var c struct {
			Steps []ghStep `json:"steps"`
		}
		get(raw, &c)
		g := grammar.Empty()
		res := []O{}
		foreign := setsymbol.New()
		foreign.Str("#")
		for _, s := range c.Steps {
			o := O{"err": 0}
			mk := func(b []int) parlex.Symbol {
				switch s.Kind {
				case "set":
					return foreign.Str(strOf(b))
				case "own":
					for _, nt := range g.NonTerminals() {
						if nt.String() == strOf(b) {
							return nt
						}
						for i := g.Productions(nt).Iter(); i.Next(); {
							for j := i.Production.Iter(); j.Next(); {
								if j.Symbol.String() == strOf(b) {
									return j.Symbol
								}
							}
						}
					}
				}
				return stringsymbol.Symbol(strOf(b))
			}
			switch s.Do {
			case "new":
				x, err := grammar.New(strOf(s.Text))
				if err != nil {
					o["err"] = 1
					if x != nil {
						o["err"] = 2
					}
				} else {
					g = x
				}
			case "empty":
				g = grammar.Empty()
			case "add":
				var to parlex.Production
				if len(s.To) > 0 || s.Kind != "nil" {
					switch s.Kind {
					case "set":
						p := foreign.Production()
						for _, b := range s.To {
							p.AddSymbols(mk(b))
						}
						to = p
					case "own":
						// a production object of the grammar itself, if it has this one
						for _, nt := range g.NonTerminals() {
							ps := g.Productions(nt)
							for k := 0; k < ps.Productions(); k++ {
								if p := ps.Production(k); eqProd(p, s.To) {
									to = p
								}
							}
						}
						if to == nil {
							to = sprod(s.To)
						}
					default:
						to = sprod(s.To)
					}
				}
				g.Add(mk(s.From), to)
			case "query":
				ps := g.Productions(mk(s.Sym))
				o["isnt"] = b2(ps != nil)
				o["prods"] = bprods(ps)
			case "print":
				str := g.String()
				back, err := grammar.New(str)
				if err != nil {
					o["err"] = 1
					o["back"] = BG{Nts: [][]int{}, Ps: [][][][]int{}}
				} else {
					o["back"] = bg(back)
				}
			case "scribble":
				nts := g.NonTerminals()
				for i := range nts {
					nts[i] = stringsymbol.Symbol("scribbled")
				}
				nts = append(nts, stringsymbol.Symbol("more"))
			}
			o["g"] = bg(g)
			res = append(res, o)
		}
		return O{"steps": res}
	}
}

func sprod(to [][]int) stringsymbol.Production {
	p := stringsymbol.Production{}
	for _, b := range to {
		p = append(p, stringsymbol.Symbol(strOf(b)))
	}
	return p
}

func eqProd(p parlex.Production, to [][]int) bool {
	if p.Symbols() != len(to) {
		return false
	}
	for i, b := range to {
		if p.Symbol(i).String() != strOf(b) {
			return false
		}
	}
	return true
}
