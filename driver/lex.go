package main

import (
	"encoding/json"
	"reflect"
	"regexp"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

// anyLexer is what both lexers offer
type anyLexer struct {
	simple *simplelexer.Lexer
	stack  *stacklexer.StackLexer
}

type lexRule struct {
	Kind    string `json:"kind"`
	Discard int    `json:"discard"`
}

type lexStep struct {
	Do   string  `json:"do"`
	Kind string  `json:"kind"`
	Defs [][]int `json:"defs"`
	Rule lexRule `json:"rule"`
	Re   []int   `json:"retext"`
	Ins  struct {
		Kind string `json:"kind"`
		Val  []int  `json:"val"`
	} `json:"ins"`
	Mode string `json:"mode"`
	In   []int  `json:"in"`
	Sym  int    `json:"sym"`
}

// BL is an observed lexeme
type BL struct {
	K string `json:"k"`
	V []int  `json:"v"`
	E int    `json:"e"`
	L int    `json:"l"`
	C int    `json:"c"`
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func observeLexemes(lxs []parlex.Lexeme) []BL {
	r := []BL{}
	for _, lx := range lxs {
		l, c := lx.Pos()
		_, isErr := lx.(parlex.LexError)
		if !isErr {
			_, isErr = lx.(error)
		}
		r = append(r, BL{lx.Kind().String(), bytesOf(lx.Value()), b2i(isErr), l, c})
	}
	return r
}

func init() { ops["lexhist"] = lexHist }

func lexHist(raw json.RawMessage) interface{} {
	var c struct {
		Steps []lexStep `json:"steps"`
	}
	get(raw, &c)
	var lx anyLexer
	var last lexStep
	var steps []interface{}
	var given []func() // whether what was given is still the same
	have := func() bool { return lx.simple != nil || lx.stack != nil }
	build := func(s lexStep) O {
		defs := make([]string, len(s.Defs))
		for i, d := range s.Defs {
			defs[i] = strOf(d)
		}
		lx = anyLexer{}
		var err error
		if s.Kind == "simple" {
			if len(defs) > 0 && len(defs[0])%2 == 1 {
				if l, _ := simplelexer.New(defs...); l != nil { // what is done to one does nothing to another
					l.InsertStart("spoilt", "spoilt").InsertEnd("spoilt", "spoilt").ByPriority()
					l.Error = "Spoilt"
					l.Add(stringsymbol.Symbol("spoilt"), regexp.MustCompile("."), true)
				}
			}
			lx.simple, err = simplelexer.New(defs...)
		} else {
			if len(defs) > 0 && len(defs[0])%2 == 1 {
				if l, _ := stacklexer.New(defs...); l != nil {
					l.InsertStart("spoilt", "spoilt").InsertEnd("spoilt", "spoilt").ByPriority()
					l.Error = "Spoilt"
				}
			}
			lx.stack, err = stacklexer.New(defs...)
		}
		return O{"err": b2i(err != nil), "have": b2i(have())}
	}
	for _, s := range c.Steps {
		if s.Do != "new" && !have() {
			steps = append(steps, O{"err": 0, "have": 0, "lxs": []BL{}, "kept": 1})
			continue
		}
		o := O{"err": 0, "have": 1, "lxs": []BL{}, "kept": 1}
		switch s.Do {
		case "new":
			last = s
			o = build(s)
		case "again":
			o = build(last)
		case "print":
			l, err := simplelexer.New(lx.simple.String())
			lx.simple = l
			o["err"], o["have"] = b2i(err != nil), b2i(l != nil)
		case "add":
			var k parlex.Symbol = stringsymbol.Symbol(s.Rule.Kind)
			if s.Sym == 1 {
				k = setsymbol.New().Str(s.Rule.Kind)
			}
			re, err := regexp.Compile(strOf(s.Re))
			if err != nil {
				panic(driverErr(err.Error()))
			}
			o["err"] = b2i(lx.simple.Add(k, re, s.Rule.Discard == 1) != nil)
		case "start":
			if lx.simple != nil {
				lx.simple.InsertStart(s.Ins.Kind, strOf(s.Ins.Val))
			} else {
				lx.stack.InsertStart(s.Ins.Kind, strOf(s.Ins.Val))
			}
		case "end":
			if lx.simple != nil {
				lx.simple.InsertEnd(s.Ins.Kind, strOf(s.Ins.Val))
			} else {
				lx.stack.InsertEnd(s.Ins.Kind, strOf(s.Ins.Val))
			}
		case "mode":
			switch {
			case lx.simple != nil && s.Mode == "pri":
				lx.simple.ByPriority()
			case lx.simple != nil:
				lx.simple.ByLength()
			case s.Mode == "pri":
				lx.stack.ByPriority()
			default:
				lx.stack.ByLength()
			}
		case "seterr":
			if lx.simple != nil {
				lx.simple.Error = s.Kind
			} else {
				lx.stack.Error = s.Kind
			}
		case "lex":
			var p parlex.Lexer = lx.simple
			if lx.simple == nil {
				p = lx.stack
			}
			got := p.Lex(strOf(s.In))
			seen := observeLexemes(got)
			o["lxs"] = seen
			given = append(given, func() { o["kept"] = b2i(reflect.DeepEqual(seen, observeLexemes(got))) })
		default:
			panic(driverErr("unknown step " + s.Do))
		}
		steps = append(steps, o)
	}
	for _, f := range given {
		f()
	}
	return O{"steps": steps}
}
