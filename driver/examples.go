package main

import (
	"encoding/json"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
)

// Instr is an instruction of the programs that the specification emits
type Instr struct {
	O string `json:"o"`
	V []int  `json:"v"`
	N int    `json:"n"`
}

func same(a, b float64) int {
	return b2(a == b || (math.IsNaN(a) && math.IsNaN(b)))
}

func mathRun(c []Instr) float64 {
	var st []float64
	for _, i := range c {
		n := len(st)
		switch i.O {
		case "num":
			f, _ := strconv.ParseFloat(strOf(i.V), 64)
			st = append(st, f)
		case "neg":
			st[n-1] = -st[n-1]
		default:
			a, b := st[n-2], st[n-1]
			st = st[:n-1]
			switch i.O {
			case "+":
				a += b
			case "-":
				a -= b
			case "*":
				a *= b
			case "/":
				a /= b
			}
			st[n-2] = a
		}
	}
	return st[0]
}

// pf is a value with its number of decimals
type pf struct {
	v float64
	p int
}

func scalcRun(c []Instr) []pf {
	var st []pf
	for _, i := range c {
		n := len(st)
		v := strOf(i.V)
		switch i.O {
		case "num":
			f, _ := strconv.ParseFloat(v, 64)
			p := 0
			if d := strings.IndexByte(v, '.'); d >= 0 {
				p = len(v) - d - 1
			}
			st = append(st, pf{f, p})
		case "uop":
			a := &st[n-1]
			if v == "--" || a.v < 0 {
				a.v = -a.v
			}
		case "bop":
			a, b := st[n-2], st[n-1]
			r := pf{p: a.p}
			if b.p > r.p {
				r.p = b.p
			}
			switch v {
			case "+":
				r.v = a.v + b.v
			case "-":
				r.v = a.v - b.v
			case "*":
				r.v = a.v * b.v
			case "/":
				r.v = a.v / b.v
			case "^":
				r.v = math.Pow(a.v, b.v)
			case "%":
				r.v = math.Mod(a.v, b.v)
			case ">":
				r.v = float64(b2(a.v > b.v))
			case "<":
				r.v = float64(b2(a.v < b.v))
			case "=":
				r.v = float64(b2(a.v == b.v))
			case "cmpr":
				r.v = float64(b2(a.v > b.v) - b2(a.v < b.v))
			}
			st = append(st[:n-2], r)
		case "?":
			r := st[n-3]
			if st[n-1].v > 0 {
				r = st[n-2]
			}
			st = append(st[:n-3], r)
		case "sop":
			xs := st[n-i.N:]
			var r pf
			if v == "len" {
				r.v = float64(len(xs))
			} else if len(xs) > 0 {
				switch v {
				case "sum", "avg":
					for _, x := range xs {
						r.v += x.v
						if x.p > r.p {
							r.p = x.p
						}
					}
					if v == "avg" {
						r.v /= float64(len(xs))
					}
				case "last":
					r = xs[0]
				case "first":
					r = xs[len(xs)-1]
				case "min", "max":
					r = xs[0]
					for _, x := range xs[1:] {
						if v == "min" && x.v < r.v || v == "max" && x.v > r.v {
							r = x
						}
					}
				}
			}
			st = append(st[:n-i.N], r)
		}
	}
	return st
}

type exCase struct {
	Text []int `json:"text"`
	Exp  struct {
		Ok int     `json:"ok"`
		C  []Instr `json:"c"`
	} `json:"exp"`
}

func init() {
	ops["math"] = func(raw json.RawMessage) interface{} {
		var c exCase
		get(raw, &c)
		v, err := parlexmath.Eval(strOf(c.Text))
		want := 0.0
		if c.Exp.Ok == 1 {
			want = mathRun(c.Exp.C)
		}
		return O{"ok": b2(err == nil), "same": same(v, want), "got": strconv.FormatFloat(v, 'g', -1, 64), "want": strconv.FormatFloat(want, 'g', -1, 64)}
	}
	ops["json"] = func(raw json.RawMessage) interface{} {
		var c exCase
		get(raw, &c)
		o1, e1 := parlexjson.Format(strOf(c.Text))
		r := O{"err": b2(e1 != nil), "out": bytesOf(o1), "err2": 0, "out2": []int{}}
		if e1 == nil {
			o2, e2 := parlexjson.Format(o1)
			r["err2"], r["out2"] = b2(e2 != nil), bytesOf(o2)
		}
		return r
	}
	ops["scalc"] = func(raw json.RawMessage) interface{} {
		var c exCase
		get(raw, &c)
		got := scalc.Eval(strOf(c.Text))
		r := O{"ok": b2(got != nil), "same": 1, "got": []string{}, "want": []string{}}
		g := []string{}
		for _, x := range got {
			g = append(g, x.String())
		}
		r["got"] = g
		if c.Exp.Ok != 1 || got == nil {
			return r
		}
		want := scalcRun(c.Exp.C)
		w := []string{}
		ok := len(want) == len(got)
		for i, x := range want {
			s := strconv.FormatFloat(x.v, 'f', x.p, 64)
			w = append(w, s)
			if ok && (same(x.v, got[i].V) == 0 || x.p != got[i].P) {
				ok = false
			}
			if ok && !math.IsInf(x.v, 0) && !math.IsNaN(x.v) && x.v != 0 && g[i] != s {
				ok = false
			}
		}
		r["same"], r["want"] = b2(ok), w
		return r
	}
}
