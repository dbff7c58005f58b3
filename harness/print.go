package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/rom1mouret/ml-essentials/dataframe"
)

// captured is what f writes to the standard output
func (w *World) captured(f func()) string {
	path := filepath.Join(w.dir, "stdout")
	out, err := os.Create(path)
	fatal(err)
	save := os.Stdout
	os.Stdout = out
	defer func() {
		os.Stdout = save
		out.Close()
	}()
	f()
	os.Stdout = save
	b, err := ioutil.ReadFile(path)
	fatal(err)
	return string(b)
}

// escaped is s in ASCII; pieces of a text are escaped like the text
func escaped(s string) string {
	q := strconv.QuoteToASCII(s)
	return q[1 : len(q)-1]
}

type table map[int]string

func (t table) ops() []Op {
	r := []Op{}
	for k, x := range t {
		r = append(r, Op{"k": k, "x": x})
	}
	sort.Slice(r, func(a, b int) bool { return r[a].i("k") < r[b].i("k") })
	return r
}

func (w *World) doPrint(name string, op Op) bool {
	switch name {
	case "Print":
		d := w.df(op, "f")
		var short map[string]string
		if op.b("good") {
			short = d.GoodShortNames(op.i("min"))
			p := []Op{}
			for c, s := range short {
				p = append(p, Op{"k": c, "x": s})
			}
			op["short"] = p
		} else if l := op.ops("short"); len(l) > 0 || op.b("empty") {
			short = map[string]string{}
			for _, o := range l {
				short[o.s("k")] = o.s("x")
			}
		}
		self := true
		text := w.captured(func() {
			for _, k := range op.ss("kinds") {
				var r *DF
				switch k {
				case "head":
					r = d.PrintHead(op.i("n"), op.s("fmt"))
				case "records":
					r = d.PrintRecords(op.i("n"), op.s("fmt"), short)
				default:
					r = d.PrintSummary()
				}
				self = self && r == d
			}
		})
		op["self"] = self
		// lines, but those that are about how the frame is stored
		lines := []string{}
		for _, l := range strings.SplitAfter(text, "\n") {
			if l == "" || strings.HasPrefix(l, "viewed  [") || strings.HasPrefix(l, "shared  YES") ||
				strings.HasPrefix(l, "row-wise view: ") || l == "object  []\n" {
				continue
			}
			if !strings.HasSuffix(l, "\n") {
				l += "(no end of line)\n"
			}
			lines = append(lines, escaped(strings.TrimSuffix(l, "\n")))
		}
		op["lines"] = lines
		op["idx"] = append([]int{}, dataframe.DataFrameInternals{DF: d}.GetIndices()...)
		// texts of the values
		format := op.s("fmt")
		if format == "" {
			format = "%.3f"
		}
		tf, ti, to := table{}, table{}, table{}
		order := []string{}
		o := w.observe(op.i("f"), d)
		for _, c := range o.Cols {
			order = append(order, c.N)
			for _, v := range c.V {
				switch {
				case v == NIL || v == BAD:
				case c.T == "f":
					tf[v] = escaped(fmt.Sprintf(format, w.tk.toFloat(v)))
				case c.T == "i":
					ti[v] = strconv.Itoa(w.tk.toInt(v))
				case c.S:
					to[v] = escaped(w.tk.toStr(v))
				case c.T == "o" && v >= objBase:
					to[v] = fmt.Sprintf("&{%d}", v-objBase)
				}
			}
		}
		sort.Strings(order)
		op["order"], op["tf"], op["ti"], op["to"] = order, tf.ops(), ti.ops(), to.ops()
	case "ShortNames":
		p := []Op{}
		for c, s := range w.df(op, "f").GoodShortNames(op.i("min")) {
			p = append(p, Op{"k": c, "x": s})
		}
		op["short"] = p
	case "Debug":
		d := w.df(op, "f")
		op["self"] = d.Debug(op.b("on")) == d
	default:
		return false
	}
	return true
}

// printable: the text that is printed does not depend on addresses or on
// ends of lines
func (g *Gen) printable(o *Obs) bool {
	for _, c := range o.Cols {
		for _, v := range c.V {
			if c.T == "o" && v >= strBase && v < objBase && (!c.S || strings.Contains(g.w.tk.toStr(v), "\n")) {
				return false
			}
		}
	}
	return true
}

func (g *Gen) makePrint(key string, f int) Op {
	switch key {
	case "Print":
		f = g.frame(g.printable)
		if f == 0 {
			return nil
		}
		o := g.obs(f)
		n := []int{-1, 0, 1, 2, g.n(o.N + 1), o.N - 1, o.N, o.N + 1, 1000, 11, 101}[g.n(11)]
		kinds := [][]string{{"head"}, {"head"}, {"records"}, {"records"}, {"records"}, {"summary"}, {"summary", "head"}, {"head", "summary"}}[g.n(8)]
		op := Op{"op": key, "f": f, "n": n, "kinds": kinds, "fmt": g.pick([]string{"", "", "%.3f", "%v", "%.1f", "%8.2f", "%g", "%e"}),
			"short": []Op{}, "good": g.pct(35), "empty": g.pct(50), "min": g.n(6) - 1}
		if g.pct(25) {
			p := []Op{}
			for _, c := range o.Cols {
				if g.pct(60) {
					p = append(p, Op{"k": c.N, "x": g.pick([]string{"", "x", "%", "%s", "50%", c.N + "%d", "a b"})})
				}
			}
			op["short"], op["good"] = append(p, Op{"k": "no such column", "x": "z"}), false
		}
		return op
	case "ShortNames":
		return Op{"op": key, "f": f, "min": g.n(8) - 2}
	case "Debug":
		return Op{"op": key, "f": f, "on": g.pct(80)}
	}
	return nil
}
