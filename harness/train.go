package main

import (
	"math"
	"math/rand"

	"github.com/rom1mouret/ml-essentials/algorithms"
)

// scaledInts are weights on the grid of Train.tla
func scaledInts(ws []float64) []int {
	r := []int{}
	for _, x := range ws {
		if math.IsNaN(x) || math.Abs(x) > 30000 {
			r = append(r, 1000000000)
		} else {
			r = append(r, int(math.Round(x*32768)))
		}
	}
	return r
}

// doTrain trains a linear regression, from weights found by a training that
// learns nothing.
func (w *World) doTrain(op Op) {
	d := w.df(op, "f")
	o := asOp(op["par"])
	fit := func(m *algorithms.LinearRegressor, p algorithms.LinRegTrainParams) (*algorithms.LinearRegressor, error) {
		rand.Seed(int64(op.i("rseed")))
		err := m.Fit(d, op.s("target"), p)
		return m, err
	}
	idle := algorithms.LinRegTrainParams{Epochs: 1, BatchSize: 1000, LR: 1e-300}
	a, errA := fit(algorithms.NewLinearRegressor(), idle)
	b, errB := fit(algorithms.NewLinearRegressor(), idle)
	w0, w1 := scaledInts(a.Weights), scaledInts(b.Weights)
	known := errA == nil && errB == nil && len(w0) == len(w1)
	for i := 0; known && i < len(w0); i++ {
		known = w0[i] == w1[i] && w0[i] < 6*32768 && w0[i] > -6*32768
	}
	p := algorithms.LinRegTrainParams{Epochs: o.i("epochs"), BatchSize: o.i("batch"), LowMemory: o.b("low"), Verbose: o.b("verbose"),
		Momentum: float64(o.i("mom")) / 4, WeightDecay: float64(o.i("dn")) / float64(o.i("dd"))}
	if o.i("lrden") > 0 {
		p.LR = 1 / float64(o.i("lrden"))
	}
	if w.reg == nil || !op.b("again") { // else it has already been trained
		w.reg = algorithms.NewLinearRegressor()
	}
	m, err := fit(w.reg, p)
	rand.Seed(int64(op.i("rseed")) + 1)
	op["err"] = err != nil
	op["w0"], op["known"], op["w"] = w0, known, scaledInts(m.Weights)
	op["feats"] = append([]string{}, m.Features...)
	op["sh"], op["sc"] = []Op{}, []Op{}
	if m.TargetScaler != nil {
		op["sh"], op["sc"] = w.params(m.TargetScaler.Shift), w.params(m.TargetScaler.Scale)
	}
}

// balanced targets: mean 0, variance 1, in halves
var balanced = [][]int{{2, -2}, {3, -3, 1, -1, 0}, {4, -2, -2, 0, 0, 0}, {4, -4, 0, 0, 0, 0, 0, 0}}

func (g *Gen) balance(n int) []int {
	y := []int{}
	for len(y) < n {
		b := balanced[g.n(len(balanced))]
		if rest := n - len(y) - len(b); rest == 0 || rest == 2 || rest > 3 {
			y = append(y, b...)
		}
	}
	g.r.Shuffle(n, func(i, j int) { y[i], y[j] = y[j], y[i] })
	return y
}

// linTrain: a frame with designed rows among others, a view of these, and
// trainings on it
func (g *Gen) linTrain() Op {
	nf := 1 + g.n(3)
	var X [][]int // features, in halves
	var y []int   // targets, in halves
	bools := 0
	maxb := 0
	kindOf := g.n(3)
	half := func(m int) int { return g.n(2*m+1) - m }
	switch kindOf {
	case 0: // any rows, one batch
		n := 2
		for n = 2 + g.n(15); n == 3; n = 2 + g.n(15) {
		}
		y = g.balance(n)
		bools = g.n(2)
		for range y {
			x := []int{}
			for k := 0; k < nf; k++ {
				x = append(x, half(4))
			}
			X = append(X, x)
		}
		maxb = n
	case 1: // rows that are alike, small batches
		n := 2 * (1 + g.n(8))
		if g.pct(12) {
			n, nf = []int{64, 66, 100, 128, 130}[g.n(5)], 1+g.n(2)
		}
		v := []int{}
		for k := 0; k < nf; k++ {
			x := half(4)
			if n > 16 && nf == 1 {
				x = 6 + g.n(3)
			}
			v = append(v, x)
		}
		for j := 0; j < n; j++ {
			s := 1 - 2*(j%2)
			x := []int{}
			for k := range v {
				x = append(x, s*v[k])
			}
			X, y = append(X, x), append(y, 2*s)
		}
		maxb = []int{1, 2, 3, 5, 7, n - 1, n, 64}[g.n(8)]
		if n > 16 && maxb < 30 {
			maxb = 64
		}
	default: // any rows, all the ways to deal them
		n := []int{2, 4, 4, 4, 5}[g.n(5)]
		y = g.balance(n)
		for range y {
			x := []int{}
			for k := 0; k < nf; k++ {
				x = append(x, half(4))
			}
			X = append(X, x)
		}
		maxb = 1 + g.n(n)
	}
	n := len(y)
	if maxb < 1 {
		maxb = 1
	}
	// hidden rows: values that would be noticed
	junk := g.n(4)
	m, d := (g.n(9)-3)*256, []int{64, 128, 256, 512, 1024}[g.n(5)]
	names := append([]string{}, g.names()...)
	g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	// distinct rows, in any order
	type row struct {
		x []int
		y int
		b int
	}
	rows, pos := []row{}, make([]int, n)
	for j := range y {
		pos[j] = -1
		if g.pct(70) {
			for i := range rows {
				same := rows[i].y == y[j]
				for k := range X[j] {
					same = same && rows[i].x[k] == X[j][k]
				}
				if same {
					pos[j] = i
				}
			}
		}
		if pos[j] < 0 {
			pos[j] = len(rows)
			rows = append(rows, row{X[j], y[j], g.n(2)})
		}
	}
	for k := 0; k < junk; k++ {
		x := []int{}
		for range rows[0].x {
			x = append(x, half(8)+9)
		}
		rows = append(rows, row{x, half(9), g.n(2)})
	}
	perm := g.r.Perm(len(rows))
	at := make([]int, len(rows))
	for i, p := range perm {
		at[p] = i
	}
	cols := []Op{}
	col := func(name, t string, f func(r row) int) {
		v := make([]int, len(rows))
		for p := range rows {
			v[p] = f(rows[perm[p]])
		}
		cols = append(cols, Op{"n": name, "t": t, "s": false, "v": v})
	}
	for k := 0; k < nf; k++ {
		k := k
		col(names[k], "f", func(r row) int { return r.x[k] * 128 })
	}
	target := names[nf]
	col(target, "f", func(r row) int { return m + d*r.y/2 })
	if bools > 0 && nf+1 < len(names) {
		col(names[nf+1], "b", func(r row) int { return r.b * 256 })
	}
	if g.pct(40) {
		col("int", "i", func(r row) int { return g.n(5) * 256 })
	}
	if g.pct(30) {
		s := make([]int, len(rows))
		for j := range s {
			s[j] = g.val("s")
		}
		cols = append(cols, Op{"n": "str", "t": "o", "s": true, "v": s})
	}
	f, v := g.w.fresh(), g.w.fresh()
	idx := []int{}
	whole := junk == 0 && len(rows) == n
	for j := range y {
		idx = append(idx, at[pos[j]]+1)
		whole = whole && at[pos[j]] == j
	}
	if g.pct(70) {
		g.r.Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	// of the size of the curvature of a batch
	T := 0
	for j := range X {
		for _, x := range X[j] {
			T += x * x
		}
		T += 4 * bools
	}
	if kindOf == 1 && maxb < n {
		T = T * maxb / n
	}
	T = T/4 + 1
	train := func(low bool) Op {
		par := Op{"low": low, "verbose": g.pct(30), "mom": []int{0, 0, 0, 1, 2, 3}[g.n(6)], "lrden": T * (1 + g.n(3)), "dn": 0, "dd": 1}
		switch g.n(8) {
		case 0:
			par["dn"], par["dd"] = 1, 4
		case 1:
			par["dn"], par["dd"] = 1, 2
		case 2:
			par["dn"], par["dd"] = 1, 10
		case 3:
			par["dn"], par["dd"] = 1, 50
		case 4:
			if g.pct(30) {
				par["dn"] = 1
			}
		}
		par["epochs"], par["batch"] = g.n(4), maxb
		if n > 16 && nf == 1 && g.pct(50) {
			par["lrden"], par["dn"], par["dd"] = 0, 0, 1 // the default rate is small
		}
		if maxb == 64 || (kindOf == 0 && g.pct(50)) {
			par["batch"] = 0
		} else if maxb >= n && g.pct(50) {
			par["batch"] = n + g.n(100)
		}
		if kindOf == 2 && maxb < n && (par["epochs"].(int) > 2 || n > 4) {
			par["epochs"] = 1
		}
		for e := par["epochs"].(int); e > 1 && e*((n+maxb-1)/maxb) > 24; e-- {
			par["epochs"] = e - 1
		}
		return Op{"op": "LinTrain", "f": v, "target": target, "par": par, "rseed": g.n(1 << 30), "again": g.pct(30)}
	}
	if whole && g.pct(50) {
		g.pending = append(g.pending, Op{"op": "View", "f": v, "src": f})
	} else {
		g.pending = append(g.pending, Op{"op": "IndexView", "f": v, "src": f, "idx": idx})
	}
	low := g.pct(50)
	g.pending = append(g.pending, train(low), train(!low))
	if g.pct(50) { // the same rows in another order, or otherwise stored
		v2 := g.w.fresh()
		g.pending = append(g.pending, Op{"op": []string{"ReverseView", "Copy", "ShuffleView"}[g.n(3)], "f": v2, "src": v})
		op := train(low)
		op["f"] = v2
		g.pending = append(g.pending, op)
	}
	return Op{"op": "New", "f": f, "n": len(rows), "cols": cols, "cpu": g.cpu(), "enc": "utf8", "via": []string{"set", "add"}[g.n(2)]}
}
