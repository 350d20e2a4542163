package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// ================================================================ X05
// What an object answers depends on what it holds, not on its past.

// closeTo compares two answers of the same question: same length, NaN where
// NaN, and entries equal up to rel of the largest one around.
func closeTo(a, b []float64, rel, scale float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if same(a[i], b[i]) {
			continue
		}
		if !(math.Abs(a[i]-b[i]) <= rel*(math.Abs(a[i])+math.Abs(b[i])+scale)) {
			return false
		}
	}
	return true
}

// rewriter is a visitor that replaces every entry it sees.
type rewriter struct {
	f func(r, c int, x float64) float64
}

func (v *rewriter) Start(rows, columns, a, b, c, d int) {}
func (v *rewriter) Visit(r, c int, x float64) float64   { return v.f(r, c, x) }
func (v *rewriter) End() float64                        { return 0 }

type vecRewriter struct {
	f func(i int, x float64) float64
}

func (v *vecRewriter) Start(n, a, b int)              {}
func (v *vecRewriter) Visit(i int, x float64) float64 { return v.f(i, x) }
func (v *vecRewriter) End() float64                   { return 0 }

func (c *Ctx) plain() float64 {
	if c.Bool() {
		return float64(c.Range(-5, 5))
	}
	return c.Sym() * 3
}

func (c *Ctx) plains(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = c.plain()
	}
	return o
}

// mutate changes m, and the table t with it, in one of the ways there are.
func (c *Ctx) mutate(m lin.RealMatrix, t *T) string {
	r, k := t.r, t.c
	i, j := c.Intn(r), c.Intn(k)
	_, diag := m.(*lin.DiagonalMatrix)
	if diag {
		j = i
	}
	row := func() []float64 {
		if !diag {
			return c.plains(k)
		}
		o := make([]float64, k)
		o[i] = c.plain()
		return o
	}
	col := func() []float64 {
		if !diag {
			return c.plains(r)
		}
		return row()
	}
	putRow := func(a []float64) { copy(t.a[i*k:(i+1)*k], a) }
	putCol := func(a []float64) {
		for q := range a {
			t.set(q, j, a[q])
		}
	}
	v := c.plain()
	switch op := c.Intn(14); op {
	case 0:
		m.SetEntry(i, j, v)
		t.set(i, j, v)
		return "SetEntry"
	case 1:
		m.AddToEntry(i, j, v)
		t.set(i, j, t.at(i, j)+v)
		return "AddToEntry"
	case 2:
		f := pick(c.Rng, -1, 0.5, 2, 0, 1)
		m.MultiplyEntry(i, j, f)
		t.set(i, j, t.at(i, j)*f)
		return "MultiplyEntry"
	case 3:
		a := row()
		m.SetRow(i, a)
		putRow(a)
		return "SetRow"
	case 4:
		a := col()
		m.SetColumn(j, a)
		putCol(a)
		return "SetColumn"
	case 5:
		a := row()
		x, _ := c.anyVec(a)
		m.SetRowVector(i, x)
		putRow(a)
		return "SetRowVector"
	case 6:
		a := col()
		x, _ := c.anyVec(a)
		m.SetColumnVector(j, x)
		putCol(a)
		return "SetColumnVector"
	case 7:
		a := row()
		x, _ := c.srcMat(&T{1, k, a})
		m.SetRowMatrix(i, x)
		putRow(a)
		return "SetRowMatrix"
	case 8:
		a := col()
		x, _ := c.srcMat(&T{r, 1, a})
		m.SetColumnMatrix(j, x)
		putCol(a)
		return "SetColumnMatrix"
	case 9, 10:
		r0, r1, c0, c1 := c.rng(r, k)
		if diag {
			c0, c1 = r0, r1
		}
		sub := newT(r1-r0+1, c1-c0+1)
		for p := 0; p < sub.r; p++ {
			for q := 0; q < sub.c; q++ {
				if !diag || p == q {
					sub.set(p, q, c.plain())
				}
				t.set(r0+p, c0+q, sub.at(p, q))
			}
		}
		m.SetSubMatrix(sub.slices(), r0, c0)
		return "SetSubMatrix"
	case 11:
		if a, ok := m.(*lin.Array2DRowRealMatrix); ok { // the array itself
			a.DataRef()[i][j] = v
			t.set(i, j, v)
			return "DataRef"
		}
		if d, ok := m.(*lin.DiagonalMatrix); ok {
			d.DataRef()[i] = v
			t.set(i, i, v)
			return "DataRef"
		}
	}
	if diag {
		m.SetEntry(i, i, v)
		t.set(i, i, v)
		return "SetEntry"
	}
	// an update walk, of all or a part
	mul, add := pick(c.Rng, -1, 0.5, 2, 0), c.plain()
	w := &rewriter{func(p, q int, x float64) float64 {
		y := x*mul + add*float64(1+(p+2*q)%3)
		if !(math.Abs(y) < 1e3) {
			y = add
		}
		t.set(p, q, y)
		return y
	}}
	r0, r1, c0, c1 := c.rng(r, k)
	order := c.Intn(3)
	bounded := c.Chance(0.6)
	walkC(m, order, bounded, w, r0, r1, c0, c1)
	if bounded {
		return "bounded update walk"
	}
	return "update walk"
}

// repOf tells the storage of a matrix the library made.
func repOf(m lin.RealMatrix) int {
	switch m.(type) {
	case *lin.DiagonalMatrix:
		return rDiag
	case *lin.BlockRealMatrix:
		return rBlock
	case *lin.Array2DRowRealMatrix:
		return rA2D
	}
	return rForeign
}

// become replaces m by something the library derived from it.
func (c *Ctx) become(m lin.RealMatrix, t *T) (lin.RealMatrix, *T, string) {
	_, diag := m.(*lin.DiagonalMatrix)
	switch op := c.Intn(11); op {
	case 0:
		return m.Transpose(), t.tr(), "Transpose"
	case 1:
		if !diag {
			r0, r1, c0, c1 := c.rng(t.r, t.c)
			return m.SubMatrix(r0, r1, c0, c1), t.part(r0, r1, c0, c1), "SubMatrix"
		}
	case 2:
		u := c.table(t.r, t.c, vInt)
		if diag {
			u = diagT(c.plains(t.r))
			n := m.Add(c.build0(u, rDiag))
			return n, read(n), "Add"
		}
		n := m.Add(c.mat(u))
		return n, t.add(u), "Add"
	case 3:
		return m.ScalarMultiply(-1), t.scale(-1), "ScalarMultiply"
	case 4:
		if !diag {
			n := m.ScalarAdd(1)
			return n, read(n), "ScalarAdd"
		}
	case 5:
		if !diag && t.c <= 60 {
			n := m.Multiply(c.mat(ident(t.c)))
			return n, read(n), "Multiply"
		}
	case 6:
		if t.r <= 60 && !diag {
			n := c.mat(ident(t.r)).Multiply(m)
			return n, read(n), "factor of Multiply"
		}
	case 7:
		i := c.Intn(t.r)
		if !diag && c.Chance(0.3) {
			return m.RowMatrixAt(i), &T{1, t.c, t.row(i)}, "RowMatrixAt"
		}
	case 8:
		j := c.Intn(t.c)
		if !diag && c.Chance(0.3) {
			return m.ColumnMatrixAt(j), &T{t.r, 1, t.col(j)}, "ColumnMatrixAt"
		}
	case 9:
		if !diag {
			u := c.table(t.r, t.c, vInt)
			n := m.Subtract(c.mat(u))
			return n, t.sub(u), "Subtract"
		}
	}
	return m.Copy(), t.clone(), "Copy"
}

func x05mat(c *Ctx) {
	r, k := c.Range(1, 9), c.Range(1, 9)
	if c.WL == "block matrices" {
		r, k = c.Range(45, 110), c.Range(45, 110)
		switch c.Intn(6) {
		case 0:
			r = c.Range(1, 9)
		case 1:
			k = c.Range(1, 9)
		case 2:
			r = pick(c.Rng, 52, 104)
		case 3:
			k = pick(c.Rng, 52, 104)
		}
	}
	if c.Chance(0.35) {
		k = r
	}
	t := c.table(r, k, c.kind(vReal, vInt))
	var m lin.RealMatrix
	if c.Chance(0.15) {
		t = diagT(c.posSlice(r))
		m = c.build(t, rDiag)
	} else if c.WL == "block matrices" {
		m = c.build(t, pick(c.Rng, rBlock, rBlockEntry, rBlockData, rBlock, rA2D))
	} else {
		m = c.mat(t)
	}
	hist := rName[repOf(m)] + fmt.Sprintf(" %dx%d", r, k)
	steps := c.Range(4, 14)
	if r*k > 2000 {
		steps = c.Range(2, 5)
	}
	type past struct {
		m lin.RealMatrix
		t *T
	}
	var left []past
	for s := 0; s < steps; s++ {
		// questions now and then before the change, so that there is a past
		c.questions(hist, m, t, c.Intn(3))
		n := c.Range(1, 3)
		for q := 0; q < n; q++ {
			p := c.mutate(m, t)
			hist += " " + p
			c.Count("changed by " + p)
		}
		if c.Chance(0.25) {
			old, to := m, t.clone()
			var p string
			m, t, p = c.become(m, t)
			hist += " -> " + p
			c.Count("became " + p)
			if len(left) < 2 {
				left = append(left, past{old, to})
			}
		}
		c.questions(hist, m, t, c.Range(2, 5))
		if len(left) > 0 && c.Chance(0.3) { // back to one left behind
			q := c.Intn(len(left))
			left[q].m, m = m, left[q].m
			left[q].t, t = t, left[q].t
			hist += " <- back"
			c.Count("back to an earlier one")
		}
	}
	c.Notef("%s", hist)
	c.EqM(hist, m, t)
	for _, o := range left {
		c.EqM(hist+": one left behind", o.m, o.t)
	}
}

// questions asks m, and a newly built matrix of the same contents and
// storage, the same n things.
func (c *Ctx) questions(hist string, m lin.RealMatrix, t *T, n int) {
	if n == 0 {
		return
	}
	r, k := t.r, t.c
	twin := c.build0(t, repOf(m))
	ts := c.table(r, k, c.kind(vReal, vInt))
	switch c.Intn(6) {
	case 0:
		ts = t.clone()
	case 1:
		ts = t.clone()
		ts.set(c.Intn(r), c.Intn(k), 7.5)
	}
	tb := c.table(k, c.Range(1, 4), vReal)
	if repOf(m) == rDiag && c.Chance(0.4) {
		tb = diagT(c.posSlice(k))
	}
	S, _ := c.anyMat(ts)
	B, _ := c.anyMat(tb)
	vs, ws := c.slice(k, vReal), c.slice(r, vReal)
	v, _ := c.anyVec(vs)
	w, _ := c.anyVec(ws)
	i0, j0 := c.Intn(r), c.Intn(k)
	pos := [4]int{i0, c.Range(i0, r-1), j0, c.Range(j0, k-1)}
	f := 1 + t.fro()
	scale := f * (1 + ts.fro()) * (1 + tb.fro()) * (1 + norm2(vs)) * (1 + norm2(ws))
	role := c.Intn(4)
	mk := func(x lin.RealMatrix) []answer {
		switch role {
		case 0: // as the other operand
			o := []answer{
				{"S.Add", func() []float64 { return flatM(S.Add(x)) }},
				{"S.Subtract", func() []float64 { return flatM(S.Subtract(x)) }},
				{"S.Equals", func() []float64 { return append(b2f(S.Equals(x)), b2f(x.Equals(S))...) }},
				{"S'.Multiply", func() []float64 { return flatM(S.Transpose().Multiply(x)) }},
				{"x x'", func() []float64 { return flatM(x.Multiply(x.Transpose())) }},
				{"x' x", func() []float64 { return flatM(x.Transpose().Multiply(x)) }},
				{"x + x", func() []float64 { return flatM(x.Add(x)) }},
				{"x - x", func() []float64 { return flatM(x.Subtract(x)) }},
			}
			return o
		}
		return matOps(x, S, B, v, w, pos)
	}
	a, b := mk(m), mk(twin)
	for q := 0; q < n; q++ {
		i := c.Intn(len(a))
		sc := scale
		if a[i].name == "Power" {
			sc = f * f * f
		}
		if a[i].name == "x x'" || a[i].name == "x' x" {
			sc = f * f
		}
		x, _ := c.ask(hist+" ? "+a[i].name, a[i].f)
		y, _ := c.ask(a[i].name+" of a new matrix of the same contents", b[i].f)
		c.Check(sameBits(x, y) || closeTo(x, y, 1e-9, sc), "%s ? %s: another answer than from a new matrix of the same contents: %s", hist, a[i].name, firstDiff(x, y))
		c.Count("questions")
	}
	c.EqT(hist+" after the questions", read(m), t)
}

// mutateV changes v, and x with it.
func (c *Ctx) mutateV(v *lin.ArrayRealVector, x []float64) string {
	n := len(x)
	i := c.Intn(n)
	d := c.plain()
	switch c.Intn(19) {
	case 0:
		v.SetEntry(i, d)
		x[i] = d
		return "SetEntry"
	case 1:
		v.AddToEntry(i, d)
		x[i] += d
		return "AddToEntry"
	case 2:
		v.Set(d)
		for k := range x {
			x[k] = d
		}
		return "Set"
	case 3:
		k := c.Range(1, n-i)
		y := c.plains(k)
		w, _ := c.anyVec(y)
		v.SetSubVector(i, w)
		copy(x[i:], y)
		return "SetSubVector"
	case 4:
		k := c.Range(1, n-i)
		y := c.plains(k)
		v.SetSubVectorWithSlice(i, y)
		copy(x[i:], y)
		return "SetSubVectorWithSlice"
	case 5:
		y := c.plains(n)
		w, _ := c.anyVec(y)
		v.CopyFrom(w)
		copy(x, y)
		return "CopyFrom"
	case 6:
		v.Map(math.Abs)
		for k := range x {
			x[k] = math.Abs(x[k])
		}
		return "Map"
	case 7:
		v.MapAdd(d)
		for k := range x {
			x[k] += d
		}
		return "MapAdd"
	case 8:
		v.MapSubtract(d)
		for k := range x {
			x[k] -= d
		}
		return "MapSubtract"
	case 9:
		f := pick(c.Rng, -1, 0.5, 2)
		v.MapMultiply(f)
		for k := range x {
			x[k] *= f
		}
		return "MapMultiply"
	case 10:
		f := pick(c.Rng, -1, 0.5, 2)
		v.MapDivide(f)
		for k := range x {
			x[k] /= f
		}
		return "MapDivide"
	case 11, 12:
		y := c.plains(n)
		w, _ := c.anyVec(y)
		p, q := pick(c.Rng, 0.5, -1, 1), pick(c.Rng, 0, 1, 2.0)
		v.Combine(p, q, w)
		for k := range x {
			x[k] = p*x[k] + q*y[k]
		}
		copy(x, readV(v)) // up to rounding the same (V01); this is about what follows
		return "Combine"
	case 13:
		v.DataRef()[i] = d
		x[i] = d
		return "DataRef"
	case 14:
		if norm2(x) > 1e-3 {
			v.Unitize()
			copy(x, readV(v))
			return "Unitize"
		}
	}
	mul, add := pick(c.Rng, -1, 0.5, 2, 0), c.plain()
	w := &vecRewriter{func(p int, y float64) float64 {
		z := y*mul + add*float64(1+p%3)
		if !(math.Abs(z) < 1e3) {
			z = add
		}
		x[p] = z
		return z
	}}
	a := c.Intn(n)
	b := c.Range(a, n-1)
	switch c.Intn(4) {
	case 0:
		v.WalkInUpdateDefaultOrder(w)
	case 1:
		v.WalkInUpdateOptimizedOrder(w)
	case 2:
		v.WalkInUpdateDefaultOrderBounded(w, a, b)
	case 3:
		v.WalkInUpdateOptimizedOrderBounded(w, a, b)
	}
	return "update walk"
}

func x05vec(c *Ctx) {
	n := c.Range(1, 12)
	if c.Chance(0.1) {
		n = c.Range(13, 200)
	}
	x := c.slice(n, c.kind(vReal, vInt))
	v := c.vec(x)
	hist := fmt.Sprintf("vector of %d", n)
	type past struct {
		v *lin.ArrayRealVector
		x []float64
	}
	var left []past
	steps := c.Range(4, 20)
	for s := 0; s < steps; s++ {
		c.vquestions(hist, v, x, c.Intn(3))
		for q := c.Range(1, 3); q > 0; q-- {
			p := c.mutateV(v, x)
			hist += " " + p
			c.Count("changed by " + p)
		}
		if c.Chance(0.2) {
			old := past{v, append([]float64{}, x...)}
			var w lin.RealVector
			switch c.Intn(6) {
			case 0:
				w = v.Append(1.5)
				x = append(append([]float64{}, x...), 1.5)
			case 1:
				i := c.Intn(len(x))
				l := c.Range(1, len(x)-i)
				w = v.SubVector(i, l)
				x = append([]float64{}, x[i:i+l]...)
			case 2:
				y := c.plains(len(x))
				w = v.Subtract(c.vec(y))
				for i := range y {
					y[i] = x[i] - y[i]
				}
				x = y
			case 3:
				w = v.AppendVector(v)
				x = append(append([]float64{}, x...), x...)
			default:
				w = v.Copy()
				x = append([]float64{}, x...)
			}
			if a, ok := w.(*lin.ArrayRealVector); ok && len(x) < 400 {
				hist += " -> derived"
				v = a
				c.Count("became another")
				if len(left) < 2 {
					left = append(left, old)
				}
			} else {
				v, x = old.v, old.x
			}
		}
		c.vquestions(hist, v, x, c.Range(2, 5))
		if len(left) > 0 && c.Chance(0.3) {
			q := c.Intn(len(left))
			o := left[q]
			left[q] = past{v, x}
			v, x = o.v, o.x
			hist += " <- back"
			c.Count("back to an earlier one")
		}
	}
	c.Notef("%s", hist)
	c.EqV(hist, v, x)
	for _, o := range left {
		c.EqV(hist+": one left behind", o.v, o.x)
	}
}

func (c *Ctx) vquestions(hist string, v *lin.ArrayRealVector, x []float64, n int) {
	twin, err := lin.NewArrayRealVector(append([]float64{}, x...), false)
	c.must("NewArrayRealVector", err)
	y := c.slice(len(x), c.kind(vReal, vInt))
	switch c.Intn(6) {
	case 0:
		y = append([]float64{}, x...)
	case 1:
		y = append([]float64{}, x...)
		y[c.Intn(len(y))] = 7.5
	}
	u, _ := c.anyVec(y)
	scale := (1 + norm2(x)) * (1 + norm2(y))
	role := c.Bool()
	A := c.mat(c.table(len(x), len(x)%5+1, vReal))
	mk := func(z lin.RealVector) []answer {
		var o []answer
		if role {
			o = vecOps(z, u)
		} else {
			o = vecOps(u, z)
		}
		return append(o, answer{"as a right factor", func() []float64 { return flatV(A.PreMultiplyVector(z)) }},
			answer{"OuterProduct", func() []float64 { return flatM(lin.OuterProduct(z, u)) }},
			answer{"DiagonalMatrix", func() []float64 {
				d, err := lin.NewDiagonalMatrix(z.ToArray(), true)
				if err != nil {
					panic(err)
				}
				return flatM(d)
			}})
	}
	a, b := mk(v), mk(twin)
	for q := 0; q < n; q++ {
		i := c.Intn(len(a))
		p, _ := c.ask(hist+" ? "+a[i].name, a[i].f)
		r, _ := c.ask(a[i].name+" of a new vector of the same contents", b[i].f)
		c.Check(sameBits(p, r) || closeTo(p, r, 1e-9, scale), "%s ? %s: another answer than from a new vector of the same contents: %s", hist, a[i].name, firstDiff(p, r))
		c.Count("questions")
	}
	c.EqS(hist+" after the questions", readV(v), x)
}

// one matrix object decomposed, rewritten, and decomposed again; one solver
// asked about right-hand sides that change in between
func x05dec(c *Ctx) {
	n := c.decDim(24)
	kind := pick(c.Rng, decKinds...)
	t := c.decInput(kind, n)
	rep := rA2D
	if c.Chance(0.4) {
		rep = rBlock
	}
	m := c.build0(t, rep)
	hist := fmt.Sprintf("%s %dx%d", rName[rep], t.r, t.c)
	type asked struct {
		hist, kind string
		t          *T
		bs         [][]float64 // right-hand sides, one by one
		tb         []*T
		out        [][]float64
	}
	// the right-hand sides are one vector and one matrix object all the time
	bs := c.slice(t.r, vReal)
	b := c.vec(bs)
	tb := c.table(t.r, c.Range(1, 3), vReal)
	B := c.mat(tb)
	run := func(q *asked, x lin.RealMatrix, again bool) {
		put := func(o []float64) { q.out = append(q.out, o) }
		d, err := decompose(q.kind, x, decThr(q.kind))
		if err != nil {
			c.Check(isLib(err), "%s: constructor error %v", q.hist, err)
			put([]float64{-778})
			return
		}
		for _, f := range d.factors {
			y, _ := c.ask(q.hist+" "+f.name, f.f)
			put(y)
		}
		if d.solver == nil {
			return
		}
		var s lin.DecompositionSolver
		if _, r := c.ask(q.hist+" Solver", func() []float64 { s = d.solver(); return nil }); r != "" {
			put([]float64{-776})
			return
		}
		if again {
			// the same questions with objects of their own
			for k, h := range q.bs {
				v, err := lin.NewArrayRealVector(h, true)
				c.must("NewArrayRealVector", err)
				w := c.build0(q.tb[k], repOf(B))
				s2 := d.solver()
				y, _ := c.ask(q.hist+" SolveVector", func() []float64 { return readV(s2.SolveVector(v)) })
				put(y)
				y, _ = c.ask(q.hist+" SolveMatrix", func() []float64 { return flatM(s2.SolveMatrix(w)) })
				put(y)
			}
			return
		}
		for k := c.Range(1, 4); k > 0; k-- {
			y, _ := c.ask(q.hist+" SolveVector", func() []float64 { return readV(s.SolveVector(b)) })
			q.bs = append(q.bs, append([]float64{}, bs...))
			put(y)
			if k%2 == 0 || tb.c > 1 && c.Bool() {
				tb = c.table(t.r, tb.c, vReal)
			} else {
				tb = tb.clone()
				tb.set(c.Intn(t.r), c.Intn(tb.c), 2.5)
			}
			B.SetSubMatrix(tb.slices(), 0, 0)
			y, _ = c.ask(q.hist+" SolveMatrix", func() []float64 { return flatM(s.SolveMatrix(B)) })
			q.tb = append(q.tb, tb)
			put(y)
			c.Count("right-hand sides changed")
			if i := c.Intn(t.r); c.Bool() {
				bs[i] += 1.25
				b.SetEntry(i, bs[i])
			} else {
				bs = c.slice(t.r, vReal)
				for i := range bs {
					b.SetEntry(i, bs[i])
				}
			}
		}
	}
	var log []*asked
	rounds := c.Range(2, 5)
	for s := 0; s < rounds; s++ {
		if s > 0 {
			was := kind
			if c.Chance(0.25) {
				kind = pick(c.Rng, decKinds...)
			}
			var u *T
			if kind == was && c.Chance(0.75) { // one entry of it, on the diagonal, grows
				u = t.clone()
				i := c.Intn(min(t.r, t.c))
				u.set(i, i, u.at(i, i)+1+math.Abs(u.at(i, i)))
				c.Notef("entry %d", i)
			} else {
				ok := false
				for try := 0; try < 20 && !ok; try++ {
					u = c.decInput(kind, t.r)
					ok = u.r == t.r && u.c == t.c
				}
				if !ok { // (a kind for square ones only)
					kind, u = was, t.clone()
					u.set(0, 0, u.at(0, 0)+1+math.Abs(u.at(0, 0)))
				}
			}
			switch c.Intn(4) {
			case 0:
				for i := 0; i < t.r; i++ {
					m.SetRow(i, u.row(i))
				}
			case 1:
				for i := 0; i < t.r; i++ {
					for j := 0; j < t.c; j++ {
						if t.at(i, j) != u.at(i, j) {
							m.SetEntry(i, j, u.at(i, j))
						}
					}
				}
			case 2:
				m.SetSubMatrix(u.slices(), 0, 0)
			case 3:
				walkC(m, c.Intn(3), false, &rewriter{func(i, j int, x float64) float64 { return u.at(i, j) }}, 0, 0, 0, 0)
			}
			t = u
			c.Count("rewritten")
		}
		hist += " " + kind
		q := &asked{hist: hist, kind: kind, t: t.clone()}
		run(q, m, false)
		log = append(log, q)
		c.Count("again " + kind)
		c.EqT(hist+" input", read(m), t)
	}
	// what new objects say, after all that
	for _, q := range log {
		e := &asked{hist: q.hist + " (new)", kind: q.kind, bs: q.bs, tb: q.tb}
		run(e, c.build0(q.t, rep), true)
		c.Check(len(e.out) == len(q.out), "%s: %d answers, a new matrix of the same contents has %d", q.hist, len(q.out), len(e.out))
		for i := range q.out {
			x, y := q.out[i], e.out[i]
			c.Check(sameBits(x, y), "%s: answer %d differs from that for a new matrix of the same contents: %s", q.hist, i, firstDiff(x, y))
		}
	}
	c.Notef("%s", hist)
}

func init() {
	register(&Prop{ID: "X05",
		Rule:      "after any history of reads, in-place changes and derivations, every answer of a matrix or vector (as receiver and as argument) equals that of a newly built one of the same contents and storage, and decomposing an object whose contents were replaced gives bit for bit what a new object of these contents gives; objects left behind keep their contents",
		Technique: "runtime monitoring: history oracle against newly built twins",
		Level:     "histories of 4..20 changes with all in-place operations, derivations and returns to earlier objects; orders to 110 (decompositions to 24)",
		WL: []Workload{{Name: "matrices", Quick: 12000, Thorough: 240000, Run: x05mat}, {Name: "block matrices", Quick: 900, Thorough: 18000, Run: x05mat},
			{Name: "vectors", Quick: 12000, Thorough: 240000, Run: x05vec}, {Name: "decomposed again", Quick: 6000, Thorough: 120000, Run: x05dec}},
		Need: []string{"questions", "rewritten", "changed by update walk", "changed by bounded update walk", "changed by SetSubMatrix", "became SubMatrix", "back to an earlier one", "changed by DataRef", "changed by CopyFrom", "right-hand sides changed"}})
}
