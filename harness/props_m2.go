package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// ================================================================ M06 isolation

// scramble overwrites entries of a matrix (the diagonal ones of a diagonal
// matrix) through one of its mutators, so that any storage it shares with
// another object shows.
func (c *Ctx) scramble(m lin.RealMatrix) {
	r, k := m.RowDimension(), m.ColumnDimension()
	x := func(i, j int) float64 { return -9e9 - float64(i*k+j) }
	way := c.Intn(18)
	if d, ok := m.(*lin.DiagonalMatrix); ok {
		for i := 0; i < r; i++ {
			switch way {
			case 0, 1, 2:
				d.DataRef()[i] = x(i, 0)
			case 3, 4:
				m.AddToEntry(i, i, -9e9)
			default:
				m.SetEntry(i, i, x(i, 0))
			}
		}
		return
	}
	if _, foreign := m.(*FMat); foreign {
		way = 13
	}
	row := func(i int) []float64 {
		o := make([]float64, k)
		for j := range o {
			o[j] = x(i, j)
		}
		return o
	}
	col := func(j int) []float64 {
		o := make([]float64, r)
		for i := range o {
			o[i] = x(i, j)
		}
		return o
	}
	vis := &scrVisitor{f: x}
	switch way {
	case 0:
		for i := 0; i < r; i++ {
			m.SetRow(i, row(i))
		}
	case 1:
		for j := 0; j < k; j++ {
			m.SetColumn(j, col(j))
		}
	case 2:
		t := newT(r, k)
		for i := 0; i < r; i++ {
			copy(t.a[i*k:], row(i))
		}
		m.SetSubMatrix(t.slices(), 0, 0)
	case 3:
		m.WalkInUpdateRowOrder(vis)
	case 4:
		m.WalkInUpdateColumnOrder(vis)
	case 5:
		m.WalkInUpdateOptimizedOrder(vis)
	case 6:
		m.WalkInUpdateOptimizedOrderBounded(vis, 0, r-1, 0, k-1)
	case 7:
		for i := 0; i < r; i++ {
			m.SetRowVector(i, c.vec(row(i)))
		}
	case 8:
		for j := 0; j < k; j++ {
			m.SetColumnVector(j, c.vec(col(j)))
		}
	case 9:
		if a, ok := m.(*lin.Array2DRowRealMatrix); ok {
			for i, w := range a.DataRef() {
				copy(w, row(i))
			}
			return
		}
		m.WalkInUpdateRowOrderBounded(vis, 0, r-1, 0, k-1)
	case 11:
		m.WalkInUpdateColumnOrderBounded(vis, 0, r-1, 0, k-1)
	case 12:
		for i := 0; i < r; i++ {
			m.SetRowMatrix(i, c.build(tableOf(1, k, row(i)), rA2D))
		}
	case 14:
		for j := 0; j < k; j++ {
			m.SetColumnMatrix(j, c.build(tableOf(r, 1, col(j)), rA2D))
		}
	case 15:
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.SetEntry(i, j, 3)
				m.MultiplyEntry(i, j, -3e9)
			}
		}
	case 10:
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.AddToEntry(i, j, x(i, j))
			}
		}
	default:
		for i := 0; i < r; i++ {
			for j := 0; j < k; j++ {
				m.SetEntry(i, j, x(i, j))
			}
		}
	}
}

func tableOf(r, k int, a []float64) *T {
	t := newT(r, k)
	copy(t.a, a)
	return t
}

type scrVisitor struct{ f func(i, j int) float64 }

func (v *scrVisitor) Start(a, b, c, d, e, f int)            {}
func (v *scrVisitor) Visit(i, j int, value float64) float64 { return v.f(i, j) }
func (v *scrVisitor) End() float64                          { return 0 }

type scrVecVisitor struct{}

func (v scrVecVisitor) Start(a, b, c int)                  {}
func (v scrVecVisitor) Visit(i int, value float64) float64 { return -8e9 - float64(i) }
func (v scrVecVisitor) End() float64                       { return 0 }

func (c *Ctx) scrambleV(v lin.RealVector) {
	n := v.Dimension()
	way := c.Intn(12)
	a, lib := v.(*lin.ArrayRealVector)
	if !lib || n == 0 {
		way = 11
	}
	switch way {
	case 0:
		for i := 0; i < n; i++ {
			v.AddToEntry(i, -8e9)
		}
	case 1:
		v.Set(-8e9)
	case 2:
		v.MapAdd(-8e9)
	case 3:
		v.Map(func(x float64) float64 { return -8e9 + x })
	case 4:
		v.WalkInUpdateDefaultOrder(scrVecVisitor{})
	case 5:
		v.WalkInUpdateOptimizedOrder(scrVecVisitor{})
	case 6:
		copy(a.DataRef(), make([]float64, n))
		a.DataRef()[0] = -8e9
	case 7:
		x := make([]float64, n)
		for i := range x {
			x[i] = -8e9 - float64(i)
		}
		v.SetSubVector(0, c.vec(x))
	case 8:
		x := make([]float64, n)
		x[n-1] = -8e9
		v.CopyFrom(c.vec(x))
	default:
		for i := 0; i < n; i++ {
			v.SetEntry(i, -8e9-float64(i))
		}
	}
}
func scrambleS(s []float64) {
	for i := range s {
		s[i] = -7e9 - float64(i)
	}
}

// iso checks one operation: op produces a result from its operands; operands
// must be unchanged by it, and afterwards neither side sees the other change.
type holder struct {
	name  string
	check func(stage string)
	hit   func()
}

func (c *Ctx) hM(name string, m lin.RealMatrix) *holder {
	t := read(m)
	h := &holder{name: name}
	h.check = func(stage string) { c.EqM(name+" "+stage, m, t) }
	h.hit = func() { c.scramble(m); t = read(m) }
	return h
}
func (c *Ctx) hV(name string, v lin.RealVector) *holder {
	t := readV(v)
	h := &holder{name: name}
	h.check = func(stage string) { c.EqV(name+" "+stage, v, t) }
	h.hit = func() { c.scrambleV(v); t = readV(v) }
	return h
}
func (c *Ctx) hS(name string, s []float64) *holder {
	t := append([]float64{}, s...)
	h := &holder{name: name}
	h.check = func(stage string) { c.EqS(name+" "+stage, s, t) }
	h.hit = func() { scrambleS(s); t = append([]float64{}, s...) }
	return h
}
func (c *Ctx) hSS(name string, s [][]float64) *holder {
	cp := func() [][]float64 {
		var o [][]float64
		for _, r := range s {
			o = append(o, append([]float64{}, r...))
		}
		return o
	}
	t := cp()
	h := &holder{name: name}
	h.check = func(stage string) {
		c.Check(len(s) == len(t), "%s %s: length", name, stage)
		for i := range s {
			c.EqS(fmt.Sprintf("%s %s row %d", name, stage, i), s[i], t[i])
		}
	}
	h.hit = func() {
		for _, r := range s {
			scrambleS(r)
		}
		t = cp()
	}
	return h
}

// independent takes every object involved and modifies each in turn, in random
// order; no other may move.
func (c *Ctx) independent(what string, hs []*holder) {
	for _, x := range c.Perm(len(hs)) {
		hs[x].hit()
		for y := range hs {
			hs[y].check(fmt.Sprintf("after %s and a change of %s", what, hs[x].name))
		}
	}
	c.Count("independence checks")
}

func m06(c *Ctx) {
	r, k := c.smallDims()
	if c.WL == "shapes" {
		for {
			r, k = c.dims()
			if r*k <= 4200 {
				break
			}
		}
	}
	if c.Chance(0.4) {
		k = r
		if k > 60 {
			r, k = 53, 53
		}
	}
	ta := c.table(r, k, c.kind(vInt, vReal, vUnique))
	if r == k && c.Chance(0.25) {
		ta = diagT(c.slice(r, vUnique))
	}
	ra := c.rep(ta, false, true)
	a := c.build(ta, ra)
	na := rName[ra]
	diag := ra == rDiag
	like := func() (lin.RealMatrix, string) { // same shape as a
		if c.Chance(0.2) {
			return c.anyMat(newT(r, k)) // a sum that changes nothing
		}
		if diag {
			t := diagT(c.slice(r, vInt))
			if c.Bool() {
				return c.build(t, rDiag), "Diag"
			}
			return c.anyMat(t)
		}
		return c.anyMat(c.table(r, k, vInt))
	}
	n := 1
	if c.Chance(0.35) {
		n = 2
	}
	op := c.Intn(30)
	hs := []*holder{c.hM(na, a)}
	whats := ""
	for rep := 0; rep < n; rep++ {
		if rep > 0 && c.Chance(0.3) {
			op = c.Intn(30)
		}
		if rep > 0 {
			c.Count("second operations")
		}
		what := ""
		resM := func(m lin.RealMatrix) { hs = append(hs, c.hM("the result", m)) }
		resV := func(v lin.RealVector) { hs = append(hs, c.hV("the result", v)) }
		resS := func(s []float64) { hs = append(hs, c.hS("the result", s)) }
		i, j := c.Intn(r), c.Intn(k)
		argM := func(m lin.RealMatrix, n string) lin.RealMatrix { hs = append(hs, c.hM("argument "+n, m)); return m }
		argV := func(x []float64) lin.RealVector {
			v, n := c.anyVec(x)
			hs = append(hs, c.hV("argument "+n, v))
			return v
		}
		argS := func(x []float64) []float64 { hs = append(hs, c.hS("argument slice", x)); return x }
		r0, r1, c0, c1 := c.rng(r, k)
		if diag {
			c0, c1 = r0, r1
		}
		switch op {
		case 0:
			what = "Copy"
			resM(a.Copy())
		case 1:
			what = "Add"
			b, n := like()
			resM(a.Add(argM(b, n)))
		case 2:
			what = "Subtract"
			b, n := like()
			resM(a.Subtract(argM(b, n)))
		case 3:
			what = "ScalarAdd"
			resM(a.ScalarAdd(0))
		case 4:
			what = "ScalarMultiply"
			resM(a.ScalarMultiply(pick(c.Rng, 1.0, 2)))
		case 5, 6:
			what = "Multiply"
			tb := c.table(k, c.Range(1, 5), vInt)
			if c.Bool() && k <= 110 {
				tb = ident(k)
			}
			b, n := c.anyMat(tb)
			resM(a.Multiply(argM(b, n)))
		case 7:
			what = "PreMultiplyMatrix"
			tb := c.table(c.Range(1, 5), r, vInt)
			if c.Bool() && r <= 110 {
				tb = ident(r)
			}
			b, n := c.anyMat(tb)
			resM(a.PreMultiplyMatrix(argM(b, n)))
		case 8, 9:
			what = "SubMatrix"
			if c.Chance(0.4) {
				r0, r1, c0, c1 = 0, r-1, 0, k-1
			}
			resM(a.SubMatrix(r0, r1, c0, c1))
		case 10:
			what = "Transpose"
			resM(a.Transpose())
		case 11:
			if !diag || r == 1 {
				what = "RowMatrixAt"
				resM(a.RowMatrixAt(i))
			}
		case 12:
			if !diag || r == 1 {
				what = "ColumnMatrixAt"
				resM(a.ColumnMatrixAt(j))
			}
		case 13:
			what = "RowVectorAt"
			resV(a.RowVectorAt(i))
		case 14:
			what = "ColumnVectorAt"
			resV(a.ColumnVectorAt(j))
		case 15:
			what = "RowAt"
			resS(a.RowAt(i))
		case 16:
			what = "ColumnAt"
			resS(a.ColumnAt(j))
		case 17:
			what = "Data"
			hs = append(hs, c.hSS("the result", a.Data()))
		case 18:
			what = "Operate"
			resS(a.Operate(argS(c.slice(k, vInt))))
		case 19:
			what = "PreMultiply"
			resS(a.PreMultiply(argS(c.slice(r, vInt))))
		case 20:
			what = "OperateVector"
			resV(a.OperateVector(argV(c.slice(k, vInt))))
		case 21:
			what = "PreMultiplyVector"
			resV(a.PreMultiplyVector(argV(c.slice(r, vInt))))
		case 22:
			what = "SubMatrix by selection"
			resM(lin.SubMatrix(a, c.selection(r), c.selection(k)))
		case 23:
			if r == k {
				p := c.Intn(4)
				what = fmt.Sprintf("Power %d", p)
				resM(lin.Power(a, p))
			}
		case 24:
			what = "CopySubMatrix"
			dst := make([][]float64, r1-r0+1)
			for q := range dst {
				dst[q] = make([]float64, c1-c0+1)
			}
			lin.CopySubMatrix(a, r0, r1, c0, c1, dst)
			hs = append(hs, c.hSS("the destination", dst))
		case 25:
			what = "norms, trace, equality and IsSquare"
			b, nb := like()
			argM(b, nb)
			lin.MatLInfNorm(a)
			lin.MatFrobeniusNorm(a)
			a.Equals(b)
			lin.IsSquare(a)
			if r == k {
				a.Trace()
			}
		case 26:
			what = "OuterProduct"
			resM(lin.OuterProduct(argV(c.slice(r, vInt)), argV(c.slice(k, vInt))))
		default:
			what = "reads"
			c.readSome(a)
		}
		if what == "" {
			what = "Copy"
			resM(a.Copy())
		}
		c.Notef("%s.%s %dx%d", na, what, r, k)
		c.Count("op " + what)
		// ha and the arguments recorded their content before the call
		for _, h := range hs {
			h.check("after " + na + "." + what)
		}
		whats += " " + what
	}
	c.independent(na+whats, hs)
}

func (c *Ctx) readSome(a lin.RealMatrix) {
	a.RowAt(0)
	a.ColumnAt(0)
	a.Data()
	a.Copy()
	a.RowVectorAt(0)
}

// m06fresh: what a constructor or factory makes is the caller's alone, and does
// not show in what it makes next.
func m06fresh(c *Ctx) {
	r, k := c.Range(1, 9), c.Range(1, 9)
	if c.Chance(0.15) {
		r, k = pick(c.Rng, 52, 53, 64, 65, 70, 104), pick(c.Rng, 1, 52, 53, 64, 65)
	}
	if c.Chance(0.3) {
		k = r
	}
	kind := c.kind(vInt, vUnique)
	if c.Chance(0.3) {
		kind = vInt
	}
	t := c.table(r, k, kind)
	d := c.slice(r, kind)
	sq := c.table(r, r, vInt)
	if c.Chance(0.3) {
		sq = ident(r)
	}
	if c.Chance(0.2) {
		for i := range d {
			d[i] = float64(c.Intn(2))
		}
	}
	a, na := c.anyMat(sq)
	v, w := c.vec(d), c.vec(c.slice(k, vInt))
	p := pick(c.Rng, 0, 1, c.Float())
	must := func(m lin.RealMatrix, err error) interface{} { c.must("constructor", err); return m }
	mustV := func(m lin.RealVector, err error) interface{} { c.must("constructor", err); return m }
	src, flat := t.slices, func() []float64 { return append([]float64{}, d...) }
	type maker struct {
		name string
		f    func() interface{}
	}
	mk := pick(c.Rng,
		maker{"NewRealIdentityMatrix", func() interface{} { return must(lin.NewRealIdentityMatrix(r)) }},
		maker{"NewRealIdentityMatrix", func() interface{} { return must(lin.NewRealIdentityMatrix(k)) }},
		maker{"Power 0", func() interface{} { return lin.Power(a, 0) }},
		maker{"Power 1", func() interface{} { return lin.Power(a, 1) }},
		maker{"NewRealMatrixWithDimension", func() interface{} { return must(lin.NewRealMatrixWithDimension(r, k)) }},
		maker{"NewArray2DRowRealMatrix", func() interface{} { return must(lin.NewArray2DRowRealMatrix(r, k)) }},
		maker{"NewBlockRealMatrix", func() interface{} { return must(lin.NewBlockRealMatrix(r, k)) }},
		maker{"NewDiagonalMatrixWithDimension", func() interface{} { return must(lin.NewDiagonalMatrixWithDimension(r)) }},
		maker{"NewRealMatrixWithDiagonal", func() interface{} { return must(lin.NewRealMatrixWithDiagonal(flat())) }},
		maker{"NewRealDiagonalMatrix", func() interface{} { return must(lin.NewRealDiagonalMatrix(d)) }},
		maker{"NewRealMatrixFromSlices", func() interface{} { return must(lin.NewRealMatrixFromSlices(src())) }},
		maker{"NewArray2DRowRealMatrixFromSlices", func() interface{} { return must(lin.NewArray2DRowRealMatrixFromSlices(src(), true)) }},
		maker{"NewArray2DRowRealMatrixFromSlice", func() interface{} { return must(lin.NewArray2DRowRealMatrixFromSlice(d)) }},
		maker{"NewBlockRealMatrixFromSlices", func() interface{} { return must(lin.NewBlockRealMatrixFromSlices(src())) }},
		maker{"OuterProduct", func() interface{} { return lin.OuterProduct(v, w) }},
		maker{"NewSizedArrayRealVector", func() interface{} { return mustV(lin.NewSizedArrayRealVector(r)) }},
		maker{"NewSizedArrayRealVectorWithPreset", func() interface{} { return mustV(lin.NewSizedArrayRealVectorWithPreset(r, p)) }},
		maker{"NewRealVector", func() interface{} { return mustV(lin.NewRealVector(d)) }},
		maker{"NewArrayRealVectorFromSlice", func() interface{} { return mustV(lin.NewArrayRealVectorFromSlice(d)) }},
		maker{"NewArrayRealVectorCopy", func() interface{} { return mustV(lin.NewArrayRealVectorCopy(v)) }},
		maker{"AppendVector", func() interface{} { return v.AppendVector(w) }},
		maker{"ToArray", func() interface{} { return v.ToArray() }},
	)
	c.Notef("%s %dx%d (%s)", mk.name, r, k, na)
	var hs []*holder
	var first []float64
	flatten := func(x interface{}) []float64 {
		switch x := x.(type) {
		case lin.RealMatrix:
			return flatM(x)
		case lin.RealVector:
			return readV(x)
		}
		return append([]float64{}, x.([]float64)...)
	}
	for q := 0; q < 4; q++ {
		x := mk.f()
		got := flatten(x)
		if q == 0 {
			first = got
		}
		c.Check(sameBits(got, first), "%s, call %d: %s", mk.name, q+1, firstDiff(got, first))
		var h *holder
		name := fmt.Sprintf("result %d", q+1)
		switch x := x.(type) {
		case lin.RealMatrix:
			h = c.hM(name, x)
		case lin.RealVector:
			h = c.hV(name, x)
		case []float64:
			h = c.hS(name, x)
		}
		hs = append(hs, h)
		if c.Bool() {
			h.hit()
		}
	}
	c.EqM("the matrix", a, sq)
	c.EqV("the vector", v, d)
	c.independent(mk.name, hs)
	c.Count("made " + mk.name)
	c.Count("factories")
}

// m06ref: what is documented to wrap the caller's array, or to expose its own,
// does: a write through either side shows in the other.
func m06ref(c *Ctx) {
	r, k := c.smallDims()
	i, j := c.Intn(r), c.Intn(k)
	x, y := 1e6+c.Float(), 2e6+c.Float()
	switch c.Intn(3) {
	case 0:
		t := c.table(r, k, vUnique)
		s := t.slices()
		m, err := lin.NewArray2DRowRealMatrixFromSlices(s, false)
		c.must("NewArray2DRowRealMatrixFromSlices by reference", err)
		c.Notef("Array2D %dx%d by reference", r, k)
		s[i][j] = x
		t.set(i, j, x)
		c.EqM("matrix by reference after a write to its array", m, t)
		m.SetEntry(i, j, y)
		t.set(i, j, y)
		c.EqT("array after a write to the matrix by reference", fromSlices(s), t)
		cp, err := lin.NewArray2DRowRealMatrixFromSlices(s, true)
		c.must("NewArray2DRowRealMatrixFromSlices by copy", err)
		cp.DataRef()[i][j] = x
		u := t.clone()
		u.set(i, j, x)
		c.EqM("matrix after a write through DataRef", cp, u)
		c.EqT("array after a write to DataRef of a copy", fromSlices(s), t)
	case 1:
		t := c.slice(k, vUnique)
		s := append([]float64{}, t...)
		v, err := lin.NewArrayRealVector(s, false)
		c.must("NewArrayRealVector by reference", err)
		c.Notef("vector %d by reference", k)
		s[j] = x
		t[j] = x
		c.EqV("vector by reference after a write to its array", v, t)
		v.SetEntry(j, y)
		t[j] = y
		c.EqS("array after a write to the vector by reference", s, t)
		cp, err := lin.NewArrayRealVector(s, true)
		c.must("NewArrayRealVector by copy", err)
		cp.DataRef()[j] = x
		u := append([]float64{}, t...)
		u[j] = x
		c.EqV("vector after a write through DataRef", cp, u)
		c.EqS("array after a write to DataRef of a copy", s, t)
	case 2:
		t := c.slice(k, vUnique)
		s := append([]float64{}, t...)
		m, err := lin.NewDiagonalMatrix(s, false)
		c.must("NewDiagonalMatrix by reference", err)
		c.Notef("diagonal %d by reference", k)
		s[j] = x
		t[j] = x
		c.EqM("diagonal matrix by reference after a write to its array", m, diagT(t))
		m.SetEntry(j, j, y)
		t[j] = y
		c.EqS("array after a write to the diagonal matrix by reference", s, t)
		cp, err := lin.NewDiagonalMatrix(s, true)
		c.must("NewDiagonalMatrix by copy", err)
		cp.DataRef()[j] = x
		u := append([]float64{}, t...)
		u[j] = x
		c.EqM("diagonal matrix after a write through DataRef", cp, diagT(u))
		c.EqS("array after a write to DataRef of a copy", s, t)
	}
	c.FPi(i*64 + j)
	c.Count("references")
}

// m06set: setters copy their source, copying constructors copy theirs.
func m06set(c *Ctx) {
	r, k := c.smallDims()
	if c.Chance(0.2) {
		r, k = pick(c.Rng, 52, 53, 60), pick(c.Rng, 1, 52, 53)
	}
	t := c.table(r, k, vUnique)
	rp := denseReps[c.Intn(len(denseReps))]
	m := c.build(t, rp)
	name := rName[rp]
	diag := false
	if c.Chance(0.15) {
		t = diagT(c.slice(r, vUnique))
		k = r
		m, name, diag = c.build(t, rDiag), "Diag", true
	}
	i, j := c.Intn(r), c.Intn(k)
	var hs []*holder
	what := ""
	row, col := c.slice(k, vInt), c.slice(r, vInt)
	if diag {
		for q := range row {
			if q != i {
				row[q] = 0
			}
			if q != j {
				col[q] = 0
			}
		}
	}
	switch op := c.Intn(10); op {
	case 0:
		what = "SetRow"
		hs = append(hs, c.hS("the source", row))
		m.SetRow(i, row)
	case 1:
		what = "SetColumn"
		hs = append(hs, c.hS("the source", col))
		m.SetColumn(j, col)
	case 2:
		what = "SetRowVector"
		v, n := c.anyVec(row)
		hs = append(hs, c.hV("the source "+n, v))
		m.SetRowVector(i, v)
	case 3:
		what = "SetColumnVector"
		v, n := c.anyVec(col)
		hs = append(hs, c.hV("the source "+n, v))
		m.SetColumnVector(j, v)
	case 4:
		what = "SetRowMatrix"
		v, n := c.anyMat(&T{1, k, row})
		hs = append(hs, c.hM("the source "+n, v))
		m.SetRowMatrix(i, v)
	case 5:
		what = "SetColumnMatrix"
		v, n := c.anyMat(&T{r, 1, col})
		hs = append(hs, c.hM("the source "+n, v))
		m.SetColumnMatrix(j, v)
	case 6, 7:
		what = "SetSubMatrix"
		var s [][]float64
		a, b := c.Intn(r), c.Intn(k)
		if c.Chance(0.3) {
			a, b = 0, 0
		}
		if diag {
			b = a
			s = diagT(c.slice(r-a, vUnique)).slices()
		} else {
			s = c.table(c.Range(1, r-a), c.Range(1, k-b), vInt).slices()
			if c.Chance(0.3) {
				s = c.table(r-a, k-b, vInt).slices()
			}
		}
		hs = append(hs, c.hSS("the source", s))
		m.SetSubMatrix(s, a, b)
	default: // constructors
		s := t.slices()
		d := make([]float64, r)
		for q := range d {
			d[q] = float64(q + 1)
		}
		var err error
		var x lin.RealMatrix
		switch c.Intn(8) {
		case 0:
			what = "NewRealMatrixFromSlices"
			x, err = lin.NewRealMatrixFromSlices(s)
			hs = append(hs, c.hSS("the source", s))
		case 1:
			what = "NewArray2DRowRealMatrixFromSlices copy"
			x, err = lin.NewArray2DRowRealMatrixFromSlices(s, true)
			hs = append(hs, c.hSS("the source", s))
		case 2:
			what = "NewBlockRealMatrixFromSlices"
			x, err = lin.NewBlockRealMatrixFromSlices(s)
			hs = append(hs, c.hSS("the source", s))
		case 3:
			what = "NewArray2DRowRealMatrixFromSlice"
			x, err = lin.NewArray2DRowRealMatrixFromSlice(d)
			hs = append(hs, c.hS("the source", d))
		case 4:
			what = "NewRealMatrixWithDiagonal"
			x, err = lin.NewRealMatrixWithDiagonal(d)
			hs = append(hs, c.hS("the source", d))
		case 5:
			what = "NewRealDiagonalMatrix"
			x, err = lin.NewRealDiagonalMatrix(d)
			hs = append(hs, c.hS("the source", d))
		case 6:
			what = "NewDiagonalMatrix copy"
			x, err = lin.NewDiagonalMatrix(d, true)
			hs = append(hs, c.hS("the source", d))
		case 7:
			what = "NewDiagonalMatrixFromSlice"
			x, err = lin.NewDiagonalMatrixFromSlice(d)
			hs = append(hs, c.hS("the source", d))
		}
		c.must(what, err)
		m = x
	}
	c.Notef("%s.%s %dx%d", name, what, r, k)
	c.Count("op " + what)
	for _, h := range hs {
		h.check("after " + what)
	}
	hs = append(hs, c.hM("the matrix", m))
	c.independent(what, hs)
}

// m06vec: the same for vectors.
func m06vec(c *Ctx) {
	n := c.Range(1, 12)
	x, y := c.slice(n, c.kind(vInt, vReal)), c.slice(n, c.kind(vInt, vReal))
	x[0], y[0] = 3, 2
	op := c.Intn(22)
	if c.Chance(0.3) {
		// an operand that leaves the receiver's values as they are
		e := 1.0
		if op == 1 || op == 2 || op == 21 {
			e = 0
		}
		for i := range y {
			y[i] = e
		}
		c.Count("neutral vector operands")
	}
	v := c.vec(x)
	w, nw := c.anyVec(y)
	hv, hw := c.hV("the receiver", v), c.hV("the argument "+nw, w)
	hs := []*holder{hv, hw}
	what := ""
	resV := func(r lin.RealVector) { hs = append(hs, c.hV("the result", r)) }
	changes := false
	times := 1
	if op < 19 && c.Chance(0.35) {
		times = 2
		c.Count("second operations")
	}
	for ; times > 0; times-- {
		switch op {
		case 0:
			what = "Copy"
			resV(v.Copy())
		case 1:
			what = "Add"
			resV(v.Add(w))
		case 2:
			what = "Subtract"
			resV(v.Subtract(w))
		case 3:
			what = "EBEMultiply"
			resV(v.EBEMultiply(w))
		case 4:
			what = "EBEDivide"
			resV(v.EBEDivide(w))
		case 5:
			what = "AppendVector"
			switch c.Intn(4) {
			case 0:
				what = "AppendVector of an empty vector"
				e, ne := c.anyVec(nil)
				hs = append(hs, c.hV("the empty argument "+ne, e))
				resV(v.AppendVector(e))
			case 1:
				what = "AppendVector to an empty vector"
				resV(c.vec(nil).AppendVector(w))
			default:
				resV(v.AppendVector(w))
			}
		case 6:
			what = "Append"
			resV(v.Append(5))
		case 7, 8:
			what = "SubVector"
			i := c.Intn(n)
			if c.Chance(0.4) {
				i = 0
			}
			resV(v.SubVector(i, c.Range(1, n-i)))
		case 9:
			what = "ToArray"
			hs = append(hs, c.hS("the result", v.ToArray()))
		case 10:
			what = "Projection"
			resV(lin.Projection(v, w))
		case 11:
			what = "UnitVector"
			resV(lin.UnitVector(v))
		case 12:
			what = "UnitVector of the argument"
			resV(lin.UnitVector(w))
		case 13:
			what = "OuterProduct"
			m := lin.OuterProduct(v, w)
			hs = append(hs, c.hM("the result", m))
		case 14:
			what = "norms, distances, extrema and equality"
			lin.VecNorm(w)
			lin.VecL1Norm(w)
			lin.VecLInfNorm(w)
			lin.VecDistance(v, w)
			lin.VecL1Distance(v, w)
			lin.VecLInfDistance(v, w)
			lin.VecDotProduct(v, w)
			lin.VecCosine(v, w)
			lin.MinIndex(w)
			lin.MaxValue(w)
			v.Equals(w)
			v.IsNaN()
			v.IsInf()
		case 15:
			what = "NewArrayRealVectorCopy"
			r, err := lin.NewArrayRealVectorCopy(w)
			c.must(what, err)
			resV(r)
		case 16:
			what = "NewArrayRealVectorFromTwoRealVector"
			r, err := lin.NewArrayRealVectorFromTwoRealVector(v, w)
			c.must(what, err)
			resV(r)
		case 17:
			what = "NewArrayRealVectorFromTwoArrayRealVector"
			r, err := lin.NewArrayRealVectorFromTwoArrayRealVector(v, v)
			c.must(what, err)
			resV(r)
		case 18:
			what = "NewRealVector"
			s := append([]float64{}, x...)
			r, err := lin.NewRealVector(s)
			c.must(what, err)
			hs = append(hs, c.hS("the source", s))
			resV(r)
			s2 := append([]float64{}, x...)
			r2, err := lin.NewArrayRealVector(s2, true)
			c.must(what, err)
			hs = append(hs, c.hS("the source 2", s2), c.hV("the result 2", r2))
			s3 := append([]float64{}, x...)
			r3, err := lin.NewArrayRealVectorFromSlice(s3)
			c.must(what, err)
			hs = append(hs, c.hS("the source 3", s3), c.hV("the result 3", r3))
		case 19:
			what = "CopyFrom"
			changes = true
			v.CopyFrom(w)
		case 20:
			what = "SetSubVector"
			changes = true
			v.SetSubVector(0, w)
		case 21:
			what = "Combine"
			changes = true
			v.Combine(0, 1, w)
		}
	}
	c.Notef("%s dim %d, argument %s", what, n, nw)
	c.Count("op " + what)
	for _, h := range hs {
		if changes && h == hv {
			continue
		}
		h.check("after " + what)
	}
	if f, ok := w.(*FVec); ok {
		c.Check(f.writes == 0, "%s wrote to its foreign argument", what)
	}
	if changes {
		hs[0] = c.hV("the receiver", v)
	}
	c.independent(what, hs)
}

// ================================================================ M07 refusals

type noVisit struct{ n int }

func (v *noVisit) Start(a, b, c, d, e, f int) { v.n++ }
func (v *noVisit) End() float64               { v.n++; return 0 }

type noVisitP struct{ noVisit }

func (v *noVisitP) Visit(r, c int, x float64) { v.n++ }

type noVisitC struct{ noVisit }

func (v *noVisitC) Visit(r, c int, x float64) float64 { v.n++; return 12345 }

type noVVisit struct{ n int }

func (v *noVVisit) Start(a, b, c int) { v.n++ }
func (v *noVVisit) End() float64      { v.n++; return 0 }

type noVVisitP struct{ noVVisit }

func (v *noVVisitP) Visit(i int, x float64) { v.n++ }

type noVVisitC struct{ noVVisit }

func (v *noVVisitC) Visit(i int, x float64) float64 { v.n++; return 12345 }

func (c *Ctx) badIdx(n int) int {
	return pick(c.Rng, -1, n, n+1, -n-1, n+52, -52, 1<<20, math.MaxInt32, math.MinInt32)
}

func (c *Ctx) otherLen(n int) int {
	for {
		k := c.Range(0, n+3)
		if k != n {
			return k
		}
	}
}

// badRange returns a sub-matrix range with exactly one thing wrong.
func (c *Ctx) badRange(r, k int) (int, int, int, int, string) {
	a, b, d, e := c.rng(r, k)
	for try := 0; ; try++ {
		switch c.Intn(6) {
		case 0:
			return c.badIdx(r), b, d, e, "start row"
		case 1:
			return a, c.badIdx(r), d, e, "end row"
		case 2:
			return a, b, c.badIdx(k), e, "start column"
		case 3:
			return a, b, d, c.badIdx(k), "end column"
		case 4:
			if r > 1 {
				x := c.Range(0, r-2)
				return c.Range(x+1, r-1), x, d, e, "reversed rows"
			}
		case 5:
			if k > 1 {
				x := c.Range(0, k-2)
				return a, b, c.Range(x+1, k-1), x, "reversed columns"
			}
		}
	}
}

func ragged(t *T, c *Ctx) [][]float64 {
	s := t.slices()
	if len(s) == 1 {
		s = append(s, append([]float64{}, s[0]...))
	}
	i := c.Range(1, len(s)-1)
	switch c.Intn(4) {
	case 0:
		s[i] = append(s[i], 1)
	case 1:
		s[i] = s[i][:len(s[i])-1]
	case 2:
		s[i] = nil
	case 3:
		s[i] = []float64{}
	}
	return s
}

func m07(c *Ctx) {
	r, k := c.smallDims()
	if c.Chance(0.15) {
		for {
			r, k = c.dims()
			if r*k <= 4200 {
				break
			}
		}
	}
	t := c.table(r, k, vUnique)
	rp := denseReps[c.Intn(len(denseReps))]
	if c.Chance(0.2) {
		if r > 60 {
			r = 60
		}
		t, rp, k = diagT(c.slice(r, vUnique)), rDiag, r
	}
	m := c.build(t, rp)
	name := rName[rp]
	for n := 0; n < 6; n++ {
		i, j := c.Intn(r), c.Intn(k)
		bi, bj := c.badIdx(r), c.badIdx(k)
		if c.Bool() {
			// one bad index at a time, sometimes both
			if c.Bool() {
				bi = i
			} else {
				bj = j
			}
		}
		var f func()
		what := ""
		var hs []*holder
		pv, cv := &noVisitP{}, &noVisitC{}
		switch op := c.Intn(34); op {
		case 0:
			what, f = fmt.Sprintf("At(%d,%d)", bi, bj), func() { m.At(bi, bj) }
		case 1:
			what, f = fmt.Sprintf("SetEntry(%d,%d)", bi, bj), func() { m.SetEntry(bi, bj, 0) }
		case 2:
			what, f = fmt.Sprintf("AddToEntry(%d,%d)", bi, bj), func() { m.AddToEntry(bi, bj, 0) }
		case 3:
			what, f = fmt.Sprintf("MultiplyEntry(%d,%d)", bi, bj), func() { m.MultiplyEntry(bi, bj, 3) }
		case 4:
			b := c.badIdx(r)
			what = fmt.Sprintf("row read %d", b)
			f = pick(c.Rng, func() { m.RowAt(b) }, func() { m.RowVectorAt(b) }, func() { m.RowMatrixAt(b) })
		case 5:
			b := c.badIdx(k)
			what = fmt.Sprintf("column read %d", b)
			f = pick(c.Rng, func() { m.ColumnAt(b) }, func() { m.ColumnVectorAt(b) }, func() { m.ColumnMatrixAt(b) })
		case 6, 7:
			b, l := c.badIdx(r), k
			if op == 7 {
				b, l = i, c.otherLen(k)
			}
			s := make([]float64, l)
			if l == 0 && c.Bool() {
				s = nil
			}
			v, _ := c.anyVec(s)
			what = fmt.Sprintf("row set %d with %d entries", b, l)
			f = pick(c.Rng, func() { m.SetRow(b, s) }, func() { m.SetRowVector(b, v) }, func() {
				if l == 0 {
					m.SetRow(b, s)
					return
				}
				x, _ := c.anyMat(&T{1, l, s})
				m.SetRowMatrix(b, x)
			})
			hs = append(hs, c.hS("source", s))
		case 8, 9:
			b, l := c.badIdx(k), r
			if op == 9 {
				b, l = j, c.otherLen(r)
			}
			s := make([]float64, l)
			v, _ := c.anyVec(s)
			what = fmt.Sprintf("column set %d with %d entries", b, l)
			f = pick(c.Rng, func() { m.SetColumn(b, s) }, func() { m.SetColumnVector(b, v) }, func() {
				if l == 0 {
					m.SetColumn(b, s)
					return
				}
				x, _ := c.anyMat(&T{l, 1, s})
				m.SetColumnMatrix(b, x)
			})
			hs = append(hs, c.hS("source", s))
		case 10:
			x, _ := c.anyMat(newT(2, k))
			what, f = "SetRowMatrix with two rows", func() { m.SetRowMatrix(i, x) }
		case 11:
			x, _ := c.anyMat(newT(r, 2))
			what, f = "SetColumnMatrix with two columns", func() { m.SetColumnMatrix(j, x) }
		case 12:
			a, b, d, e, w := c.badRange(r, k)
			what, f = fmt.Sprintf("SubMatrix(%d,%d,%d,%d) bad %s", a, b, d, e, w), func() { m.SubMatrix(a, b, d, e) }
		case 13, 14, 15:
			a, b, d, e, w := c.badRange(r, k)
			o := c.Intn(3)
			upd := c.Bool()
			what = fmt.Sprintf("walk %s(%d,%d,%d,%d) update=%v bad %s", orderName[o], a, b, d, e, upd, w)
			f = func() {
				if upd {
					walkC(m, o, true, cv, a, b, d, e)
				} else {
					walkP(m, o, true, pv, a, b, d, e)
				}
			}
		case 16:
			a, b, d, e, w := c.badRange(r, k)
			dst := newT(r+1, k+1).slices()
			what, f = fmt.Sprintf("CopySubMatrix(%d,%d,%d,%d) bad %s", a, b, d, e, w), func() { lin.CopySubMatrix(m, a, b, d, e, dst) }
			hs = append(hs, c.hSS("destination", dst))
		case 17:
			a, b, d, e := c.rng(r, k)
			w := t.part(a, b, d, e)
			var dst [][]float64
			switch c.Intn(4) {
			case 0:
				dst = nil
			case 1:
				if w.r > 1 {
					dst = newT(w.r-1, w.c).slices()
				}
			case 2:
				if w.c > 1 {
					dst = newT(w.r, w.c-1).slices()
				} else {
					dst = make([][]float64, w.r)
				}
			case 3:
				dst = newT(w.r, w.c).slices()
				dst[w.r-1] = dst[w.r-1][:w.c-1]
			}
			what = "copy into a destination that is too small"
			f = func() { lin.CopySubMatrix(m, a, b, d, e, dst) }
			if c.Bool() {
				var sr, sc []int
				for q := a; q <= b; q++ {
					sr = append(sr, q)
				}
				for q := d; q <= e; q++ {
					sc = append(sc, q)
				}
				f = func() { lin.CopySubMatrixFromIndices(m, sr, sc, dst) }
			}
		case 18:
			sr, sc := c.selection(r), c.selection(k)
			switch c.Intn(6) {
			case 0:
				sr = nil
			case 1:
				sc = nil
			case 2:
				sr = []int{}
			case 3:
				sc = []int{}
			case 4:
				sr[c.Intn(len(sr))] = c.badIdx(r)
			case 5:
				sc[c.Intn(len(sc))] = c.badIdx(k)
			}
			dst := newT(100, 100).slices()
			what = fmt.Sprintf("selection %v %v", head(sr), head(sc))
			f = pick(c.Rng, func() { lin.SubMatrix(m, sr, sc) }, func() { lin.CopySubMatrixFromIndices(m, sr, sc, dst) })
		case 19, 20:
			var s [][]float64
			a, b := c.Intn(r), c.Intn(k)
			sub := newT(c.Range(1, r-a), c.Range(1, k-b))
			if rp == rDiag {
				b = a
				q := c.Range(1, r-a)
				sub = newT(q, q)
			}
			s = sub.slices()
			switch c.Intn(9) {
			case 0:
				s = nil
			case 1:
				s = [][]float64{}
			case 2:
				s = [][]float64{{}}
			case 3:
				s = [][]float64{nil}
			case 4:
				s = ragged(sub, c)
				a, b = 0, 0
			case 5:
				a = c.badIdx(r)
			case 6:
				b = c.badIdx(k)
			case 7:
				s = newT(r-a+1, 1).slices()
			case 8:
				s = newT(1, k-b+1).slices()
			}
			what = fmt.Sprintf("SetSubMatrix(%d rows at %d,%d)", len(s), a, b)
			f = func() { m.SetSubMatrix(s, a, b) }
		case 21, 22:
			x, nx := c.anyMat(newT(c.otherLen(r)+1, k))
			if x.RowDimension() == r {
				x, nx = c.anyMat(newT(r+1, k))
			}
			if c.Bool() {
				x, nx = c.anyMat(newT(r, k+1))
			}
			if r != k && c.Chance(0.3) {
				x, nx = c.anyMat(newT(k, r))
			}
			what = fmt.Sprintf("sum with %s %dx%d", nx, x.RowDimension(), x.ColumnDimension())
			f = pick(c.Rng, func() { m.Add(x) }, func() { m.Subtract(x) })
			hs = append(hs, c.hM("operand", x))
		case 23, 24:
			l := c.otherLen(k)
			if l == 0 {
				l = k + 1
			}
			x, nx := c.anyMat(newT(l, c.Range(1, 4)))
			what, f = fmt.Sprintf("product with %s of %d rows", nx, l), func() { m.Multiply(x) }
			if c.Bool() {
				l = c.otherLen(r)
				if l == 0 {
					l = r + 1
				}
				x, nx = c.anyMat(newT(c.Range(1, 4), l))
				if nx == "Foreign" {
					x = c.build(newT(2, l), rBlock)
				}
				what, f = fmt.Sprintf("pre-product with %s of %d columns", nx, l), func() { m.PreMultiplyMatrix(x) }
			}
			hs = append(hs, c.hM("operand", x))
		case 25, 26:
			s := make([]float64, c.otherLen(k))
			v, nv := c.anyVec(s)
			what = fmt.Sprintf("operate on %s of %d entries", nv, len(s))
			f = pick(c.Rng, func() { m.Operate(s) }, func() { m.OperateVector(v) })
		case 27, 28:
			s := make([]float64, c.otherLen(r))
			v, nv := c.anyVec(s)
			what = fmt.Sprintf("pre-multiply %s of %d entries", nv, len(s))
			f = pick(c.Rng, func() { m.PreMultiply(s) }, func() { m.PreMultiplyVector(v) })
		case 29:
			if r != k {
				what, f = "Trace of a non-square matrix", func() { m.Trace() }
			}
		case 30:
			if r != k {
				p := c.Intn(5)
				what, f = fmt.Sprintf("Power %d of a non-square matrix", p), func() { lin.Power(m, p) }
			}
		case 31:
			p := pick(c.Rng, -1, -2, -100)
			what, f = fmt.Sprintf("Power %d", p), func() { lin.Power(m, p) }
		case 32:
			if rp == rDiag && r > 1 {
				for i == j {
					j = c.Intn(k)
				}
				v := pick(c.Rng, 1.0, -2.5, 1e-300, math.NaN(), math.Inf(1))
				what = fmt.Sprintf("off-diagonal update (%d,%d) with %v", i, j, v)
				f = pick(c.Rng, func() { m.SetEntry(i, j, v) }, func() { m.AddToEntry(i, j, v) })
			}
		case 33:
			x := c.build(newT(k, r), rForeign)
			if r != k {
				what, f = "sum with a foreign matrix of transposed shape", func() { m.Add(x) }
			}
		}
		if f == nil {
			continue
		}
		c.Notef("%s %dx%d: %s", name, r, k, what)
		c.RefusedP(name+" "+fmt.Sprintf("%dx%d ", r, k)+what, f)
		c.Check(pv.n == 0 && cv.n == 0, "%s: the visitor was called although the range is refused", what)
		c.EqM(name+" after the refused "+what, m, t)
		for _, h := range hs {
			h.check("after the refused " + what)
		}
	}
}

func m07ctor(c *Ctx) {
	type cs struct {
		n string
		f func() error
	}
	neg := -c.Range(1, 60)
	pos := c.Range(1, 60)
	t := c.table(c.Range(1, 5), c.Range(1, 5), vInt)
	rg := ragged(t, c)
	e := func(_ interface{}, err error) error { return err }
	br, bc := c.Range(1, 120), c.Range(1, 120)
	bd := blockLayout(newT(br, bc))
	switch c.Intn(4) {
	case 0:
		bd = bd[:len(bd)-1]
	case 1:
		bd = append(bd, []float64{1})
	case 2:
		q := c.Intn(len(bd))
		bd[q] = bd[q][:len(bd[q])-1]
	case 3:
		q := c.Intn(len(bd))
		bd[q] = append(bd[q], 1)
	}
	all := []cs{
		{"A2D 0 rows", func() error { return e(lin.NewArray2DRowRealMatrix(0, pos)) }},
		{"A2D 0 columns", func() error { return e(lin.NewArray2DRowRealMatrix(pos, 0)) }},
		{"A2D negative rows", func() error { return e(lin.NewArray2DRowRealMatrix(neg, pos)) }},
		{"A2D negative columns", func() error { return e(lin.NewArray2DRowRealMatrix(pos, neg)) }},
		{"Block 0 rows", func() error { return e(lin.NewBlockRealMatrix(0, pos)) }},
		{"Block 0 columns", func() error { return e(lin.NewBlockRealMatrix(pos, 0)) }},
		{"Block negative rows", func() error { return e(lin.NewBlockRealMatrix(neg, pos)) }},
		{"Block negative columns", func() error { return e(lin.NewBlockRealMatrix(pos, neg)) }},
		{"Block both negative", func() error { return e(lin.NewBlockRealMatrix(neg, neg)) }},
		{"factory 0 rows", func() error { return e(lin.NewRealMatrixWithDimension(0, pos)) }},
		{"factory negative", func() error { return e(lin.NewRealMatrixWithDimension(neg, pos)) }},
		{"factory both negative", func() error { return e(lin.NewRealMatrixWithDimension(neg*100, neg*100)) }},
		{"identity 0", func() error { return e(lin.NewRealIdentityMatrix(0)) }},
		{"identity negative", func() error { return e(lin.NewRealIdentityMatrix(neg)) }},
		{"diagonal 0", func() error { return e(lin.NewDiagonalMatrixWithDimension(0)) }},
		{"diagonal negative", func() error { return e(lin.NewDiagonalMatrixWithDimension(neg)) }},
		{"diagonal nil", func() error { return e(lin.NewDiagonalMatrix(nil, c.Bool())) }},
		{"diagonal nil slice", func() error { return e(lin.NewDiagonalMatrixFromSlice(nil)) }},
		{"real diagonal nil", func() error { return e(lin.NewRealDiagonalMatrix(nil)) }},
		{"with diagonal nil", func() error { return e(lin.NewRealMatrixWithDiagonal(nil)) }},
		{"A2D nil table", func() error { return e(lin.NewArray2DRowRealMatrixFromSlices(nil, c.Bool())) }},
		{"A2D empty table", func() error { return e(lin.NewArray2DRowRealMatrixFromSlices([][]float64{}, c.Bool())) }},
		{"A2D empty row", func() error { return e(lin.NewArray2DRowRealMatrixFromSlices([][]float64{{}}, c.Bool())) }},
		{"A2D nil row", func() error { return e(lin.NewArray2DRowRealMatrixFromSlices([][]float64{nil}, c.Bool())) }},
		{"A2D ragged", func() error { return e(lin.NewArray2DRowRealMatrixFromSlices(rg, c.Bool())) }},
		{"A2D nil column", func() error { return e(lin.NewArray2DRowRealMatrixFromSlice(nil)) }},
		{"A2D empty column", func() error { return e(lin.NewArray2DRowRealMatrixFromSlice([]float64{})) }},
		{"Block nil table", func() error { return e(lin.NewBlockRealMatrixFromSlices(nil)) }},
		{"Block empty table", func() error { return e(lin.NewBlockRealMatrixFromSlices([][]float64{})) }},
		{"Block empty row", func() error { return e(lin.NewBlockRealMatrixFromSlices([][]float64{{}})) }},
		{"Block ragged", func() error { return e(lin.NewBlockRealMatrixFromSlices(rg)) }},
		{"factory nil table", func() error { return e(lin.NewRealMatrixFromSlices(nil)) }},
		{"factory empty table", func() error { return e(lin.NewRealMatrixFromSlices([][]float64{})) }},
		{"factory nil row", func() error { return e(lin.NewRealMatrixFromSlices([][]float64{nil})) }},
		{"factory empty row", func() error { return e(lin.NewRealMatrixFromSlices([][]float64{{}})) }},
		{"factory ragged", func() error { return e(lin.NewRealMatrixFromSlices(rg)) }},
		{"block data of wrong shape", func() error { return e(lin.NewBlockRealMatrixFromBlockData(br, bc, bd)) }},
		{"vector negative", func() error { return e(lin.NewSizedArrayRealVector(neg)) }},
		{"preset vector negative", func() error { return e(lin.NewSizedArrayRealVectorWithPreset(neg, 1)) }},
		{"vector nil", func() error { return e(lin.NewRealVector(nil)) }},
		{"array vector nil", func() error { return e(lin.NewArrayRealVector(nil, c.Bool())) }},
		{"array vector nil slice", func() error { return e(lin.NewArrayRealVectorFromSlice(nil)) }},
		{"array vector copy nil", func() error { return e(lin.NewArrayRealVectorCopy(nil)) }},
		{"array vector two nil", func() error { return e(lin.NewArrayRealVectorFromTwoRealVector(nil, newFVec([]float64{1}))) }},
		{"array vector two nil second", func() error { return e(lin.NewArrayRealVectorFromTwoRealVector(newFVec([]float64{1}), nil)) }},
		{"array vector two array nil", func() error { return e(lin.NewArrayRealVectorFromTwoArrayRealVector(nil, nil)) }},
		{"outer product of an empty vector", func() error { lin.OuterProduct(newFVec(nil), newFVec([]float64{1})); return nil }},
		{"tridiagonal eigen nil", func() error { return e(lin.NewEigenDecompositionFromTridiagonal(nil, nil)) }},
		{"tridiagonal eigen short", func() error { return e(lin.NewEigenDecompositionFromTridiagonal([]float64{1, 2, 3}, []float64{1})) }},
	}
	x := all[c.Idx%len(all)]
	c.Notef("%s", x.n)
	c.FPi(c.Idx)
	c.Size(2)
	c.Refused(x.n, x.f)
}

// m07dec: decompositions and solvers.
func m07dec(c *Ctx) {
	if c.Bool() {
		r, k := c.smallDims()
		for r == k {
			r, k = c.smallDims()
		}
		t := c.table(r, k, vReal)
		m, n := c.anyMat(t)
		e := func(_ interface{}, err error) error { return err }
		names := []string{"LU", "LU threshold", "Cholesky", "Cholesky thresholds", "RectangularCholesky", "Eigen", "Hessenberg", "Schur", "TriDiagonal"}
		q := c.Intn(len(names))
		c.Notef("%s of a non-square %s %dx%d", names[q], n, r, k)
		c.Refused(names[q]+" of a non-square matrix", func() error {
			switch q {
			case 0:
				return e(lin.NewLUDecomposition(m))
			case 1:
				return e(lin.NewLUDecompositionWithThreshold(m, 1e-9))
			case 2:
				return e(lin.NewDefaultCholeskyDecomposition(m))
			case 3:
				return e(lin.NewCholeskyDecomposition(m, 1e-9, 1e-9))
			case 4:
				return e(lin.NewRectangularCholeskyDecomposition(m))
			case 5:
				return e(lin.NewEigenDecomposition(m))
			case 6:
				return e(lin.NewHessenbergTransformer(m))
			case 7:
				return e(lin.NewSchurTransformer(m))
			}
			return e(lin.NewTriDiagonalTransformer(m))
		})
		c.EqM("the refused matrix", m, t)
		return
	}
	n := c.Range(1, 7)
	r := n
	kind := solverKinds[c.Intn(len(solverKinds))]
	if kind == "QR" || kind == "RRQR" || kind == "SVD" {
		r = n + c.Intn(4)
	}
	t := c.wellCond(kind, r, n)
	s := c.solver(kind, c.mat(t))
	l := c.otherLen(r)
	if l == 0 {
		l = r + 1
	}
	b := make([]float64, l)
	v, nv := c.anyVec(b)
	c.Notef("%s solver of %dx%d with %d right-hand rows", kind, r, n, l)
	c.RefusedP(fmt.Sprintf("%s.SolveVector(%s of %d) for %d rows", kind, nv, l, r), func() { s.SolveVector(v) })
	bm, nb := c.anyMat(newT(l, c.Range(1, 3)))
	c.RefusedP(fmt.Sprintf("%s.SolveMatrix(%s of %d rows) for %d rows", kind, nb, l, r), func() { s.SolveMatrix(bm) })
	if kind == "Eigen" {
		ed, err := lin.NewEigenDecomposition(c.mat(t))
		c.must("eigen", err)
		bi := c.badIdx(n)
		c.RefusedP("RealEigenvalueAt", func() { ed.RealEigenvalueAt(bi) })
		c.RefusedP("ImagEigenvalue", func() { ed.ImagEigenvalue(bi) })
		c.RefusedP("EigenvectorAt", func() { ed.EigenvectorAt(bi) })
	}
	// the solver still works
	b = make([]float64, r)
	s.SolveVector(c.vec(b))
}

func m07vec(c *Ctx) {
	n := c.Range(1, 9)
	x := c.slice(n, vUnique)
	v := c.vec(x)
	for q := 0; q < 6; q++ {
		b := c.badIdx(n)
		i := c.Intn(n)
		l := c.otherLen(n)
		w, nw := c.anyVec(make([]float64, l))
		pv, cv := &noVVisitP{}, &noVVisitC{}
		var f func()
		what := ""
		switch op := c.Intn(14); op {
		case 0:
			what, f = fmt.Sprintf("At(%d)", b), func() { v.At(b) }
		case 1:
			what, f = fmt.Sprintf("SetEntry(%d)", b), func() { v.SetEntry(b, 1) }
		case 2:
			what, f = fmt.Sprintf("AddToEntry(%d)", b), func() { v.AddToEntry(b, 1) }
		case 3:
			what, f = fmt.Sprintf("SubVector(%d,1)", b), func() { v.SubVector(b, 1) }
		case 4:
			k := c.Range(n-i+1, n+5)
			what, f = fmt.Sprintf("SubVector(%d,%d)", i, k), func() { v.SubVector(i, k) }
		case 5:
			k := -c.Range(1, 5)
			what, f = fmt.Sprintf("SubVector(%d,%d)", i, k), func() { v.SubVector(i, k) }
		case 6:
			k := c.Range(n-i+1, n+5)
			s := make([]float64, k)
			y, ny := c.anyVec(s)
			what = fmt.Sprintf("SetSubVector(%d,%s of %d)", i, ny, k)
			f = pick(c.Rng, func() { v.SetSubVector(i, y) }, func() { v.SetSubVectorWithSlice(i, s) })
		case 7:
			y, ny := c.anyVec(make([]float64, 1))
			what = fmt.Sprintf("SetSubVector(%d,%s of 1)", b, ny)
			f = pick(c.Rng, func() { v.SetSubVector(b, y) }, func() { v.SetSubVectorWithSlice(b, []float64{1}) })
		case 8, 9:
			fs := []func(){func() { v.Add(w) }, func() { v.Subtract(w) }, func() { v.EBEMultiply(w) }, func() { v.EBEDivide(w) },
				func() { v.CopyFrom(w) }, func() { v.Combine(2, 3, w) }, func() { lin.VecDotProduct(v, w) }, func() { lin.VecDistance(v, w) },
				func() { lin.VecL1Distance(v, w) }, func() { lin.VecLInfDistance(v, w) }}
			k := c.Intn(len(fs))
			what, f = fmt.Sprintf("binary operation %d with %s of %d", k, nw, l), fs[k]
		case 10, 11:
			a, e := c.badIdx(n), i
			if c.Bool() {
				a, e = i, c.badIdx(n)
			}
			if n > 1 && c.Chance(0.3) {
				e = c.Range(0, n-2)
				a = c.Range(e+1, n-1)
			}
			k := c.Intn(4)
			what = fmt.Sprintf("walk %d over %d..%d", k, a, e)
			f = func() {
				switch k {
				case 0:
					v.WalkInDefaultOrderBounded(pv, a, e)
				case 1:
					v.WalkInOptimizedOrderBounded(pv, a, e)
				case 2:
					v.WalkInUpdateDefaultOrderBounded(cv, a, e)
				case 3:
					v.WalkInUpdateOptimizedOrderBounded(cv, a, e)
				}
			}
		case 12:
			z, nz := c.anyVec(make([]float64, n))
			k := c.Intn(4)
			what = fmt.Sprintf("direction of a zero %s vector, %d", nz, k)
			f = []func(){func() { lin.VecCosine(v, z) }, func() { lin.VecCosine(z, v) }, func() { lin.Projection(v, z) }, func() { lin.UnitVector(z) }}[k]
		case 13:
			z := c.vec(make([]float64, n))
			what = "Unitize a zero vector"
			f = func() { z.Unitize() }
			defer c.EqV("a zero vector after refused Unitize", z, make([]float64, n))
		}
		c.Notef("vector of %d: %s", n, what)
		c.RefusedP(fmt.Sprintf("vector of %d: %s", n, what), f)
		c.Check(pv.n == 0 && cv.n == 0, "%s: the visitor was called although the range is refused", what)
		c.EqV("vector after the refused "+what, v, x)
		if l > 0 {
			c.EqV("argument after the refused "+what, w, make([]float64, l))
		}
	}
}

// ================================================================ M08 equality

func m08(c *Ctx) {
	r, k := c.smallDims()
	if c.WL == "shapes" {
		r, k = c.dims()
	}
	t := c.table(r, k, c.kind(vInt, vReal, vWide, vUnique))
	if r == k && c.Chance(0.3) {
		n := r
		if n > 60 {
			n = 60
		}
		t = diagT(c.slice(n, vUnique))
		r, k = n, n
	}
	if c.Chance(0.2) {
		t.a[c.Intn(len(t.a))] = pick(c.Rng, math.Inf(1), math.Inf(-1), 0.0)
	}
	rep1, rep2 := c.rep(t, false, true), c.rep(t, true, true)
	a, b := c.build(t, rep1), c.build(t, rep2)
	na, nb := rName[rep1], rName[rep2]
	c.Notef("%s/%s %dx%d", na, nb, r, k)
	c.Count("pair " + na + "/" + nb)
	eq := func(what string, x, y lin.RealMatrix, want bool) {
		c.Check(x.Equals(y) == want, "%s: x.Equals(y) is %v", what, !want)
		if _, f := y.(*FMat); !f {
			c.Check(y.Equals(x) == want, "%s: y.Equals(x) is %v", what, !want)
		}
	}
	eq(na+" and "+nb+" with the same entries", a, b, true)
	eq("a matrix and itself", a, a, true)
	cp := a.Copy()
	eq("a copy", a, cp, true)
	// zeros of either sign are equal
	z := t.clone()
	changed := false
	for i := range z.a {
		if z.a[i] == 0 {
			z.a[i] = -z.a[i]
			if math.Signbit(z.a[i]) == math.Signbit(t.a[i]) {
				z.a[i] = math.Copysign(0, -1)
			}
			changed = true
		}
	}
	if changed {
		eq("zeros of opposite sign", a, c.build(z, denseReps[c.Intn(len(denseReps))]), true)
		c.Count("signed zeros")
	}
	// one entry differs, by as little as one unit in the last place
	d := t.clone()
	p := c.Intn(len(d.a))
	if c.Chance(0.3) {
		p = pick(c.Rng, 0, len(d.a)-1)
	}
	if r > 52 && c.Chance(0.5) { // an entry in a late block
		p = (r-1)*k + c.Intn(k)
	}
	switch c.Intn(4) {
	case 0:
		d.a[p] = math.Nextafter(d.a[p], math.Inf(1))
		if math.IsInf(t.a[p], 1) {
			d.a[p] = 1
		}
	case 1:
		d.a[p] = math.NaN()
		c.Count("NaN entries")
	case 2:
		if d.a[p] != 0 {
			d.a[p] = -d.a[p]
		} else {
			d.a[p] = 1e-300
		}
	case 3:
		d.a[p] += 1
		if d.a[p] == t.a[p] {
			d.a[p] = 0
			if t.a[p] == 0 {
				d.a[p] = 3
			}
		}
	}
	rep3 := c.rep(d, true, true)
	x := c.build(d, rep3)
	if c.Bool() && !math.IsNaN(d.a[p]) {
		cp2 := a.Copy()
		if rep1 != rDiag || p/k == p%k {
			cp2.SetEntry(p/k, p%k, d.a[p])
			eq(fmt.Sprintf("a copy changed at (%d,%d)", p/k, p%k), a, cp2, false)
		}
	}
	eq(fmt.Sprintf("%s and %s differing at (%d,%d): %v / %v", na, rName[rep3], p/k, p%k, t.a[p], d.a[p]), a, x, false)
	// NaN in both places
	if math.IsNaN(d.a[p]) && rep3 != rForeign {
		y := c.build(d, denseReps[c.Intn(len(denseReps))])
		eq("NaN against NaN", x, y, false)
	}
	// different dimensions
	u := c.mat(c.table(r+1, k, vZero))
	eq("one row more", a, u, false)
	u = c.mat(c.table(r, k+1, vZero))
	eq("one column more", a, u, false)
	zz := c.mat(newT(r, k))
	eq("one row more, all zero", zz, c.mat(newT(r+1, k)), false)
	if r != k {
		eq("transposed shape, all zero", zz, c.mat(newT(k, r)), false)
	}
	// the same numbers in another shape
	if r != k {
		eq("reshaped", a, c.mat(&T{k, r, t.a}), false)
	}
	for _, o := range []interface{}{nil, 3, "x", t.slices(), t.a, 2.5, struct{}{}, c.vec(t.col(0)), errOther} {
		c.Check(!a.Equals(o), "%s equals a %T", na, o)
	}
	// transitivity on the way
	e := c.mat(t)
	c.Check(a.Equals(b) && b.Equals(e) && a.Equals(e), "equality is not transitive")
}

var errOther = fmt.Errorf("other")

func m08vec(c *Ctx) {
	n := c.Range(1, 12)
	x := c.slice(n, c.kind(vInt, vReal, vSpecial))
	hasNaN := false
	for _, v := range x {
		if v != v {
			hasNaN = true
		}
	}
	a := c.vec(x)
	b, nb := c.anyVec(x)
	c.Notef("vector %d %s nan=%v", n, nb, hasNaN)
	eq := func(what string, p, q lin.RealVector, want bool) {
		c.Check(p.Equals(q) == want, "%s: p.Equals(q) is %v (%v / %v)", what, !want, readV(p), readV(q))
		if _, f := q.(*FVec); !f {
			c.Check(q.Equals(p) == want, "%s: q.Equals(p) is %v (%v / %v)", what, !want, readV(p), readV(q))
		}
	}
	eq("the same entries", a, b, true)
	eq("itself", a, a, true)
	eq("a copy", a, a.Copy(), true)
	p := c.Intn(n)
	y := append([]float64{}, x...)
	if x[p] == x[p] {
		y[p] = pick(c.Rng, math.Nextafter(x[p], 7), -x[p]+1e-300, 0.123456)
		if !hasNaN && y[p] != x[p] && y[p] == y[p] {
			w, _ := c.anyVec(y)
			eq(fmt.Sprintf("entry %d differs", p), a, w, false)
		}
	}
	z := append([]float64{}, x...)
	for i := range z {
		if z[i] == 0 {
			z[i] = math.Copysign(0, pick(c.Rng, -1.0, 1.0))
		}
	}
	w, _ := c.anyVec(z)
	eq("zeros of either sign", a, w, true)
	// NaN anywhere: equal to any vector of the same dimension with a NaN
	o := c.slice(n, vReal)
	o[c.Intn(n)] = math.NaN()
	w, _ = c.anyVec(o)
	eq("a vector with a NaN", a, w, hasNaN)
	c.Count(fmt.Sprintf("nan against %v", hasNaN))
	l := append(append([]float64{}, x...), math.NaN())
	w, _ = c.anyVec(l)
	eq("one entry more", a, w, false)
	w, _ = c.anyVec(x[:n-1])
	eq("one entry less", a, w, false)
	for _, o := range []interface{}{nil, 3, "x", x, 2.5, struct{}{}, c.mat(colT(x))} {
		c.Check(!a.Equals(o), "a vector equals a %T", o)
	}
}

// ================================================================ M09 diagonal

func m09(c *Ctx) {
	n := c.Range(1, 8)
	if c.Chance(0.02) {
		n = pick(c.Rng, 30, 52, 53, 64, 65)
	}
	d := c.slice(n, c.kind(vInt, vReal, vUnique))
	t := diagT(d)
	dm := c.build(t, rDiag).(*lin.DiagonalMatrix)
	c.Notef("diag %v", d[:min(n, 6)])
	// off the diagonal: zero reads, zero of either sign accepted, the rest refused
	for q := 0; q < 4 && n > 1; q++ {
		i, j := c.Intn(n), c.Intn(n)
		if i == j {
			continue
		}
		c.Check(dm.At(i, j) == 0, "off-diagonal entry (%d,%d) is %v", i, j, dm.At(i, j))
		z := math.Copysign(0, pick(c.Rng, -1.0, 1.0))
		c.NoPanic("zero off the diagonal", func() {
			dm.SetEntry(i, j, z)
			dm.AddToEntry(i, j, z)
			dm.MultiplyEntry(i, j, c.val(vReal, 0))
		})
		v := pick(c.Rng, 1.0, -1, 1e-300, -1e-310, 0.1, math.MaxFloat64, math.NaN(), math.Inf(1), math.Inf(-1))
		c.RefusedP(fmt.Sprintf("SetEntry(%d,%d,%v)", i, j, v), func() { dm.SetEntry(i, j, v) })
		c.RefusedP(fmt.Sprintf("AddToEntry(%d,%d,%v)", i, j, v), func() { dm.AddToEntry(i, j, v) })
		c.Count("off-diagonal updates")
	}
	c.EqM("after off-diagonal updates", dm, t)
	// arithmetic agrees with the dense matrix
	e := c.slice(n, c.kind(vInt, vReal))
	te := diagT(e)
	oe, no := c.anyMat(te)
	if c.Bool() {
		oe, no = c.build(te, rDiag), "Diag"
	}
	dense := c.build(t, denseReps[c.Intn(len(denseReps))])
	both := func(what string, got, want lin.RealMatrix) {
		c.EqM("Diag "+what+" "+no, got, read(want))
	}
	both("Add", dm.Add(oe), dense.Add(oe))
	both("Subtract", dm.Subtract(oe), dense.Subtract(oe))
	both("Multiply", dm.Multiply(oe), dense.Multiply(oe))
	if oe.RowDimension() == n {
		both("PreMultiply", dm.PreMultiplyMatrix(oe), dense.PreMultiplyMatrix(oe))
	}
	both("ScalarMultiply", dm.ScalarMultiply(2.5), dense.ScalarMultiply(2.5))
	both("Transpose", dm.Transpose(), dense.Transpose())
	c.Check(dm.Trace() == dense.Trace() || math.Abs(dm.Trace()-dense.Trace()) <= 4*float64(n)*eps*lin.VecL1Norm(c.vec(d)), "Trace %v, dense %v", dm.Trace(), dense.Trace())
	g := c.table(n, c.Range(1, 5), c.kind(vInt, vReal))
	gm, ng := c.anyMat(g)
	// each entry of the product with a dense matrix is one scaled entry
	w := g.clone()
	for i := 0; i < n; i++ {
		for j := 0; j < g.c; j++ {
			w.set(i, j, d[i]*g.at(i, j))
		}
	}
	c.EqM("Diag.Multiply("+ng+")", dm.Multiply(gm), w)
	g = c.table(c.Range(1, 5), n, c.kind(vInt, vReal))
	gm, ng = c.anyMat(g)
	w = g.clone()
	for i := 0; i < g.r; i++ {
		for j := 0; j < n; j++ {
			w.set(i, j, g.at(i, j)*d[j])
		}
	}
	c.EqM("Diag.PreMultiplyMatrix("+ng+")", dm.PreMultiplyMatrix(gm), w)
	if ng != "Foreign" {
		c.EqM(ng+".Multiply(Diag)", gm.Multiply(dm), w)
	}
	if n > 1 && c.Bool() { // sums with dense matrices, on either side
		h := c.table(n, n, c.kind(vInt, vReal))
		hm := c.mat(h)
		c.EqM("dense.Add(Diag)", hm.Add(dm), h.add(t))
		c.EqM("dense.Subtract(Diag)", hm.Subtract(dm), h.sub(t))
	}
	// two sides of the singularity threshold
	thr := pick(c.Rng, 0.0, 0, 1e-10, 1e-3, 0.5, 1e-300)
	s := make([]float64, n)
	for i := range s {
		for math.Abs(s[i]) <= thr {
			s[i] = 3 * c.Sym()
		}
	}
	singular := false
	k := c.Intn(n)
	sg := pick(c.Rng, -1.0, 1.0)
	switch c.Intn(6) {
	case 0:
		s[k], singular = sg*thr, true
	case 1:
		s[k], singular = math.Copysign(0, sg), true
	case 2:
		if thr > 0 {
			s[k] = sg * math.Nextafter(thr, 10)
			s[k] = sg * (thr * (1 + 4*eps))
		} else {
			s[k] = sg * pick(c.Rng, 1e-300, 1e-10, 1e-320)
		}
	case 3:
		if thr > 0 {
			s[k], singular = sg*thr*0.99, true
		}
	}
	sd := c.build(diagT(s), rDiag).(*lin.DiagonalMatrix)
	c.Notef("threshold %v entry %v singular=%v", thr, s[k], singular)
	c.Check(sd.IsSingular(thr) == singular, "IsSingular(%v) with diagonal entry %v is %v", thr, s[k], !singular)
	inv := func() *lin.DiagonalMatrix { return sd.InverseWithThreshold(thr) }
	if thr == 0 && c.Bool() {
		inv = sd.Inverse
	}
	if singular {
		c.Count("singular diagonals")
		c.RefusedP(fmt.Sprintf("inverse with threshold %v and entry %v", thr, s[k]), func() { inv() })
	} else {
		c.Count("inverted diagonals")
		var im *lin.DiagonalMatrix
		c.NoPanic(fmt.Sprintf("inverse with threshold %v and entries %v", thr, s), func() { im = inv() })
		want := make([]float64, n)
		for i := range want {
			want[i] = 1 / s[i]
		}
		c.EqM("inverse", im, diagT(want))
	}
	c.EqM("diagonal matrix after inverse", sd, diagT(s))
}

// ================================================================ M10 norms

// m10special: an infinite or NaN entry shows in every norm.
func m10special(c *Ctx) {
	r, k := c.smallDims()
	if c.Chance(0.2) {
		r, k = c.dims()
	}
	t := c.table(r, k, c.kind(vInt, vReal))
	if r == k && r < 60 && c.Chance(0.2) {
		t = diagT(c.slice(r, vReal))
	}
	at := pick(c.Rng, 0, c.Intn(r*k), r*k-1)
	if t.isDiag() {
		at = c.Intn(r) * (k + 1)
	}
	bad := pick(c.Rng, math.NaN(), math.Inf(1), math.Inf(-1))
	t.a[at] = bad
	c.fpT(t)
	m, n := c.anyMat(t)
	ga, gf := lin.MatLInfNorm(m), lin.MatFrobeniusNorm(m)
	if bad != bad {
		c.Check(ga != ga && gf != gf, "%s %dx%d with NaN at %d: norms %v, %v", n, r, k, at, ga, gf)
		c.Count("norms of NaN")
	} else {
		c.Check(math.IsInf(ga, 1) && math.IsInf(gf, 1), "%s %dx%d with %v at %d: norms %v, %v", n, r, k, bad, at, ga, gf)
		c.Count("infinite norms")
	}
}

func m10(c *Ctx) {
	r, k := c.smallDims()
	if c.WL == "shapes" {
		r, k = c.dims()
	}
	exact := c.Bool()
	kd := func() int {
		if exact {
			return c.kind(vInt, vSparse, vUnique)
		}
		return c.kind(vReal, vWide)
	}
	t := c.table(r, k, kd())
	if r == k && r <= 60 && c.Chance(0.2) {
		t = diagT(c.slice(r, kd()))
	}
	if c.Chance(0.25) {
		exact = true
		t = c.table(r, k, vInt)
		if c.Bool() {
			// columns whose sums differ by next to nothing
			c.Count("columns that nearly tie")
			big := math.Ldexp(1, c.Range(20, 45))
			for j := 0; j < k; j++ {
				sum := 0.0
				for i := 1; i < r; i++ {
					sum += math.Abs(t.at(i, j))
				}
				t.set(0, j, c.sign()*(big-sum+float64(c.Intn(3))))
			}
		} else {
			// one entry far above all others, which matter together
			c.Count("a dominant entry")
			for i := range t.a {
				t.a[i] = c.sign() * float64(1+c.Intn(2))
			}
			t.a[c.Intn(len(t.a))] = c.sign() * math.Ldexp(1, c.Range(10, 25))
		}
	}
	m, n := c.anyMat(t)
	c.Notef("%s %dx%d exact=%v", n, r, k, exact)
	ref := func(t *T) (float64, float64) {
		mx := 0.0
		for j := 0; j < t.c; j++ {
			s := 0.0
			for i := 0; i < t.r; i++ {
				s += math.Abs(t.at(i, j))
			}
			mx = math.Max(mx, s)
		}
		return mx, t.fro()
	}
	a, f := ref(t)
	ga, gf := lin.MatLInfNorm(m), lin.MatFrobeniusNorm(m)
	if exact {
		c.Check(ga == a, "%s sum norm %v, want %v", n, ga, a)
	} else {
		c.Tol("sum norm", math.Abs(ga-a), 2*float64(r)*eps*a+1e-320, "%s sum norm %v, want %v", n, ga, a)
	}
	fb := 4.0
	if exact {
		fb = 1
	}
	c.Tol("frobenius norm", math.Abs(gf-f), fb*float64(r*k+8)*eps*f+1e-320, "%s Frobenius norm %v, want %v", n, gf, f)
	c.Check((ga == 0) == (t.max() == 0) && (gf == 0) == (t.max() == 0), "norms %v, %v of a matrix with largest entry %v", ga, gf, t.max())
	// invariance under sign changes, homogeneity under powers of two: exact
	u := t.clone()
	for i := range u.a {
		if c.Bool() {
			u.a[i] = -u.a[i]
		}
	}
	rep := denseReps[c.Intn(len(denseReps))]
	if t.isDiag() && c.Bool() {
		rep = rDiag
	}
	um := c.build(u, rep)
	c.Tol("sign", math.Abs(lin.MatLInfNorm(um)-ga), 2*float64(r)*eps*a+1e-320, "sum norm changes with signs: %v, %v", lin.MatLInfNorm(um), ga)
	c.Tol("sign", math.Abs(lin.MatFrobeniusNorm(um)-gf), 4*float64(r*k+4)*eps*f+1e-320, "Frobenius norm changes with signs: %v, %v", lin.MatFrobeniusNorm(um), gf)
	p := math.Pow(2, float64(c.Range(-20, 20)))
	sm := c.build(t.scale(p), rep)
	c.Tol("scale", math.Abs(lin.MatLInfNorm(sm)-ga*p), 2*float64(r)*eps*a*p, "sum norm of 2^k A is %v, want %v", lin.MatLInfNorm(sm), ga*p)
	c.Tol("scale", math.Abs(lin.MatFrobeniusNorm(sm)-gf*p), 4*float64(r*k+4)*eps*f*p, "Frobenius norm of 2^k A is %v, want %v", lin.MatFrobeniusNorm(sm), gf*p)
	// triangle inequality
	v := c.table(r, k, kd())
	if t.r == r && t.c == k {
		w, _ := c.anyMat(t.add(v))
		vm, _ := c.anyMat(v)
		c.Check(lin.MatLInfNorm(w) <= (ga+lin.MatLInfNorm(vm))*(1+float64(4*r)*eps), "sum norm: triangle inequality")
		c.Check(lin.MatFrobeniusNorm(w) <= (gf+lin.MatFrobeniusNorm(vm))*(1+float64(8*(r*k+4))*eps), "Frobenius norm: triangle inequality")
	}
	c.EqM("matrix after its norms", m, t)
}

func init() {
	const judge = "every case draws shapes, values, storage kinds and the operation from the seed; non-trivial means more than one entry involved and at least one oracle evaluated; distinct by a hash of numbers, storage kinds and operations"
	register(&Prop{ID: "M06", Rule: judge, Technique: "runtime monitoring: aliasing monitor (change one object, watch all others)",
		Level: "Held on the executed operations; every object involved is overwritten in turn while all others are compared with their recorded content.",
		WL:    []Workload{{"ops", 11700, 234000, m06, false}, {"shapes", 5850, 39000, m06, false}, {"setters", 5200, 104000, m06set, false}, {"vectors", 5200, 104000, m06vec, false}, {"references", 3000, 60000, m06ref, false}, {"factories", 4000, 80000, m06fresh, false}}, Need: []string{"independence checks", "references", "factories", "second operations"}})
	register(&Prop{ID: "M07", Rule: judge + "; each case makes up to six invalid calls", Technique: "runtime monitoring: fault injection of invalid arguments with refusal and no-effect monitors",
		Level:  "Held on the injected invalid calls; checks the kind of failure (library error value), absence of side effects and of visitor calls.",
		Assume: []string{"a nil matrix or vector interface value is not among the invalid arguments considered, except for the vector constructors that document it", "the content of a caller-supplied destination slice after a refused copy is not specified"},
		WL:     []Workload{{"matrix", 45000, 900000, m07, false}, {"constructors", 2400, 48000, m07ctor, false}, {"decompositions", 12500, 250000, m07dec, false}, {"vectors", 20000, 400000, m07vec, false}}, Need: []string{"refusals"}})
	register(&Prop{ID: "M08", Rule: judge, Technique: "runtime monitoring: metamorphic equality laws over storage kinds",
		Level: "Held on the executed pairs, including single-ulp and single-entry differences, signed zeros, NaN and infinities.",
		WL:    []Workload{{"small", 16000, 320000, m08, false}, {"shapes", 5400, 36000, m08, false}, {"vectors", 16000, 320000, m08vec, false}}, Need: []string{"signed zeros", "NaN entries"}})
	register(&Prop{ID: "M09", Rule: judge, Technique: "runtime monitoring: dense-equivalent differential oracle and threshold boundary monitor",
		Level:  "Held on the executed cases; thresholds are probed on both sides of the boundary.",
		Assume: []string{"the smallest subnormal 5e-324 counts as zero in the library's comparison and is not used as a non-zero value here"},
		WL:     []Workload{{"diagonal", 14000, 280000, m09, false}}, Need: []string{"off-diagonal updates", "singular diagonals", "inverted diagonals"}})
	register(&Prop{ID: "M10", Rule: judge + "; integer data are compared exactly", Technique: "runtime monitoring: definition oracle and metamorphic norm laws",
		Level: "Held on the executed cases; exact for integer data (sum norm), within summation rounding otherwise.",
		WL:    []Workload{{"small", 24000, 480000, m10, false}, {"shapes", 14400, 96000, m10, false}, {"special", 6000, 120000, m10special, false}}, Need: []string{"norms of NaN", "infinite norms", "columns that nearly tie", "a dominant entry"}})
}
