package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	lin "github.com/jtejido/linear"
)

// ================================================================ M11 what errors say

type mistake struct {
	what   string
	status int
	f      func() error
	arg    []float64         // Argument() is one of these (when not nil)
	bounds []float64         // Low(), High()
	limit  []float64         // Min() or Max()
	shapes [2][2]int         // wrong and expected shape, in either order
	at     [2]int            // Row(), Column()
	thr    []float64         // Threshold()
	says   []float64         // numbers the message mentions
	check  func(interface{}) // more
}

func said(msg string, x float64) bool {
	if strings.Contains(msg, fmt.Sprint(x)) {
		return true
	}
	return x == math.Trunc(x) && math.Abs(x) < 1e15 && strings.Contains(msg, fmt.Sprint(int64(x)))
}

func oneOf(x float64, s []float64) bool {
	for _, y := range s {
		if x == y || x != x && y != y {
			return true
		}
	}
	return false
}

// recall lists everything an error value tells.
func recall(v interface{}) string {
	var b strings.Builder
	r := reflect.ValueOf(v)
	for i := 0; i < r.NumMethod(); i++ {
		if m := r.Method(i); m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
			fmt.Fprintf(&b, "%s %v; ", r.Type().Method(i).Name, m.Call(nil)[0])
		}
	}
	return b.String()
}

func (c *Ctx) judgeMistake(name string, k *mistake) interface{} {
	what := name + ": " + k.what
	c.Notef("%s", what)
	var err error
	p, bad := c.Guard(func() { err = k.f() })
	var v interface{} = err
	if bad {
		v = p
	}
	c.Check(v != nil, "%s: accepted", what)
	msg, ok := libErr(v)
	c.Check(ok, "%s: %s, which is not a library error", what, msg)
	st := v.(interface{ Status() int }).Status()
	c.Check(st == k.status, "%s: status %d, want %d (%s)", what, st, k.status, msg)
	c.Count(fmt.Sprintf("status %d", st))
	num := func(kind string, x float64, want []float64) {
		c.Check(oneOf(x, want), "%s: %s is %v, want %v (%s)", what, kind, x, want, msg)
		c.Count("numbers compared")
	}
	has := func(kind string, ok bool) {
		c.Check(ok, "%s: %T carries no %s", what, v, kind)
	}
	if k.arg != nil {
		e, ok := v.(interface{ Argument() float64 })
		has("argument", ok)
		num("the argument", e.Argument(), k.arg)
	}
	if k.bounds != nil {
		e, ok := v.(interface {
			Low() float64
			High() float64
		})
		has("bounds", ok)
		num("the lower bound", e.Low(), k.bounds[:1])
		num("the upper bound", e.High(), k.bounds[1:])
	}
	if k.limit != nil {
		switch e := v.(type) {
		case interface{ Min() float64 }:
			num("the minimum", e.Min(), k.limit)
		case interface{ Max() float64 }:
			num("the maximum", e.Max(), k.limit)
		default:
			has("limit", false)
		}
	}
	if k.shapes != [2][2]int{} {
		e, ok := v.(interface {
			WrongRowDimension() int
			WrongColumnDimension() int
			ExpectedRowDimension() int
			ExpectedColumnDimension() int
		})
		has("shapes", ok)
		w, x := [2]int{e.WrongRowDimension(), e.WrongColumnDimension()}, [2]int{e.ExpectedRowDimension(), e.ExpectedColumnDimension()}
		c.Check(w == k.shapes[0] && x == k.shapes[1] || w == k.shapes[1] && x == k.shapes[0], "%s: shapes %v and %v, want %v (%s)", what, w, x, k.shapes, msg)
		for _, s := range k.shapes {
			k.says = append(k.says, float64(s[0]), float64(s[1]))
		}
		c.Count("shapes compared")
	}
	if k.thr != nil {
		e, ok := v.(interface {
			Row() int
			Column() int
			Threshold() float64
		})
		has("place", ok)
		c.Check(e.Row() == k.at[0] && e.Column() == k.at[1], "%s: found at (%d,%d), want %v (%s)", what, e.Row(), e.Column(), k.at, msg)
		num("the threshold", e.Threshold(), k.thr)
		k.says = append(k.says, float64(k.at[0]), k.thr[0])
		c.Count("places compared")
	}
	if k.check != nil {
		k.check(v)
	}
	for _, x := range append(append(append([]float64{}, k.says...), k.bounds...), k.limit...) {
		c.Check(said(msg, x), "%s: the message %q does not mention %v", what, msg, x)
	}
	if len(k.arg) == 1 {
		c.Check(said(msg, k.arg[0]), "%s: the message %q does not mention %v", what, msg, k.arg[0])
	}
	return v
}

func do(f func()) func() error { return func() error { f(); return nil } }

func errOf(_ interface{}, err error) error { return err }

func fs(x ...int) []float64 {
	var o []float64
	for _, v := range x {
		o = append(o, float64(v))
	}
	return o
}

func m11(c *Ctx) {
	r, k := c.smallDims()
	if c.Chance(0.1) {
		for {
			r, k = c.dims()
			if r*k <= 4200 {
				break
			}
		}
	}
	t := c.table(r, k, vUnique)
	rp := denseReps[c.Intn(len(denseReps))]
	if c.Chance(0.2) {
		if r > 60 {
			r = 60
		}
		t, rp, k = diagT(c.slice(r, vUnique)), rDiag, r
	}
	m := c.build(t, rp)
	name := fmt.Sprintf("%s %dx%d", rName[rp], r, k)
	index := func(what string, bad, n int, f func()) *mistake {
		return &mistake{what: what, status: lin.ERANGE, f: do(f), arg: fs(bad), bounds: fs(0, n-1)}
	}
	var kept []interface{}
	var told []string
	for n := 0; n < 5; n++ {
		i, j, bi, bj := c.Intn(r), c.Intn(k), c.badIdx(r), c.badIdx(k)
		a, b, d, e := c.rng(r, k)
		var q *mistake
		switch c.Intn(17) {
		case 0, 1: // one bad coordinate
			at, bad, dim := [2]int{bi, j}, bi, r
			if c.Bool() {
				at, bad, dim = [2]int{i, bj}, bj, k
			}
			f := []func(){func() { m.At(at[0], at[1]) }, func() { m.SetEntry(at[0], at[1], 1) }, func() { m.AddToEntry(at[0], at[1], 1) }, func() { m.MultiplyEntry(at[0], at[1], 2) }}
			o := c.Intn(4)
			q = index(fmt.Sprintf("entry operation %d at %v", o, at), bad, dim, f[o])
		case 2:
			s := make([]float64, k)
			v := c.vec(s)
			f := []func(){func() { m.RowAt(bi) }, func() { m.RowVectorAt(bi) }, func() { m.RowMatrixAt(bi) }, func() { m.SetRow(bi, s) }, func() { m.SetRowVector(bi, v) }, func() { m.SetRowMatrix(bi, c.mat(newT(1, k))) }}
			o := c.Intn(len(f))
			q = index(fmt.Sprintf("row operation %d at %d", o, bi), bi, r, f[o])
		case 3:
			s := make([]float64, r)
			v := c.vec(s)
			f := []func(){func() { m.ColumnAt(bj) }, func() { m.ColumnVectorAt(bj) }, func() { m.ColumnMatrixAt(bj) }, func() { m.SetColumn(bj, s) }, func() { m.SetColumnVector(bj, v) }, func() { m.SetColumnMatrix(bj, c.mat(newT(r, 1))) }}
			o := c.Intn(len(f))
			q = index(fmt.Sprintf("column operation %d at %d", o, bj), bj, k, f[o])
		case 4, 5: // ranges
			q = &mistake{status: lin.ERANGE}
			word := ""
			switch o := c.Intn(6); o {
			case 0:
				a = bi
				q.arg, q.bounds, word = fs(bi), fs(0, r-1), "row"
			case 1:
				b = bi
				q.arg, q.bounds, word = fs(bi), fs(0, r-1), "row"
			case 2:
				d = bj
				q.arg, q.bounds, word = fs(bj), fs(0, k-1), "column"
			case 3:
				e = bj
				q.arg, q.bounds, word = fs(bj), fs(0, k-1), "column"
			case 4:
				if r < 2 {
					continue
				}
				b = c.Range(0, r-2)
				a = c.Range(b+1, r-1)
				q.status, q.arg, q.limit, word = lin.ENSMALL, fs(b), fs(a), "row"
			case 5:
				if k < 2 {
					continue
				}
				e = c.Range(0, k-2)
				d = c.Range(e+1, k-1)
				q.status, q.arg, q.limit, word = lin.ENSMALL, fs(e), fs(d), "column"
			}
			q.check = func(v interface{}) {
				m := v.(error).Error()
				c.Check(strings.Contains(m, word), "range (%d,%d,%d,%d) of %s: %q does not say it is about a %s", a, b, d, e, name, m, word)
			}
			o, upd := c.Intn(5), c.Bool()
			q.what = fmt.Sprintf("range operation %d of (%d,%d,%d,%d)", o, a, b, d, e)
			dst := newT(r+1, k+1).slices()
			q.f = do(func() {
				switch {
				case o == 3:
					m.SubMatrix(a, b, d, e)
				case o == 4:
					lin.CopySubMatrix(m, a, b, d, e, dst)
				case upd:
					walkC(m, o, true, &noVisitC{}, a, b, d, e)
				default:
					walkP(m, o, true, &noVisitP{}, a, b, d, e)
				}
			})
		case 6: // sums
			x := [2]int{r + c.Range(0, 2), k + c.Range(0, 2)}
			if x == [2]int{r, k} {
				x[c.Intn(2)]++
			}
			o, _ := c.anyMat(newT(x[0], x[1]))
			q = &mistake{what: fmt.Sprintf("sum with %v", x), status: lin.EMATDIM, shapes: [2][2]int{{r, k}, x},
				f: do(pick(c.Rng, func() { m.Add(o) }, func() { m.Subtract(o) }))}
		case 7, 8: // rows and columns of wrong length
			l := c.otherLen(k)
			if c.Bool() {
				s := make([]float64, l)
				v, nv := c.anyVec(s)
				x := &T{1, l, s}
				f := []func(){func() { m.SetRow(i, s) }, func() { m.SetRowVector(i, v) }, func() { m.SetRowMatrix(i, c.mat(x)) }}
				o := c.Intn(3)
				if l == 0 {
					o = c.Intn(2)
				}
				q = &mistake{what: fmt.Sprintf("row set %d (%s) with %d entries", o, nv, l), status: lin.EMATDIM, shapes: [2][2]int{{1, l}, {1, k}}, f: do(f[o])}
			} else {
				l = c.otherLen(r)
				s := make([]float64, l)
				v, nv := c.anyVec(s)
				x := &T{l, 1, s}
				f := []func(){func() { m.SetColumn(j, s) }, func() { m.SetColumnVector(j, v) }, func() { m.SetColumnMatrix(j, c.mat(x)) }}
				o := c.Intn(3)
				if l == 0 {
					o = c.Intn(2)
				}
				q = &mistake{what: fmt.Sprintf("column set %d (%s) with %d entries", o, nv, l), status: lin.EMATDIM, shapes: [2][2]int{{l, 1}, {r, 1}}, f: do(f[o])}
			}
		case 9: // products
			l := c.otherLen(k)
			if l == 0 {
				l = k + 2
			}
			o, no := c.anyMat(newT(l, c.Range(1, 3)))
			q = &mistake{what: fmt.Sprintf("product with %s of %d rows", no, l), status: lin.EDIM, arg: fs(k, l), says: fs(k, l), f: do(func() { m.Multiply(o) })}
			if c.Bool() {
				l = c.otherLen(r)
				if l == 0 {
					l = r + 2
				}
				o := c.mat(newT(c.Range(1, 3), l))
				q = &mistake{what: fmt.Sprintf("pre-product with %d columns", l), status: lin.EDIM, arg: fs(r, l), says: fs(r, l), f: do(func() { m.PreMultiplyMatrix(o) })}
			}
		case 10:
			l := c.otherLen(k)
			s := make([]float64, l)
			v, nv := c.anyVec(s)
			q = &mistake{what: fmt.Sprintf("product with %s of %d entries", nv, l), status: lin.EDIM, arg: fs(k, l), says: fs(k, l),
				f: do(pick(c.Rng, func() { m.Operate(s) }, func() { m.OperateVector(v) }))}
			if c.Bool() {
				l = c.otherLen(r)
				s := make([]float64, l)
				v, nv := c.anyVec(s)
				q = &mistake{what: fmt.Sprintf("pre-product with %s of %d entries", nv, l), status: lin.EDIM, arg: fs(r, l), says: fs(r, l),
					f: do(pick(c.Rng, func() { m.PreMultiply(s) }, func() { m.PreMultiplyVector(v) }))}
			}
		case 11:
			p := -c.Range(1, 9)
			q = &mistake{what: fmt.Sprintf("power %d", p), status: lin.ENOTPOS, arg: fs(p), f: do(func() { lin.Power(m, p) })}
			if r != k && c.Bool() {
				p = c.Range(0, 4)
				q = &mistake{what: fmt.Sprintf("power %d", p), status: lin.ESQMAT, arg: fs(r, k), says: fs(r, k), f: do(func() { lin.Power(m, p) })}
			}
		case 12:
			if r == k {
				continue
			}
			q = &mistake{what: "trace", status: lin.ESQMAT, arg: fs(r, k), says: fs(r, k), f: do(func() { m.Trace() })}
		case 13: // selections
			sr, sc := c.selection(r), c.selection(k)
			dst := newT(40, 40).slices()
			big := len(sr) > 40 || len(sc) > 40
			switch o := c.Intn(6); o {
			case 0, 1:
				q = &mistake{what: "missing selection", status: lin.EINV}
				if o == 0 {
					sr = nil
				} else {
					sc = nil
				}
			case 2:
				sr = []int{}
				q = &mistake{what: "empty row selection", status: lin.ENODAT, check: func(v interface{}) {
					c.Check(strings.Contains(v.(error).Error(), "row"), "empty row selection: %v", v)
				}}
			case 3:
				sc = []int{}
				q = &mistake{what: "empty column selection", status: lin.ENODAT, check: func(v interface{}) {
					c.Check(strings.Contains(v.(error).Error(), "column"), "empty column selection: %v", v)
				}}
			case 4:
				sr[c.Intn(len(sr))] = bi
				q = index("selected row", bi, r, nil)
			case 5:
				sc[c.Intn(len(sc))] = bj
				q = index("selected column", bj, k, nil)
			}
			if big || c.Bool() {
				q.f = do(func() { lin.SubMatrix(m, sr, sc) })
			} else {
				q.f = do(func() { lin.CopySubMatrixFromIndices(m, sr, sc, dst) })
			}
		case 14: // tables
			rows, cols := c.Range(1, r), c.Range(1, k)
			if rp == rDiag {
				cols = rows
			}
			s := newT(rows, cols).slices()
			switch c.Intn(6) {
			case 0:
				q = &mistake{what: "missing table", status: lin.EINV, f: do(func() { m.SetSubMatrix(nil, 0, 0) })}
			case 1:
				q = &mistake{what: "table without rows", status: lin.ENODAT, f: do(func() { m.SetSubMatrix([][]float64{}, 0, 0) }), check: func(v interface{}) {
					c.Check(strings.Contains(v.(error).Error(), "row"), "table without rows: %v", v)
				}}
			case 2:
				q = &mistake{what: "table without columns", status: lin.ENODAT, f: do(func() { m.SetSubMatrix([][]float64{{}}, 0, 0) }), check: func(v interface{}) {
					c.Check(strings.Contains(v.(error).Error(), "column"), "table without columns: %v", v)
				}}
			case 3:
				if rows < 2 {
					continue
				}
				l := c.otherLen(cols)
				s[c.Range(1, rows-1)] = make([]float64, l)
				q = &mistake{what: "ragged table", status: lin.EDIM, arg: fs(cols, l), says: fs(cols, l), f: do(func() { m.SetSubMatrix(s, 0, 0) })}
			case 4:
				if rp == rDiag {
					continue
				}
				y := c.Range(0, r-rows)
				bad := pick(c.Rng, -1, -7, k)
				q = index(fmt.Sprintf("table at column %d", bad), bad, k, func() { m.SetSubMatrix(s, y, bad) })
				if bad == k {
					q.arg = fs(k, k+cols-1)
				}
			case 5:
				if rp == rDiag {
					continue
				}
				y := c.Range(0, k-cols)
				bad := pick(c.Rng, -1, -7, r)
				q = index(fmt.Sprintf("table at row %d", bad), bad, r, func() { m.SetSubMatrix(s, bad, y) })
				if bad == r {
					q.arg = fs(r, r+rows-1)
				}
			}
		case 15:
			if rp != rDiag || r < 2 {
				continue
			}
			for i == j {
				j = c.Intn(k)
			}
			v := pick(c.Rng, 1.0, -2.5, 1e-300, math.Inf(1), math.NaN())
			q = &mistake{what: fmt.Sprintf("off-diagonal update with %v", v), status: lin.ENBIG, arg: []float64{math.Abs(v)}, limit: []float64{0},
				f: do(pick(c.Rng, func() { m.SetEntry(i, j, v) }, func() { m.AddToEntry(i, j, v) }))}
		case 16: // destinations
			w := t.part(a, b, d, e)
			dr, dc := w.r, w.c
			if c.Bool() && w.r > 1 {
				dr = c.Range(1, w.r-1)
			} else if w.c > 1 {
				dc = c.Range(1, w.c-1)
			} else {
				continue
			}
			dst := newT(dr, dc).slices()
			q = &mistake{what: fmt.Sprintf("destination of %dx%d for %dx%d", dr, dc, w.r, w.c), status: lin.EMATDIM, shapes: [2][2]int{{dr, dc}, {w.r, w.c}},
				f: do(func() { lin.CopySubMatrix(m, a, b, d, e, dst) })}
			if i := c.Range(1, w.r); i < w.r && w.c > 1 && c.Bool() { // ragged
				dr, dc = w.r, c.Range(0, w.c-1)
				dst = newT(w.r, w.c).slices()
				dst[i] = dst[i][:dc]
				q.what, q.shapes = fmt.Sprintf("destination for %dx%d with row %d of %d", w.r, w.c, i, dc), [2][2]int{{dr, dc}, {w.r, w.c}}
			}
			if c.Chance(0.1) { // none at all
				dr, dc, dst = 0, 0, [][]float64{}
				q.what, q.shapes = fmt.Sprintf("empty destination for %dx%d", w.r, w.c), [2][2]int{{0, 0}, {w.r, w.c}}
			}
			if c.Bool() {
				var sr, sc []int
				for x := a; x <= b; x++ {
					sr = append(sr, x)
				}
				for x := d; x <= e; x++ {
					sc = append(sc, x)
				}
				q.f = do(func() { lin.CopySubMatrixFromIndices(m, sr, sc, dst) })
			}
		}
		c.FP(q.what)
		v := c.judgeMistake(name, q)
		kept, told = append(kept, v), append(told, recall(v))
		c.Count("mistakes")
	}
	for i, v := range kept {
		c.Check(recall(v) == told[i], "an error that said %q says %q after later refusals", told[i], recall(v))
	}
}

func m11ctor(c *Ctx) {
	n, k := c.Range(1, 5), c.Range(1, 5)
	z := -c.Range(0, 3)
	var q *mistake
	s := newT(n, k).slices()
	l := c.otherLen(k)
	type ctor struct {
		name string
		f    func([][]float64) error
	}
	tables := []ctor{
		{"NewArray2DRowRealMatrixFromSlices", func(s [][]float64) error { return errOf(lin.NewArray2DRowRealMatrixFromSlices(s, true)) }},
		{"NewArray2DRowRealMatrixFromSlices by reference", func(s [][]float64) error { return errOf(lin.NewArray2DRowRealMatrixFromSlices(s, false)) }},
		{"NewBlockRealMatrixFromSlices", func(s [][]float64) error { return errOf(lin.NewBlockRealMatrixFromSlices(s)) }},
		{"NewRealMatrixFromSlices", func(s [][]float64) error { return errOf(lin.NewRealMatrixFromSlices(s)) }},
	}
	tc := tables[c.Intn(len(tables))]
	switch c.Intn(8) {
	case 0, 1:
		a, b := z, k
		if c.Bool() {
			a, b = n, z
		}
		fn := []func() error{func() error { return errOf(lin.NewArray2DRowRealMatrix(a, b)) }, func() error { return errOf(lin.NewBlockRealMatrix(a, b)) }, func() error { return errOf(lin.NewRealMatrixWithDimension(a, b)) },
			func() error { return errOf(lin.NewBlockRealMatrixFromBlockData(a, b, [][]float64{{1}})) }}
		o := c.Intn(len(fn))
		q = &mistake{what: fmt.Sprintf("constructor %d of %dx%d", o, a, b), status: lin.ENOTSPOS, f: fn[o], arg: fs(z), limit: fs(0)}
	case 2:
		fn := []func() error{func() error { return errOf(lin.NewDiagonalMatrixWithDimension(z)) }, func() error { return errOf(lin.NewRealIdentityMatrix(z)) }}
		o := c.Intn(2)
		q = &mistake{what: fmt.Sprintf("constructor %d of dimension %d", o, z), status: lin.ENOTSPOS, f: fn[o], arg: fs(z), limit: fs(0)}
	case 3:
		z--
		fn := []func() error{func() error { return errOf(lin.NewSizedArrayRealVector(z)) }, func() error { return errOf(lin.NewSizedArrayRealVectorWithPreset(z, 2)) }}
		o := c.Intn(2)
		q = &mistake{what: fmt.Sprintf("vector constructor %d of dimension %d", o, z), status: lin.ENOTPOS, f: fn[o], arg: fs(z)}
	case 4:
		st := lin.EINV
		if tc.name == "NewBlockRealMatrixFromSlices" {
			st = lin.ENODAT
		}
		q = &mistake{what: tc.name + " of nothing", status: st, f: func() error { return tc.f(nil) }}
	case 5:
		st := lin.ENODAT
		if tc.name == "NewRealMatrixFromSlices" { // takes it for no table at all
			st = lin.EINV
		}
		q = &mistake{what: tc.name + " without rows", status: st, f: func() error { return tc.f([][]float64{}) }}
	case 6:
		if n < 2 || l == 0 {
			c.Trivial()
			return
		}
		s[c.Range(1, n-1)] = make([]float64, l)
		q = &mistake{what: tc.name + " of a ragged table", status: lin.EDIM, f: func() error { return tc.f(s) }, arg: fs(k, l), says: fs(k, l)}
	case 7:
		fn := []func() error{func() error { return errOf(lin.NewArrayRealVectorFromSlice(nil)) }, func() error { return errOf(lin.NewArrayRealVector(nil, c.Bool())) }, func() error { return errOf(lin.NewRealVector(nil)) },
			func() error { return errOf(lin.NewDiagonalMatrix(nil, true)) }, func() error { return errOf(lin.NewArray2DRowRealMatrixFromSlice(nil)) }}
		o := c.Intn(len(fn))
		q = &mistake{what: fmt.Sprintf("constructor %d of a missing array", o), status: lin.EINV, f: fn[o]}
	}
	if q.status == lin.ENOTSPOS {
		q.check = func(v interface{}) {
			m := v.(error).Error()
			c.Check(z < 0 || strings.Contains(m, "equal"), "size 0: %q", m)
		}
	}
	c.FP(q.what)
	c.judgeMistake("constructors", q)
	c.Count("mistakes")
}

func m11vec(c *Ctx) {
	n := c.Range(1, 9)
	x := c.slice(n, vUnique)
	v := c.vec(x)
	b, i, l := c.badIdx(n), c.Intn(n), c.otherLen(n)
	w, nw := c.anyVec(make([]float64, l))
	var q *mistake
	index := func(what string, bad int, f func()) *mistake {
		return &mistake{what: what, status: lin.ERANGE, f: do(f), arg: fs(bad), bounds: fs(0, n-1)}
	}
	switch c.Intn(7) {
	case 0:
		fn := []func(){func() { v.At(b) }, func() { v.SetEntry(b, 1) }, func() { v.AddToEntry(b, 1) }, func() { v.SubVector(b, 1) },
			func() { v.SetSubVector(b, c.vec([]float64{1})) }, func() { v.SetSubVectorWithSlice(b, []float64{1}) }}
		o := c.Intn(len(fn))
		q = index(fmt.Sprintf("operation %d at %d", o, b), b, fn[o])
	case 1:
		k := c.Range(n-i+1, n+5)
		s := make([]float64, k)
		fn := []func(){func() { v.SubVector(i, k) }, func() { v.SetSubVector(i, c.vec(s)) }, func() { v.SetSubVectorWithSlice(i, s) }}
		o := c.Intn(3)
		q = index(fmt.Sprintf("part operation %d of %d entries at %d", o, k, i), i+k-1, fn[o])
	case 2:
		k := -c.Range(1, 5)
		q = &mistake{what: fmt.Sprintf("part of %d entries", k), status: lin.ENOTPOS, arg: fs(k), f: do(func() { v.SubVector(i, k) })}
	case 3, 4:
		fn := []func(){func() { v.Add(w) }, func() { v.Subtract(w) }, func() { v.EBEMultiply(w) }, func() { v.EBEDivide(w) },
			func() { v.CopyFrom(w) }, func() { v.Combine(2, 3, w) }, func() { lin.VecDotProduct(v, w) }, func() { lin.VecDistance(v, w) },
			func() { lin.VecL1Distance(v, w) }, func() { lin.VecLInfDistance(v, w) }}
		o := c.Intn(len(fn))
		q = &mistake{what: fmt.Sprintf("binary operation %d with %s of %d", o, nw, l), status: lin.EDIM, arg: fs(n, l), says: fs(n, l), f: do(fn[o])}
	case 5:
		pv, cv := &noVVisitP{}, &noVVisitC{}
		a, e := i, i
		if c.Bool() {
			a = b
			q = index(fmt.Sprintf("walk from %d", b), b, nil)
		} else {
			e = b
			q = index(fmt.Sprintf("walk to %d", b), b, nil)
		}
		if n > 1 && c.Chance(0.4) {
			e = c.Range(0, n-2)
			a = c.Range(e+1, n-1)
			q = &mistake{what: fmt.Sprintf("walk from %d to %d", a, e), status: lin.ENSMALL, arg: fs(e), limit: fs(a)}
		}
		q.f = do([]func(){func() { v.WalkInDefaultOrderBounded(pv, a, e) }, func() { v.WalkInOptimizedOrderBounded(pv, a, e) },
			func() { v.WalkInUpdateDefaultOrderBounded(cv, a, e) }, func() { v.WalkInUpdateOptimizedOrderBounded(cv, a, e) }}[c.Intn(4)])
	case 6:
		z, _ := c.anyVec(make([]float64, n))
		y := c.vec(make([]float64, n))
		fn := []func(){func() { lin.VecCosine(v, z) }, func() { lin.VecCosine(z, v) }, func() { lin.Projection(v, z) }, func() { lin.UnitVector(z) }, func() { y.Unitize() }}
		o := c.Intn(len(fn))
		q = &mistake{what: fmt.Sprintf("direction %d of a zero vector", o), status: lin.EARITH, f: do(fn[o])}
	}
	c.FP(q.what)
	c.fpT(colT(x))
	c.judgeMistake(fmt.Sprintf("vector of %d", n), q)
	c.Count("mistakes")
}

func m11dec(c *Ctx) {
	n := c.Range(1, 8)
	var q *mistake
	name := "decompositions"
	switch c.Intn(8) {
	case 0: // not square
		r, k := n, c.Range(1, 8)
		if r == k {
			k++
		}
		m, nm := c.anyMat(c.table(r, k, vReal))
		fn := []func() error{func() error { return errOf(lin.NewLUDecomposition(m)) }, func() error { return errOf(lin.NewDefaultCholeskyDecomposition(m)) },
			func() error { return errOf(lin.NewRectangularCholeskyDecomposition(m)) }, func() error { return errOf(lin.NewEigenDecomposition(m)) },
			func() error { return errOf(lin.NewHessenbergTransformer(m)) }, func() error { return errOf(lin.NewSchurTransformer(m)) }, func() error { return errOf(lin.NewTriDiagonalTransformer(m)) }}
		o := c.Intn(len(fn))
		q = &mistake{what: fmt.Sprintf("decomposition %d of %s %dx%d", o, nm, r, k), status: lin.ESQMAT, arg: fs(r, k), says: fs(r, k), f: fn[o]}
	case 1: // not symmetric, at one place
		n++
		t := c.wellCond("Cholesky", n, n)
		i := c.Range(0, n-2)
		j := c.Range(i+1, n-1)
		thr := pick(c.Rng, 1e-15, 1e-10, 1e-3)
		t.set(i, j, t.max())
		t.set(j, i, t.max()*(1-3*thr-1e-14))
		q = &mistake{what: fmt.Sprintf("Cholesky of a matrix not symmetric at (%d,%d)", i, j), status: lin.ESYMM, at: [2]int{i, j}, thr: []float64{thr}, says: fs(i, j),
			f: func() error { m, _ := c.anyMat(t); return errOf(lin.NewCholeskyDecomposition(m, thr, 1e-10)) }}
		c.fpT(t)
	case 2: // not positive definite, at one pivot
		low, d := ident(n), newT(n, n)
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				low.set(i, j, float64(c.Range(-2, 2)))
			}
			d.set(i, i, float64(c.Range(1, 4)*c.Range(1, 4)))
		}
		i := c.Intn(n)
		p := -float64(c.Range(1, 9))
		d.set(i, i, p)
		t := low.mul(d).mul(low.tr())
		thr := pick(c.Rng, 1e-10, 1e-5, 0.25)
		q = &mistake{what: fmt.Sprintf("Cholesky of a matrix with pivot %d of %v", i, p), status: lin.ENSMALL, at: [2]int{i, i}, thr: []float64{thr},
			limit: []float64{thr}, f: func() error { m, _ := c.anyMat(t); return errOf(lin.NewCholeskyDecomposition(m, 1e-10, thr)) },
			check: func(v interface{}) {
				x := v.(interface{ Argument() float64 }).Argument()
				c.Check(math.Abs(x-p) < 1e-9*(1+t.max()), "pivot %v reported as %v", p, x)
			}}
		c.fpT(t)
	case 3: // rectangular Cholesky of an indefinite diagonal
		d := make([]float64, n)
		for i := range d {
			d[i] = float64(c.Range(1, 50))
		}
		i := c.Intn(n)
		small := pick(c.Rng, 1e-10, 0.0, 1e-3)
		d[i] = -float64(c.Range(1, 9))
		if c.Chance(0.3) {
			for j := range d {
				d[j] = -float64(j + 10)
			}
			d[i] = -float64(c.Range(1, 9))
		}
		m, nm := c.anyMat(diagT(d))
		q = &mistake{what: fmt.Sprintf("rectangular Cholesky of %s diagonal %v", nm, d), status: lin.ENSMALL, at: [2]int{i, i}, thr: []float64{small}, arg: d[i : i+1], limit: []float64{small},
			f: func() error { return errOf(lin.NewRectangularCholeskyDecompositionWithThreshold(m, small)) }}
	case 4: // singular systems
		kind := pick(c.Rng, "LU", "QR", "RRQR", "Eigen")
		t := c.table(n, n, vInt)
		i := c.Intn(n)
		for j := 0; j < n; j++ {
			t.set(i, j, 0)
			t.set(j, i, 0)
		}
		if kind == "Eigen" {
			t = t.add(t.tr())
		}
		s := c.solver(kind, c.mat(t))
		b := c.vec(make([]float64, n))
		o := c.Intn(3)
		bm := c.mat(newT(n, 2))
		q = &mistake{what: fmt.Sprintf("%s solver of a singular matrix, request %d", kind, o), status: lin.ESING,
			f: do([]func(){func() { s.SolveVector(b) }, func() { s.SolveMatrix(bm) }, func() { s.Inverse() }}[o])}
		c.fpT(t)
		if kind == "QR" && c.Bool() {
			d := make([]float64, n)
			for j := range d {
				d[j] = float64(c.Range(1, 9))
			}
			d[i] = 0
			m, nm := c.anyMat(diagT(d))
			s := c.solver(kind, m)
			q.what = fmt.Sprintf("QR solver of %s diagonal %v, request %d", nm, d, o)
			q.f = do([]func(){func() { s.SolveVector(b) }, func() { s.SolveMatrix(bm) }, func() { s.Inverse() }}[o])
			q.says = fs(0, i)
			q.check = func(v interface{}) {
				m := v.(error).Error()
				c.Check(strings.Contains(m, fmt.Sprintf("index (%d)", i)), "%s: %q", q.what, m)
			}
		}
	case 5: // right-hand sides
		kind := solverKinds[c.Intn(len(solverKinds))]
		r := n
		if kind == "QR" || kind == "RRQR" || kind == "SVD" {
			r = n + c.Intn(4)
		}
		s := c.solver(kind, c.mat(c.wellCond(kind, r, n)))
		l := c.otherLen(r)
		if l == 0 {
			l = r + 1
		}
		v, nv := c.anyVec(make([]float64, l))
		bm, _ := c.anyMat(newT(l, c.Range(1, 3)))
		q = &mistake{what: fmt.Sprintf("%s solver of %dx%d for %d rows (%s)", kind, r, n, l, nv), status: lin.EDIM, arg: fs(r, l), says: fs(r, l),
			f: do(pick(c.Rng, func() { s.SolveVector(v) }, func() { s.SolveMatrix(bm) }))}
	case 6: // eigenvalue indices, tridiagonal data
		ed, err := lin.NewEigenDecomposition(c.mat(c.table(n, n, vReal)))
		c.must("eigen", err)
		b := c.badIdx(n)
		fn := []func(){func() { ed.RealEigenvalueAt(b) }, func() { ed.ImagEigenvalue(b) }, func() { ed.EigenvectorAt(b) }}
		o := c.Intn(3)
		q = &mistake{what: fmt.Sprintf("eigenvalue request %d at %d of %d", o, b, n), status: lin.ERANGE, arg: fs(b), bounds: fs(0, n-1), f: do(fn[o])}
		if c.Chance(0.3) {
			l := c.otherLen(n - 1)
			q = &mistake{what: fmt.Sprintf("tridiagonal data of %d and %d entries", n, l), status: lin.EDIM, arg: fs(n-1, l), says: fs(n-1, l),
				f: func() error {
					return errOf(lin.NewEigenDecompositionFromTridiagonal(make([]float64, n), make([]float64, l)))
				}}
		}
	case 7: // what the spectrum does not allow
		switch c.Intn(3) {
		case 0:
			sv, err := lin.NewSingularValueDecomposition(c.mat(c.table(n, c.Range(1, 8), vReal)))
			c.must("svd", err)
			top := sv.SingularValues()[0]
			cut := top * (1.01 + c.Float())
			if top == 0 {
				cut = 1
			}
			q = &mistake{what: fmt.Sprintf("covariance with cutoff %v above %v", cut, top), status: lin.ENBIG, arg: []float64{cut}, limit: []float64{top}, f: do(func() { sv.Covariance(cut) })}
		case 1:
			d := make([]float64, n)
			for i := range d {
				d[i] = float64(c.Range(1, 9))
			}
			d[c.Intn(n)] = -2
			ed, err := lin.NewEigenDecomposition(c.mat(diagT(d)))
			c.must("eigen", err)
			q = &mistake{what: fmt.Sprintf("square root of %v", d), status: lin.EUNSUP, f: do(func() { ed.SquareRoot() })}
		case 2:
			d := make([]float64, n)
			for i := range d {
				d[i] = float64(c.Range(1, 9))
			}
			d[c.Intn(n)] = 0
			dm, err := lin.NewDiagonalMatrix(d, true)
			c.must("diagonal", err)
			q = &mistake{what: fmt.Sprintf("inverse of the diagonal matrix %v", d), status: lin.ESING, f: do(func() { dm.Inverse() })}
		}
	}
	c.FP(q.what)
	c.judgeMistake(name, q)
	c.Count("mistakes")
}

func init() {
	register(&Prop{ID: "M11",
		Rule:      "one deliberate mistake per call; the error's status code is the one of that kind of mistake, its accessors (Argument, Low, High, Min, Max, the two shapes, Row, Column, Threshold) give the numbers of the call and the message mentions them",
		Technique: "runtime monitoring: fault injection with an oracle for the error value",
		Level:     "every kind of mistake the library tells apart, on every storage kind, in vectors, constructors, decompositions and solvers",
		WL:        []Workload{{Name: "matrix", Quick: 72000, Thorough: 1440000, Run: m11}, {Name: "constructors", Quick: 16000, Thorough: 320000, Run: m11ctor}, {Name: "vectors", Quick: 60000, Thorough: 1200000, Run: m11vec}, {Name: "decompositions", Quick: 48000, Thorough: 960000, Run: m11dec}},
		Need:      []string{"mistakes", "numbers compared", "shapes compared", "places compared"}})
}
