package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// T is the reference table: the plain grid of numbers every matrix is compared to.
type T struct {
	r, c int
	a    []float64
}

func newT(r, c int) *T               { return &T{r, c, make([]float64, r*c)} }
func (t *T) at(i, j int) float64     { return t.a[i*t.c+j] }
func (t *T) set(i, j int, v float64) { t.a[i*t.c+j] = v }
func (t *T) clone() *T               { return &T{t.r, t.c, append([]float64{}, t.a...)} }
func (t *T) row(i int) []float64     { return append([]float64{}, t.a[i*t.c:(i+1)*t.c]...) }
func (t *T) col(j int) []float64 {
	o := make([]float64, t.r)
	for i := range o {
		o[i] = t.at(i, j)
	}
	return o
}
func (t *T) slices() [][]float64 {
	o := make([][]float64, t.r)
	for i := range o {
		o[i] = t.row(i)
	}
	return o
}
func fromSlices(d [][]float64) *T {
	t := newT(len(d), len(d[0]))
	for i := range d {
		copy(t.a[i*t.c:(i+1)*t.c], d[i])
	}
	return t
}
func colT(v []float64) *T { return &T{len(v), 1, append([]float64{}, v...)} }
func ident(n int) *T {
	t := newT(n, n)
	for i := 0; i < n; i++ {
		t.set(i, i, 1)
	}
	return t
}
func diagT(d []float64) *T {
	t := newT(len(d), len(d))
	for i, v := range d {
		t.set(i, i, v)
	}
	return t
}
func (t *T) tr() *T {
	o := newT(t.c, t.r)
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			o.set(j, i, t.at(i, j))
		}
	}
	return o
}
func (t *T) mul(u *T) *T {
	if t.c != u.r {
		panic(fmt.Sprintf("harness: mul %dx%d by %dx%d", t.r, t.c, u.r, u.c))
	}
	o := newT(t.r, u.c)
	for i := 0; i < t.r; i++ {
		oi := o.a[i*o.c : (i+1)*o.c]
		for k := 0; k < t.c; k++ {
			x := t.a[i*t.c+k]
			if x == 0 {
				continue
			}
			uk := u.a[k*u.c : (k+1)*u.c]
			for j := range oi {
				oi[j] += x * uk[j]
			}
		}
	}
	return o
}
func (t *T) add(u *T) *T {
	o := t.clone()
	for i := range o.a {
		o.a[i] += u.a[i]
	}
	return o
}
func (t *T) sub(u *T) *T {
	o := t.clone()
	for i := range o.a {
		o.a[i] -= u.a[i]
	}
	return o
}
func (t *T) scale(s float64) *T {
	o := t.clone()
	for i := range o.a {
		o.a[i] *= s
	}
	return o
}
func (t *T) abs() *T {
	o := t.clone()
	for i := range o.a {
		o.a[i] = math.Abs(o.a[i])
	}
	return o
}
func (t *T) part(r0, r1, c0, c1 int) *T {
	o := newT(r1-r0+1, c1-c0+1)
	for i := 0; i < o.r; i++ {
		for j := 0; j < o.c; j++ {
			o.set(i, j, t.at(r0+i, c0+j))
		}
	}
	return o
}

// fro is the Frobenius norm, computed with scaling.
func (t *T) fro() float64 {
	m := t.max()
	if m == 0 || math.IsInf(m, 0) || math.IsNaN(m) {
		return m
	}
	s := 0.0
	for _, v := range t.a {
		s += (v / m) * (v / m)
	}
	return m * math.Sqrt(s)
}
func (t *T) max() float64 {
	m := 0.0
	for _, v := range t.a {
		if math.IsNaN(v) {
			return math.NaN()
		}
		if a := math.Abs(v); a > m {
			m = a
		}
	}
	return m
}
func (t *T) isDiag() bool {
	if t.r != t.c {
		return false
	}
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			if i != j && t.at(i, j) != 0 {
				return false
			}
		}
	}
	return true
}
func (t *T) String() string {
	if t.r*t.c <= 36 {
		return fmt.Sprintf("%dx%d%v", t.r, t.c, t.a)
	}
	return fmt.Sprintf("%dx%d[%v %v %v ...]", t.r, t.c, t.a[0], t.a[1], t.a[2])
}

// read copies any matrix into a table through At only.
func read(m lin.RealMatrix) *T {
	t := newT(m.RowDimension(), m.ColumnDimension())
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			t.a[i*t.c+j] = m.At(i, j)
		}
	}
	return t
}
func readV(v lin.RealVector) []float64 {
	o := make([]float64, v.Dimension())
	for i := range o {
		o[i] = v.At(i)
	}
	return o
}

// same: equal as numbers, or both NaN.
func same(a, b float64) bool { return a == b || (a != a && b != b) }

// same compares two numbers; where the property is about stored values
// (strict), the sign of zero counts as well.
func (c *Ctx) same(a, b float64) bool {
	if c.strict && a == 0 && b == 0 {
		return math.Signbit(a) == math.Signbit(b)
	}
	return same(a, b)
}

var strictProps = map[string]bool{"M01": true, "M02": true, "M03": true, "M05": true, "M06": true, "M07": true, "V01": true, "V02": true, "V04": true}

func (c *Ctx) EqT(what string, got, want *T) {
	c.checks++
	if got.r != want.r || got.c != want.c {
		c.Failf("%s: got a %dx%d matrix, want %dx%d", what, got.r, got.c, want.r, want.c)
	}
	for i := range got.a {
		if !c.same(got.a[i], want.a[i]) {
			c.Failf("%s: entry (%d,%d) is %v, want %v (of %dx%d)", what, i/got.c, i%got.c, got.a[i], want.a[i], got.r, got.c)
		}
	}
}

func (c *Ctx) EqM(what string, got lin.RealMatrix, want *T) {
	if isNil(got) {
		c.Failf("%s: got nil", what)
	}
	c.checks++
	if got.RowDimension() != want.r || got.ColumnDimension() != want.c {
		c.Failf("%s: got a %dx%d matrix, want %dx%d", what, got.RowDimension(), got.ColumnDimension(), want.r, want.c)
	}
	for i := 0; i < want.r; i++ {
		for j := 0; j < want.c; j++ {
			if x := got.At(i, j); !c.same(x, want.a[i*want.c+j]) {
				c.Failf("%s: entry (%d,%d) is %v, want %v (of %dx%d)", what, i, j, x, want.a[i*want.c+j], want.r, want.c)
			}
		}
	}
	c.CountN("entries compared", want.r*want.c)
	if _, foreign := got.(*FMat); !foreign && want.r*want.c <= 12000 && c.Chance(0.04) {
		c.usable(what, got, want)
	}
}

// usable puts a matrix the library has made or changed to further use: what
// it says entry by entry must also be what the other operations see.
func (c *Ctx) usable(what string, m lin.RealMatrix, want *T) {
	_, diag := m.(*lin.DiagonalMatrix)
	op := c.Intn(8)
	if diag && op > 3 {
		op = 0
	}
	var r lin.RealMatrix
	w := want
	switch op {
	case 0:
		what += ", its copy"
		r = m.Copy()
	case 1:
		what += ", its transpose"
		r, w = m.Transpose(), want.tr()
	case 2:
		what += ", twice itself"
		r, w = m.ScalarMultiply(2), want.scale(2)
	case 3:
		what += ", itself added"
		r, w = m.Add(m), want.scale(2)
	case 4:
		what += ", its part"
		a, b, d, e := c.rng(want.r, want.c)
		r, w = m.SubMatrix(a, b, d, e), want.part(a, b, d, e)
	case 5:
		what += ", its column"
		j := c.Intn(want.c)
		r, w = m.ColumnMatrixAt(j), want.part(0, want.r-1, j, j)
	case 6:
		what += ", its row"
		i := c.Intn(want.r)
		r, w = m.RowMatrixAt(i), want.part(i, i, 0, want.c-1)
	case 7:
		d := m.Data()
		c.Check(len(d) == want.r, "%s: Data has %d rows of %d", what, len(d), want.r)
		for i := range d {
			for j := range d[i] {
				if len(d[i]) != want.c || !same(d[i][j], want.at(i, j)) {
					c.Failf("%s: Data has %v at (%d,%d), want %v", what, d[i][j], i, j, want.at(i, j))
				}
			}
		}
	}
	c.Count("results put to further use")
	if r == nil {
		return
	}
	if r.RowDimension() != w.r || r.ColumnDimension() != w.c {
		c.Failf("%s: got a %dx%d matrix, want %dx%d", what, r.RowDimension(), r.ColumnDimension(), w.r, w.c)
	}
	for i := 0; i < w.r; i++ {
		for j := 0; j < w.c; j++ {
			if x := r.At(i, j); !same(x, w.at(i, j)) {
				c.Failf("%s: entry (%d,%d) is %v, want %v (of %dx%d)", what, i, j, x, w.at(i, j), w.r, w.c)
			}
		}
	}
}

// usableV does the same for a vector.
func (c *Ctx) usableV(what string, v lin.RealVector, want []float64) {
	n := len(want)
	var r lin.RealVector
	w := append([]float64{}, want...)
	switch c.Intn(4) {
	case 0:
		what += ", its copy"
		r = v.Copy()
	case 1:
		what += ", itself added"
		r = v.Add(v)
		for i := range w {
			w[i] *= 2
		}
	case 2:
		what += ", its part"
		i := c.Intn(n)
		k := c.Range(1, n-i)
		r, w = v.SubVector(i, k), w[i:i+k]
	case 3:
		what += ", longer by one"
		r, w = v.Append(7), append(w, 7)
	}
	c.Count("results put to further use")
	if r.Dimension() != len(w) {
		c.Failf("%s: dimension %d, want %d", what, r.Dimension(), len(w))
	}
	for i := range w {
		if x := r.At(i); !same(x, w[i]) {
			c.Failf("%s: entry %d is %v, want %v (of %d)", what, i, x, w[i], len(w))
		}
	}
}

func (c *Ctx) EqS(what string, got, want []float64) {
	c.checks++
	if len(got) != len(want) {
		c.Failf("%s: length %d, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !c.same(got[i], want[i]) {
			c.Failf("%s: entry %d is %v, want %v (of %d)", what, i, got[i], want[i], len(want))
		}
	}
	c.CountN("entries compared", len(want))
}

func (c *Ctx) EqV(what string, got lin.RealVector, want []float64) {
	if isNil(got) {
		c.Failf("%s: got nil", what)
	}
	c.checks++
	if got.Dimension() != len(want) {
		c.Failf("%s: dimension %d, want %d", what, got.Dimension(), len(want))
	}
	c.EqS(what, readV(got), want)
	if _, foreign := got.(*FVec); !foreign && len(want) > 0 && c.Chance(0.03) {
		c.usableV(what, got, want)
	}
}

// Near is a componentwise bound: |got-want| <= tol[i].
func (c *Ctx) Near(name, what string, got, want, bound *T, factor float64) {
	if got.r != want.r || got.c != want.c {
		c.Failf("%s: got a %dx%d matrix, want %dx%d", what, got.r, got.c, want.r, want.c)
	}
	for i := range got.a {
		d := math.Abs(got.a[i] - want.a[i])
		if d == 0 {
			continue
		}
		c.Tol(name, d, factor*bound.a[i]+5e-324*16, "%s: entry (%d,%d) is %v, want %v", what, i/got.c, i%got.c, got.a[i], want.a[i])
	}
	c.checks++
	c.CountN("entries compared", len(got.a))
}

func isNil(x interface{}) bool {
	switch v := x.(type) {
	case nil:
		return true
	case *lin.Array2DRowRealMatrix:
		return v == nil
	case *lin.BlockRealMatrix:
		return v == nil
	case *lin.DiagonalMatrix:
		return v == nil
	case *lin.ArrayRealVector:
		return v == nil
	}
	return false
}

const eps = 2.220446049250313e-16

func dot(a, b []float64) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}
func norm2(a []float64) float64 { return colT(a).fro() }

// orthErr is max |Q'Q - I|.
func orthErr(q *T) float64 {
	g := q.tr().mul(q)
	m := 0.0
	for i := 0; i < g.r; i++ {
		for j := 0; j < g.c; j++ {
			w := 0.0
			if i == j {
				w = 1
			}
			d := math.Abs(g.at(i, j) - w)
			if !(d <= m) {
				m = d
			}
		}
	}
	return m
}
