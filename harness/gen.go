package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// ---------------------------------------------------------------- sizes

// dim draws a dimension, favouring 1 and the neighbourhoods of the block size
// (52) and its multiples.
func (c *Ctx) dim() int {
	switch x := c.Intn(100); {
	case x < 12:
		return 1
	case x < 45:
		return c.Range(2, 6)
	case x < 60:
		return c.Range(7, 20)
	case x < 70:
		return c.Range(21, 50)
	case x < 84:
		return c.Range(51, 53)
	case x < 88:
		return pick(c.Rng, 54, 63, 64, 65, 77)
	case x < 96:
		return c.Range(103, 106)
	case x < 99:
		return c.Range(155, 158)
	default:
		if c.Chance(0.4) {
			return pick(c.Rng, c.Range(78, 206), c.Range(211, 340), 128, 256)
		}
		return c.Range(207, 210)
	}
}

// dims draws a shape. The product is kept below about 17000 entries.
func (c *Ctx) dims() (int, int) {
	switch c.Intn(20) {
	case 0:
		return 64, 64 // 4096 entries: the factories' threshold
	case 1:
		return pick(c.Rng, 64, 65), pick(c.Rng, 64, 65)
	case 2:
		return 1, pick(c.Rng, 4096, 4097, 52, 53, 105)
	case 3:
		return pick(c.Rng, 4096, 4097, 52, 53, 105), 1
	}
	for {
		r, k := c.dim(), c.dim()
		if c.Chance(0.25) {
			k = r
		}
		if r*k <= 17000 {
			return r, k
		}
	}
}

func (c *Ctx) smallDims() (int, int) {
	if c.Chance(0.3) {
		n := c.Range(1, 8)
		return n, n
	}
	return c.Range(1, 9), c.Range(1, 9)
}

// ---------------------------------------------------------------- values

const (
	vInt = iota
	vIntBig
	vSparse
	vReal
	vWide
	vSpecial
	vUnique
	vZero
)

var vName = []string{"int", "bigint", "sparse", "real", "wide", "special", "unique", "zero"}

var specials = []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64,
	5e-324, -5e-324, 2.2250738585072014e-308, 1, -1, 1e300, -1e300, 1e-300, 0.1, 3, -2.5}

func (c *Ctx) val(kind, ord int) float64 {
	switch kind {
	case vInt:
		return float64(c.Range(-9, 9))
	case vIntBig:
		return float64(c.Range(-1<<20, 1<<20))
	case vSparse:
		if c.Chance(0.8) {
			return 0
		}
		return float64(c.Range(-9, 9))
	case vReal:
		return c.Sym()
	case vWide:
		return c.Sym() * math.Pow(10, float64(c.Range(-8, 8)))
	case vSpecial:
		if c.Chance(0.5) {
			return c.Sym()
		}
		return specials[c.Intn(len(specials))]
	case vUnique:
		return float64(ord + 1)
	}
	return 0
}

func (c *Ctx) sign() float64 { return float64(1 - 2*c.Intn(2)) }

func (c *Ctx) kind(kinds ...int) int {
	return kinds[c.Intn(len(kinds))]
}

func (c *Ctx) table(r, k, kind int) *T {
	t := newT(r, k)
	for i := range t.a {
		t.a[i] = c.val(kind, i)
		c.FPf(t.a[i])
	}
	c.FPi(r)
	c.FPi(k)
	c.Size(r * k)
	return t
}

func (c *Ctx) slice(n, kind int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = c.val(kind, i)
		c.FPf(o[i])
	}
	c.FPi(n)
	c.Size(n)
	return o
}

// ---------------------------------------------------------------- representations

const (
	rA2D = iota
	rA2DRef
	rA2DEntry
	rBlock
	rBlockEntry
	rBlockData
	rFactory
	rDiag
	rForeign
	rA2DCol
)

var rName = []string{"A2D", "A2DRef", "A2DEntry", "Block", "BlockEntry", "BlockData", "Factory", "Diag", "Foreign", "A2DCol"}

var denseReps = []int{rA2D, rA2DRef, rA2DEntry, rBlock, rBlockEntry, rBlockData, rFactory}

func (c *Ctx) rep(t *T, foreign, diag bool) int {
	if diag && t.isDiag() && c.Chance(0.5) {
		return rDiag
	}
	if foreign && c.Chance(0.14) {
		return rForeign
	}
	if t.c == 1 && c.Chance(0.1) {
		return rA2DCol
	}
	return denseReps[c.Intn(len(denseReps))]
}

const blockSize = 52

// blockLayout lays a table out in the documented block order.
func blockLayout(t *T) [][]float64 {
	var o [][]float64
	for i := 0; i < t.r; i += blockSize {
		i1 := i + blockSize
		if i1 > t.r {
			i1 = t.r
		}
		for j := 0; j < t.c; j += blockSize {
			j1 := j + blockSize
			if j1 > t.c {
				j1 = t.c
			}
			o = append(o, t.part(i, i1-1, j, j1-1).a)
		}
	}
	return o
}

func (c *Ctx) must(what string, err error) {
	if err != nil {
		c.Failf("%s: refused valid data: %v", what, err)
	}
}

// build makes a matrix holding t in the given storage. It never lets the
// library keep t's own memory.
func (c *Ctx) build(t *T, rep int) lin.RealMatrix {
	m := c.build0(t, rep)
	if rep == rForeign || !c.Chance(0.12) {
		return m
	}
	return c.derive(t, m)
}

// derive gives a matrix of the same content and storage that an operation of the library has made.
func (c *Ctx) derive(t *T, m lin.RealMatrix) lin.RealMatrix {
	op := c.Intn(6)
	c.Count("derived operands")
	c.FPi(100 + op)
	_, diag := m.(*lin.DiagonalMatrix)
	switch op {
	case 0:
		return m.Transpose().Transpose()
	case 1:
		if !diag {
			return m.SubMatrix(0, t.r-1, 0, t.c-1)
		}
	case 2:
		if !diag {
			n := m.Transpose().Transpose()
			for i := 0; i < t.r; i++ {
				n.SetRow(i, make([]float64, t.c))
			}
			n.SetSubMatrix(t.slices(), 0, 0)
			return n
		}
	case 3:
		if !diag {
			n := m.SubMatrix(0, t.r-1, 0, t.c-1)
			for j := 0; j < t.c; j++ {
				n.SetColumn(j, t.col(j))
			}
			return n
		}
	case 4:
		return m.Copy().Copy()
	}
	return m.Copy()
}

func (c *Ctx) build0(t *T, rep int) lin.RealMatrix {
	c.Count("built " + rName[rep])
	c.FPi(rep)
	switch rep {
	case rA2D:
		m, err := lin.NewArray2DRowRealMatrixFromSlices(t.slices(), true)
		c.must("NewArray2DRowRealMatrixFromSlices", err)
		return m
	case rA2DRef:
		m, err := lin.NewArray2DRowRealMatrixFromSlices(t.slices(), false)
		c.must("NewArray2DRowRealMatrixFromSlices", err)
		return m
	case rA2DCol:
		m, err := lin.NewArray2DRowRealMatrixFromSlice(t.col(0))
		c.must("NewArray2DRowRealMatrixFromSlice", err)
		return m
	case rA2DEntry:
		m, err := lin.NewArray2DRowRealMatrix(t.r, t.c)
		c.must("NewArray2DRowRealMatrix", err)
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				m.SetEntry(i, j, t.at(i, j))
			}
		}
		return m
	case rBlock:
		m, err := lin.NewBlockRealMatrixFromSlices(t.slices())
		c.must("NewBlockRealMatrixFromSlices", err)
		return m
	case rBlockEntry:
		m, err := lin.NewBlockRealMatrix(t.r, t.c)
		c.must("NewBlockRealMatrix", err)
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				m.SetEntry(i, j, t.at(i, j))
			}
		}
		return m
	case rBlockData:
		m, err := lin.NewBlockRealMatrixFromBlockData(t.r, t.c, blockLayout(t))
		c.must("NewBlockRealMatrixFromBlockData", err)
		return m
	case rFactory:
		m, err := lin.NewRealMatrixFromSlices(t.slices())
		c.must("NewRealMatrixFromSlices", err)
		return m
	case rDiag:
		d := make([]float64, t.r)
		for i := range d {
			d[i] = t.at(i, i)
		}
		m, err := lin.NewDiagonalMatrix(d, c.Bool())
		c.must("NewDiagonalMatrix", err)
		return m
	case rForeign:
		return newFMat(t)
	}
	panic("rep")
}

// mat builds t in a randomly chosen dense storage.
func (c *Ctx) mat(t *T) lin.RealMatrix { return c.build(t, denseReps[c.Intn(len(denseReps))]) }

// anyMat builds t in any storage, foreign and (when possible) diagonal included.
func (c *Ctx) anyMat(t *T) (lin.RealMatrix, string) {
	r := c.rep(t, true, true)
	return c.build(t, r), rName[r]
}

func (c *Ctx) vec(a []float64) *lin.ArrayRealVector {
	v := c.vec0(a)
	if len(a) == 0 || !c.Chance(0.1) {
		return v
	}
	c.Count("derived operands")
	var r lin.RealVector
	switch c.Intn(4) {
	case 0:
		r = v.SubVector(0, len(a))
	case 1:
		r = v.Append(1).SubVector(0, len(a))
	default:
		r = v.Copy()
	}
	if w, ok := r.(*lin.ArrayRealVector); ok {
		return w
	}
	return v
}

func (c *Ctx) vec0(a []float64) *lin.ArrayRealVector {
	switch c.Intn(6) {
	case 0:
		v, err := lin.NewArrayRealVector(append([]float64{}, a...), false)
		c.must("NewArrayRealVector", err)
		return v
	case 1:
		v, err := lin.NewArrayRealVector(append([]float64{}, a...), true)
		c.must("NewArrayRealVector", err)
		return v
	case 2:
		v, err := lin.NewSizedArrayRealVector(len(a))
		c.must("NewSizedArrayRealVector", err)
		for i, x := range a {
			v.SetEntry(i, x)
		}
		return v
	case 3:
		v, err := lin.NewArrayRealVectorCopy(newFVec(a))
		c.must("NewArrayRealVectorCopy", err)
		return v
	case 4:
		k := c.Intn(len(a) + 1)
		l, err := lin.NewArrayRealVectorFromSlice(append([]float64{}, a[:k]...))
		c.must("NewArrayRealVectorFromSlice", err)
		h, err := lin.NewArrayRealVectorFromSlice(append([]float64{}, a[k:]...))
		c.must("NewArrayRealVectorFromSlice", err)
		v, err := lin.NewArrayRealVectorFromTwoArrayRealVector(l, h)
		c.must("NewArrayRealVectorFromTwoArrayRealVector", err)
		return v
	}
	v, err := lin.NewArrayRealVectorFromSlice(append([]float64{}, a...))
	c.must("NewArrayRealVectorFromSlice", err)
	return v
}

// anyVec builds a vector of the library's or of a foreign type.
func (c *Ctx) anyVec(a []float64) (lin.RealVector, string) {
	if c.Chance(0.35) {
		return newFVec(a), "foreign"
	}
	return c.vec(a), "array"
}

// ---------------------------------------------------------------- structured matrices

// randOrth draws a random orthogonal matrix (Gram-Schmidt, twice, of Gaussian columns).
func (c *Ctx) randOrth(n int) *T {
	q := newT(n, n)
	cols := make([][]float64, 0, n)
	for len(cols) < n {
		v := make([]float64, n)
		for i := range v {
			v[i] = c.Norm()
		}
		for pass := 0; pass < 2; pass++ {
			for _, u := range cols {
				d := dot(u, v)
				for i := range v {
					v[i] -= d * u[i]
				}
			}
		}
		s := norm2(v)
		if s < 1e-3 {
			continue
		}
		for i := range v {
			v[i] /= s
		}
		cols = append(cols, v)
	}
	for j, v := range cols {
		for i := range v {
			q.set(i, j, v[i])
		}
	}
	return q
}

// withSV builds an r-by-k matrix with the given singular values (as many as min(r,k)).
func (c *Ctx) withSV(r, k int, sv []float64) *T {
	u := c.randOrth(r)
	v := c.randOrth(k)
	s := newT(r, k)
	for i, x := range sv {
		s.set(i, i, x)
	}
	t := u.mul(s).mul(v.tr())
	c.fpT(t)
	return t
}

func (c *Ctx) fpT(t *T) {
	for _, x := range t.a {
		c.FPf(x)
	}
	c.Size(t.r * t.c)
}

func (c *Ctx) randPermT(n int) *T {
	p := newT(n, n)
	for i, j := range c.Perm(n) {
		p.set(i, j, 1)
	}
	return p
}

func (t *T) sym() *T {
	o := t.clone()
	for i := 0; i < t.r; i++ {
		for j := 0; j < i; j++ {
			o.set(i, j, t.at(j, i))
		}
	}
	return o
}

func hilbert(n int) *T {
	t := newT(n, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			t.set(i, j, 1/float64(i+j+1))
		}
	}
	return t
}

// square draws a square matrix of one of many structures and names it.
// nearTies makes a matrix whose candidates for a pivot, or whose columns' lengths, differ by very little.
func (c *Ctx) nearTies(r, k int) *T {
	t := newT(r, k)
	d := math.Ldexp(1, -c.Range(4, 46))
	if c.Bool() { // almost orthogonal columns of almost the same length
		p := c.Perm(r)
		e := d * pick(c.Rng, 0, 1e-3, 1.0)
		for j := 0; j < k; j++ {
			for i := 0; i < r; i++ {
				t.set(i, j, e*c.Sym())
			}
			t.set(p[j%r], j, pick(c.Rng, 1.0, -1.0)*(1+d*c.Float()))
		}
		if r == k && c.Chance(0.3) {
			t = c.randOrth(r).mul(t)
		}
		return t
	}
	for i := range t.a {
		t.a[i] = pick(c.Rng, 1.0, -1.0) * (1 + d*c.Float())
	}
	return t
}

func (c *Ctx) square(n int) (*T, string) {
	var t *T
	name := ""
	switch c.Intn(29) {
	case 28:
		t, name = c.nearTies(n, n), "near ties"
	case 24, 25: // diagonal blocks tied by couplings far smaller than they are
		t, name = c.weak(n, n), "weakly coupled"
		if c.Chance(0.4) {
			t, name = t.sym(), "weakly coupled symmetric"
		}
	case 26: // a low-rank change of a multiple of the identity: repeated eigenvalues
		k := c.Range(1, 2)
		t, name = c.table(n, k, vInt).mul(c.table(k, n, vInt)), "identity plus low rank"
		x := float64(c.Range(1, 20))
		for i := 0; i < n; i++ {
			t.set(i, i, t.at(i, i)+x)
		}
	case 27: // symmetric up to a whisker
		t, name = c.table(n, n, vReal).sym(), "nearly symmetric"
		i, j := c.Intn(n), c.Intn(n)
		t.set(i, j, t.at(i, j)*(1+math.Ldexp(1, -c.Range(20, 51))))
	case 0, 1, 2:
		t, name = c.table(n, n, vReal), "random"
	case 3, 4:
		t, name = c.table(n, n, vInt), "int"
	case 5:
		t, name = c.table(n, n, vSparse), "sparse"
	case 6:
		t, name = c.table(n, n, vWide), "wide"
	case 7:
		t, name = c.table(n, n, vReal), "upper"
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				t.set(i, j, 0)
			}
		}
	case 8:
		t, name = c.table(n, n, vReal), "lower"
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				t.set(i, j, 0)
			}
		}
	case 9:
		d := c.slice(n, pick(c.Rng, vInt, vReal, vUnique))
		t, name = diagT(d), "diag"
	case 10:
		t, name = c.randPermT(n), "perm"
	case 11:
		t, name = ident(n), "identity"
	case 12: // companion
		t, name = newT(n, n), "companion"
		for i := 1; i < n; i++ {
			t.set(i, i-1, 1)
		}
		for i := 0; i < n; i++ {
			t.set(i, n-1, float64(c.Range(-4, 4)))
		}
	case 13: // block diagonal of rotations and scalings
		t, name = newT(n, n), "rotblocks"
		for i := 0; i < n; {
			if i+1 < n && c.Chance(0.6) {
				a := c.Float() * 2 * math.Pi
				s := 0.5 + c.Float()
				t.set(i, i, s*math.Cos(a))
				t.set(i+1, i+1, s*math.Cos(a))
				t.set(i, i+1, -s*math.Sin(a))
				t.set(i+1, i, s*math.Sin(a))
				i += 2
			} else {
				t.set(i, i, 2*c.Sym())
				i++
			}
		}
	case 14: // orthogonal
		t, name = c.randOrth(n), "orthogonal"
	case 15: // graded
		t, name = c.table(n, n, vReal), "graded"
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				t.set(i, j, t.at(i, j)*math.Pow(2, -float64(i)))
			}
		}
	case 16: // tridiagonal
		t, name = newT(n, n), "tridiag"
		for i := 0; i < n; i++ {
			t.set(i, i, c.Sym())
			if i > 0 {
				t.set(i, i-1, c.Sym())
				t.set(i-1, i, c.Sym())
			}
		}
	case 17: // symmetric
		t, name = c.table(n, n, pick(c.Rng, vReal, vInt)).sym(), "symmetric"
	case 18: // skew symmetric
		t, name = c.table(n, n, vReal), "skew"
		for i := 0; i < n; i++ {
			t.set(i, i, 0)
			for j := 0; j < i; j++ {
				t.set(i, j, -t.at(j, i))
			}
		}
	case 19: // Jordan-like, defective
		t, name = newT(n, n), "jordan"
		lam := float64(c.Range(-3, 3))
		for i := 0; i < n; i++ {
			t.set(i, i, lam)
			if i+1 < n && c.Chance(0.7) {
				t.set(i, i+1, 1)
			}
		}
	case 20: // low rank
		k := c.Range(0, n-1)
		if k == 0 {
			t, name = newT(n, n), "zero"
		} else {
			t, name = c.table(n, k, vInt).mul(c.table(k, n, vInt)), "lowrank"
		}
	case 21: // all equal
		t, name = newT(n, n), "constant"
		x := c.val(vInt, 0)
		for i := range t.a {
			t.a[i] = x
		}
	case 22: // Hessenberg with small couplings
		t, name = c.table(n, n, vReal), "hessenberg"
		for i := 0; i < n; i++ {
			for j := 0; j < i-1; j++ {
				t.set(i, j, 0)
			}
		}
	case 23: // block triangular with repeated structure / zero rows and columns
		t, name = c.table(n, n, vInt), "zerorowcol"
		for k := 0; k < 2; k++ {
			z := c.Intn(n)
			for i := 0; i < n; i++ {
				if c.Bool() {
					t.set(z, i, 0)
				} else {
					t.set(i, z, 0)
				}
			}
		}
		z := c.Intn(n)
		for i := 0; i < n; i++ {
			t.set(i, z, 0)
		}
	}
	if c.faint {
		t, name = c.faintly(t), name+" with faint entries"
	}
	c.fpT(t)
	return t, fmt.Sprintf("%s %dx%d", name, n, n)
}

// rect draws a rectangular (or square) matrix of one of many structures.
func (c *Ctx) rect(r, k int) (*T, string) {
	if r == k && c.Chance(0.6) {
		return c.square(r)
	}
	var t *T
	name := ""
	p := r
	if k < p {
		p = k
	}
	switch c.Intn(15) {
	case 14:
		t, name = c.nearTies(r, k), "near ties"
	case 11: // each column lives on a short stretch of rows
		t, name = newT(r, k), "concentrated"
		for j := 0; j < k; j++ {
			l := c.Range(1, 4)
			i0 := c.Intn(r)
			if c.Chance(0.5) {
				i0 = r - 1 - c.Intn((r+5)/6)
			}
			w := math.Ldexp(1, c.Range(-3, 4))
			for i := i0; i < i0+l && i < r; i++ {
				t.set(i, j, w*c.Sym())
			}
		}
	case 12:
		t, name = c.weak(r, k), "weakly coupled"
	case 13: // columns that nearly coincide
		t, name = c.table(r, k, vReal), "nearly dependent"
		a, b := c.Intn(k), c.Intn(k)
		e := math.Ldexp(1, -c.Range(10, 45))
		for i := 0; i < r; i++ {
			t.set(i, b, t.at(i, a)+e*c.Sym())
		}
	case 0, 1, 2:
		t, name = c.table(r, k, vReal), "random"
	case 3:
		t, name = c.table(r, k, vInt), "int"
	case 4:
		t, name = c.table(r, k, vSparse), "sparse"
	case 5:
		q := c.Range(0, p)
		if q == 0 {
			t, name = newT(r, k), "zero"
		} else {
			t, name = c.table(r, q, vInt).mul(c.table(q, k, vInt)), "lowrank"
		}
	case 6:
		t, name = c.table(r, k, vReal), "zerocol"
		for z := 0; z < 1+k/4; z++ {
			j := c.Intn(k)
			for i := 0; i < r; i++ {
				t.set(i, j, 0)
			}
		}
	case 7:
		t, name = c.table(r, k, vReal), "zerorow"
		for z := 0; z < 1+r/4; z++ {
			i := c.Intn(r)
			for j := 0; j < k; j++ {
				t.set(i, j, 0)
			}
		}
	case 8: // repeated singular values
		sv := make([]float64, p)
		for i := range sv {
			sv[i] = pick(c.Rng, 1.0, 1.0, 2.0, 0.5)
		}
		t, name = c.withSV(r, k, sv), "repeatedsv"
	case 9: // trapezoidal
		t, name = c.table(r, k, vReal), "trapezoid"
		for i := 0; i < r; i++ {
			for j := 0; j < k && j < i; j++ {
				t.set(i, j, 0)
			}
		}
	case 10: // duplicated columns
		t, name = c.table(r, k, vReal), "dupcols"
		for z := 0; z < 1+k/3; z++ {
			a, b := c.Intn(k), c.Intn(k)
			for i := 0; i < r; i++ {
				t.set(i, b, t.at(i, a))
			}
		}
	}
	if c.faint {
		t, name = c.faintly(t), name+" with faint entries"
	}
	c.fpT(t)
	return t, fmt.Sprintf("%s %dx%d", name, r, k)
}

// weak draws a matrix of dense diagonal blocks, of order one if any, whose
// other entries are zero or far smaller, at one or several scales.
func (c *Ctx) weak(r, k int) *T {
	t := newT(r, k)
	w := c.Range(1, 4)
	sc := -c.Range(15, 54)
	one := c.Bool()
	den := pick(c.Rng, 0.15, 0.5, 1.0)
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			switch {
			case i == j:
				t.set(i, j, pick(c.Rng, 1.0, 1, 2, -1, 3)*(1+0.25*c.Float()))
			case i/w == j/w:
				t.set(i, j, c.Sym())
			case c.Chance(den):
				e := sc
				if !one {
					e = -c.Range(15, 54)
				}
				t.set(i, j, math.Ldexp(c.Sym(), e))
			}
		}
	}
	return t
}

// weakSpd draws a symmetric, strictly dominant matrix with a positive diagonal.
func (c *Ctx) weakSpd(n int) *T {
	t := c.weak(n, n).sym()
	for i := 0; i < n; i++ {
		s := 0.0
		for j := 0; j < n; j++ {
			if j != i {
				s += math.Abs(t.at(i, j))
			}
		}
		t.set(i, i, 0.5+s+c.Float())
	}
	c.fpT(t)
	return t
}

// decDim draws an order for decomposition inputs.
func (c *Ctx) decDim(max int) int {
	if c.large {
		if c.Chance(0.2) {
			return c.Range(1, 60)
		}
		if c.Chance(0.02) {
			return c.Range(161, 270)
		}
		return pick(c.Rng, c.Range(50, 56), c.Range(61, 100), c.Range(101, 110), c.Range(111, 160))
	}
	switch x := c.Intn(1000); {
	case x < 4:
		return c.Range(52, 60)
	case x < 6:
		return c.Range(61, 110)
	}
	switch x := c.Intn(20); {
	case x < 2:
		return 1
	case x < 5:
		return 2
	case x < 8:
		return 3
	case x < 14:
		return c.Range(4, 9)
	case x < 18:
		return c.Range(10, 22)
	}
	if max < 23 {
		return max
	}
	return c.Range(23, max)
}

// large makes a workload draw its orders across several storage blocks.
func large(f func(*Ctx)) func(*Ctx) {
	return func(c *Ctx) {
		c.large = true
		f(c)
	}
}

// smallInts draws matrices of few small integers, the home of exact
// cancellations, ties and cycles.
func (c *Ctx) smallInts(n int) *T {
	t := newT(n, n)
	w := c.Range(1, 4)
	z := 0.5 * c.Float()
	hess := c.Chance(0.3)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if !c.Chance(z) && !(hess && i > j+1) {
				t.set(i, j, float64(c.Range(-w, w)))
			}
		}
	}
	c.fpT(t)
	return t
}

// faint makes a workload mix entries whose squares or products underflow
// among ordinary ones.
func faint(f func(*Ctx)) func(*Ctx) {
	return func(c *Ctx) {
		c.faint = true
		f(c)
	}
}

// faintly shrinks some entries of t, far below the square root of the smallest
// number or even below it; symmetry and the largest entry are kept.
func (c *Ctx) faintly(t *T) *T {
	if t.max() == 0 {
		return t
	}
	sym := t.r == t.c && t.symmetric()
	o := t.clone()
	exp := func() int { return -pick(c.Rng, c.Range(100, 1080), c.Range(480, 560), c.Range(900, 1080)) }
	one := exp()
	if c.Bool() {
		one = 0
	}
	e := func() int {
		if one != 0 {
			return one
		}
		return exp()
	}
	set := func(i, j int, x float64) {
		o.set(i, j, x)
		if sym {
			o.set(j, i, x)
		}
	}
	switch c.Intn(5) {
	case 0, 1: // scattered
		den := pick(c.Rng, 0.1, 0.5, 0.9)
		off := c.Bool()
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				if (!sym || i <= j) && !(off && i == j) && c.Chance(den) {
					set(i, j, math.Ldexp(t.at(i, j), e()))
				}
			}
		}
	case 2: // graded rows and columns
		f, g := make([]int, t.r), make([]int, t.c)
		for i := range f {
			if c.Chance(0.4) {
				f[i] = e()
			}
		}
		for j := range g {
			if c.Chance(0.4) {
				g[j] = e()
			}
		}
		if sym {
			g = f
		}
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				o.set(i, j, math.Ldexp(t.at(i, j), f[i]+g[j]))
			}
		}
	case 3: // a kernel of distances
		x, y := make([]float64, t.r), make([]float64, t.c)
		w := pick(c.Rng, 1.0, 100, 400, 600)
		for i := range x {
			x[i] = c.Sym() * float64(1+c.Intn(2))
		}
		for j := range y {
			y[j] = c.Sym()
			if t.r == t.c && (sym || c.Bool()) {
				y[j] = x[j]
			}
		}
		for i := range x {
			for j := range y {
				o.set(i, j, math.Exp(-w*(x[i]-y[j])*(x[i]-y[j])))
			}
		}
	case 4: // all but a corner
		k := c.Intn(t.r)
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				if (!sym || i <= j) && (i > k || j > k) && i != j {
					set(i, j, math.Ldexp(t.at(i, j), e()))
				}
			}
		}
	}
	if b := t.max(); b > 0 && o.max() < b/1024 {
		for i := range o.a {
			if math.Abs(t.a[i]) == b {
				o.a[i] = t.a[i]
			}
		}
	}
	c.Count("faint entries")
	return o
}

// extreme makes a workload multiply its matrices by extreme powers of two.
func extreme(f func(*Ctx)) func(*Ctx) {
	return func(c *Ctx) {
		c.scaled = true
		f(c)
	}
}

// rescale moves the largest entry of t to a size of 2^-most..2^most, when the
// workload asks for extreme scales, and tells the exponent of the factor.
func (c *Ctx) rescale(t *T, most int) (*T, int) {
	m := t.max()
	if !c.scaled || m == 0 {
		return t, 0
	}
	_, e := math.Frexp(m)
	e = pick(c.Rng, c.Range(-most, most), c.Range(-most, -most*3/4), c.Range(most*3/4, most)) - e
	o := t.clone()
	for i, x := range o.a {
		o.a[i] = math.Ldexp(x, e)
	}
	c.Count("extreme scales")
	c.fpT(o)
	return o, e
}
