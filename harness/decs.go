package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// ---------------------------------------------------------------- reference linear algebra

// inv inverts by Gauss-Jordan elimination with full pivoting; ok is false
// when a pivot is relatively negligible.
func (t *T) inv() (*T, bool) {
	n := t.r
	a := t.clone()
	o := ident(n)
	scale := t.max()
	if !(scale > 0) || math.IsInf(scale, 0) {
		return nil, false
	}
	cols := make([]int, n)
	for i := range cols {
		cols[i] = i
	}
	for k := 0; k < n; k++ {
		pr, pc, best := k, k, 0.0
		for i := k; i < n; i++ {
			for j := k; j < n; j++ {
				if v := math.Abs(a.at(i, j)); v > best {
					pr, pc, best = i, j, v
				}
			}
		}
		if !(best > 1e-14*scale) {
			return nil, false
		}
		for j := 0; j < n; j++ {
			a.a[k*n+j], a.a[pr*n+j] = a.a[pr*n+j], a.a[k*n+j]
			o.a[k*n+j], o.a[pr*n+j] = o.a[pr*n+j], o.a[k*n+j]
		}
		for i := 0; i < n; i++ {
			a.a[i*n+k], a.a[i*n+pc] = a.a[i*n+pc], a.a[i*n+k]
		}
		cols[k], cols[pc] = cols[pc], cols[k]
		p := a.at(k, k)
		for j := 0; j < n; j++ {
			a.a[k*n+j] /= p
			o.a[k*n+j] /= p
		}
		for i := 0; i < n; i++ {
			f := a.at(i, k)
			if i == k || f == 0 {
				continue
			}
			for j := 0; j < n; j++ {
				a.a[i*n+j] -= f * a.a[k*n+j]
				o.a[i*n+j] -= f * o.a[k*n+j]
			}
		}
	}
	x := newT(n, n)
	for k := 0; k < n; k++ {
		copy(x.a[cols[k]*n:(cols[k]+1)*n], o.a[k*n:(k+1)*n])
	}
	return x, true
}

// cond is the Frobenius condition number, infinite for singular tables.
func (t *T) cond() float64 {
	x, ok := t.inv()
	if !ok {
		return math.Inf(1)
	}
	return t.fro() * x.fro()
}

func finiteT(t *T) bool {
	for _, v := range t.a {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return false
		}
	}
	return true
}

// svals draws p singular values between 1/cond and 1.
func (c *Ctx) svals(p int, cond float64) []float64 {
	o := make([]float64, p)
	for i := range o {
		o[i] = math.Pow(cond, -c.Float())
	}
	return o
}

// realSpectrum builds a non-symmetric n-by-n matrix X D X^-1 with the given
// eigenvalues. xc is the largest condition number of X.
func (c *Ctx) realSpectrum(d []float64, xc float64) *T {
	n := len(d)
	u, v := c.randOrth(n), c.randOrth(n)
	s := c.svals(n, xc)
	si := make([]float64, n)
	for i := range s {
		si[i] = 1 / s[i]
	}
	x := u.mul(diagT(s)).mul(v.tr())
	xi := v.mul(diagT(si)).mul(u.tr())
	t := x.mul(diagT(d)).mul(xi)
	c.fpT(t)
	return t
}

// spd builds a symmetric positive definite table.
func (c *Ctx) spd(n int, cond float64) *T {
	q := c.randOrth(n)
	t := q.mul(diagT(c.svals(n, cond))).mul(q.tr()).sym()
	c.fpT(t)
	return t
}

var solverKinds = []string{"LU", "QR", "RRQR", "SVD", "Eigen", "Cholesky"}

// wellCond draws an r-by-n matrix of full rank in the domain of a
// decomposition, with a condition number below about a thousand.
func (c *Ctx) wellCond(kind string, r, n int) *T {
	if c.faint {
		return c.faintWell(kind, r, n)
	}
	scale := pick(c.Rng, 1.0, 1.0, 1.0, 64.0, 0.125, 1e3)
	switch kind {
	case "Cholesky":
		if c.Chance(0.2) {
			return diagT(c.posSlice(n)).scale(scale)
		}
		if c.Chance(0.3) { // integers
			g := c.table(n, n, vInt)
			t := g.mul(g.tr())
			for i := 0; i < n; i++ {
				t.set(i, i, t.at(i, i)+float64(c.Range(40, 80)))
			}
			c.fpT(t)
			return t
		}
		return c.spd(n, 100).scale(scale)
	case "Eigen":
		d := make([]float64, n)
		for i := range d {
			d[i] = (0.5 + float64(i) + 0.3*c.Float()) * pick(c.Rng, 1.0, -1.0)
		}
		if n > 1 && c.Chance(0.5) {
			return c.realSpectrum(d, 5).scale(scale)
		}
		if c.Chance(0.3) { // repeated eigenvalues
			for i := range d {
				d[i] = pick(c.Rng, 1.0, 2.0, -2.0)
			}
		}
		if c.Chance(0.1) {
			return diagT(d)
		}
		q := c.randOrth(n)
		t := q.mul(diagT(d)).mul(q.tr()).sym().scale(scale)
		c.fpT(t)
		return t
	}
	p := n
	if r < n {
		p = r
	}
	switch c.Intn(6) {
	case 0: // diagonally dominant integers
		t := c.table(r, n, vInt)
		for i := 0; i < p; i++ {
			t.set(i, i, pick(c.Rng, 1.0, -1.0)*float64(12*n+c.Intn(20)))
		}
		c.fpT(t)
		return t
	case 1: // its rows exchanged
		t := c.table(r, n, vReal)
		for i := 0; i < p; i++ {
			t.set(i, i, pick(c.Rng, 1.0, -1.0)*float64(2*n+1))
		}
		o := newT(r, n)
		for i, j := range c.Perm(r) {
			copy(o.a[i*n:(i+1)*n], t.a[j*n:(j+1)*n])
		}
		c.fpT(o)
		return o
	case 2:
		if r == n {
			return c.randPermT(n).mul(diagT(c.posSlice(n))).scale(scale)
		}
	case 3: // graded rows
		if r == n && n < 12 {
			t := c.withSV(n, n, c.svals(n, 4))
			for i := 0; i < n; i++ {
				f := math.Ldexp(1, -c.Intn(8))
				for j := 0; j < n; j++ {
					t.set(i, j, t.at(i, j)*f)
				}
			}
			c.fpT(t)
			return t
		}
	}
	return c.withSV(r, n, c.svals(p, 50)).scale(scale)
}

// faintWell draws a dominant, hence well conditioned, matrix for the solver of
// the given kind which also holds entries that underflow when squared.
func (c *Ctx) faintWell(kind string, r, n int) *T {
	t := c.table(r, n, vReal)
	p := n
	if r < p {
		p = r
	}
	sym := kind == "Cholesky" || kind == "Eigen" && c.Bool()
	if sym {
		t = t.sym()
	} else if kind == "Eigen" {
		for i := range t.a {
			if i/n > i%n {
				t.a[i] = 0
			}
		}
	}
	o := c.faintly(t)
	for i := 0; i < p; i++ {
		x := float64(n+1) + float64(i%7) + c.Float()
		switch {
		case kind == "Eigen" && !sym:
			for j := 0; j < i; j++ {
				o.set(i, j, 0)
			}
			for j := i + 1; j < n; j++ {
				o.set(i, j, o.at(i, j)/4)
			}
			x = float64(i+1) * pick(c.Rng, 1.0, -1.0)
		case kind != "Cholesky" && c.Bool():
			x = -x
		}
		o.set(i, i, x)
	}
	if kind != "Cholesky" && kind != "Eigen" && c.Bool() {
		x := newT(r, n)
		for i, j := range c.Perm(r) {
			copy(x.a[i*n:(i+1)*n], o.a[j*n:(j+1)*n])
		}
		o = x
	}
	c.fpT(o)
	return o
}

func (c *Ctx) posSlice(n int) []float64 {
	o := make([]float64, n)
	for i := range o {
		o[i] = 0.25 + 4*c.Float()
		if c.Chance(0.3) {
			o[i] = float64(c.Range(1, 5))
		}
		c.FPf(o[i])
	}
	return o
}

// solver decomposes m and hands out the solver.
func (c *Ctx) solver(kind string, m lin.RealMatrix) lin.DecompositionSolver {
	switch kind {
	case "LU":
		d, err := lin.NewLUDecomposition(m)
		if c.scaled {
			d, err = lin.NewLUDecompositionWithThreshold(m, 0)
		}
		c.must("NewLUDecomposition", err)
		return d.Solver()
	case "QR":
		d, err := lin.NewQRDecomposition(m)
		c.must("NewQRDecomposition", err)
		return d.Solver()
	case "RRQR":
		d, err := lin.NewRRQRDecomposition(m)
		c.must("NewRRQRDecomposition", err)
		return d.Solver()
	case "SVD":
		d, err := lin.NewSingularValueDecomposition(m)
		c.must("NewSingularValueDecomposition", err)
		return d.Solver()
	case "Eigen":
		d, err := lin.NewEigenDecomposition(m)
		c.must("NewEigenDecomposition", err)
		return d.Solver()
	case "Cholesky":
		if c.scaled {
			d, err := lin.NewCholeskyDecomposition(m, 1e-15, 1e-200)
			c.must("NewCholeskyDecomposition", err)
			return d.Solver()
		}
		d, err := lin.NewDefaultCholeskyDecomposition(m)
		c.must("NewDefaultCholeskyDecomposition", err)
		return d.Solver()
	}
	panic("kind")
}

// ---------------------------------------------------------------- everything a decomposition answers

type answer struct {
	name string
	f    func() []float64
}

type decomp struct {
	kind    string
	factors []answer // factors and derived quantities
	solver  func() lin.DecompositionSolver
	mats    []func() lin.RealMatrix // the matrices among the factors
	given   []answer                // objects given away by value: asking overwrites the one received
}

// scrawl overwrites every entry of an object the caller was given.
func scrawl(x interface{}) []float64 {
	switch x := x.(type) {
	case []float64:
		for i := range x {
			x[i] = 17 + float64(i)
		}
	case []int:
		for i := range x {
			x[i] = len(x) - 1 - i/2
		}
	case lin.RealVector:
		for i := 0; i < x.Dimension(); i++ {
			x.SetEntry(i, 17+float64(i))
		}
	case lin.RealMatrix:
		for i := 0; i < x.RowDimension(); i++ {
			for j := 0; j < x.ColumnDimension(); j++ {
				if _, diag := x.(*lin.DiagonalMatrix); i == j || !diag {
					x.SetEntry(i, j, 17+float64(i-j))
				}
			}
		}
	}
	return nil
}

func flatM(m lin.RealMatrix) []float64 {
	if isNil(m) {
		return []float64{-1}
	}
	t := read(m)
	return append([]float64{float64(t.r), float64(t.c)}, t.a...)
}
func flatSS(a [][]float64) []float64 {
	o := []float64{float64(len(a))}
	for _, r := range a {
		o = append(o, float64(len(r)))
		o = append(o, r...)
	}
	return o
}
func b2f(b bool) []float64 {
	if b {
		return []float64{1}
	}
	return []float64{0}
}
func cp(a []float64) []float64 { return append([]float64{float64(len(a))}, a...) }

var decKinds = []string{"LU", "Cholesky", "RectCholesky", "QR", "RRQR", "SVD", "Eigen", "EigenTri", "Hessenberg", "Schur", "BiDiagonal", "TriDiagonal"}

// decompose builds a decomposition of the given kind and lists everything it
// can be asked.
func decompose(kind string, m lin.RealMatrix, thr float64) (*decomp, error) {
	d := &decomp{kind: kind}
	ad := func(name string, f func() []float64) { d.factors = append(d.factors, answer{name, f}) }
	am := func(name string, f func() lin.RealMatrix) {
		ad(name, func() []float64 { return flatM(f()) })
		d.mats = append(d.mats, f)
	}
	gv := func(name string, f func() interface{}) {
		d.given = append(d.given, answer{name, func() []float64 { return scrawl(f()) }})
	}
	af := func(name string, f func() float64) { ad(name, func() []float64 { return []float64{f()} }) }
	switch kind {
	case "LU":
		x, err := lin.NewLUDecompositionWithThreshold(m, thr)
		if err != nil {
			return nil, err
		}
		am("L", x.L)
		am("U", x.U)
		am("P", x.P)
		af("Determinant", x.Determinant)
		ad("Pivot", func() []float64 {
			var o []float64
			for _, i := range x.Pivot() {
				o = append(o, float64(i))
			}
			return o
		})
		gv("Pivot", func() interface{} { return x.Pivot() })
		d.solver = x.Solver
	case "Cholesky":
		x, err := lin.NewDefaultCholeskyDecomposition(m)
		if err != nil {
			return nil, err
		}
		am("L", x.L)
		am("LT", x.LT)
		af("Determinant", x.Determinant)
		d.solver = x.Solver
	case "RectCholesky":
		x, err := lin.NewRectangularCholeskyDecompositionWithThreshold(m, thr)
		if err != nil {
			return nil, err
		}
		am("RootMatrix", x.RootMatrix)
		af("Rank", func() float64 { return float64(x.Rank()) })
	case "QR":
		x, err := lin.NewQRDecompositionWithThreshold(m, thr)
		if err != nil {
			return nil, err
		}
		am("Q", x.Q)
		am("QT", x.QT)
		am("R", x.R)
		am("H", x.H)
		d.solver = x.Solver
	case "RRQR":
		x, err := lin.NewRRQRDecompositionWithThreshold(m, thr)
		if err != nil {
			return nil, err
		}
		am("Q", x.Q)
		am("QT", x.QT)
		am("R", x.R)
		am("H", x.H)
		am("P", x.P)
		af("Rank(1e-9)", func() float64 { return float64(x.Rank(1e-9)) })
		af("Rank(0.1)", func() float64 { return float64(x.Rank(0.1)) })
		d.solver = x.Solver
	case "SVD":
		x, err := lin.NewSingularValueDecomposition(m)
		if err != nil {
			return nil, err
		}
		am("U", x.U)
		am("UT", x.UT)
		am("S", x.S)
		am("V", x.V)
		am("VT", x.VT)
		ad("SingularValues", func() []float64 { return cp(x.SingularValues()) })
		af("Norm", x.Norm)
		af("ConditionNumber", x.ConditionNumber)
		af("InverseConditionNumber", x.InverseConditionNumber)
		af("Rank", func() float64 { return float64(x.Rank()) })
		am("Covariance(0)", func() lin.RealMatrix { return x.Covariance(0) })
		am("Covariance(norm/2)", func() lin.RealMatrix { return x.Covariance(x.Norm() / 2) })
		gv("SingularValues", func() interface{} { return x.SingularValues() })
		gv("Covariance", func() interface{} { return x.Covariance(0) })
		d.solver = x.Solver
	case "Eigen", "EigenTri":
		var x *lin.EigenDecomposition
		var err error
		if kind == "Eigen" {
			x, err = lin.NewEigenDecomposition(m)
		} else {
			n := m.RowDimension()
			main, sec := make([]float64, n), make([]float64, n-1)
			for i := range main {
				main[i] = m.At(i, i)
				if i > 0 {
					sec[i-1] = m.At(i-1, i)
				}
			}
			x, err = lin.NewEigenDecompositionFromTridiagonal(main, sec)
		}
		if err != nil {
			return nil, err
		}
		am("V", x.V)
		am("D", x.D)
		am("VT", x.VT)
		ad("HasComplexEigenvalues", func() []float64 { return b2f(x.HasComplexEigenvalues()) })
		ad("RealEigenvalues", func() []float64 { return cp(x.RealEigenvalues()) })
		ad("ImagEigenvalues", func() []float64 { return cp(x.ImagEigenvalues()) })
		af("RealEigenvalueAt", func() float64 { return x.RealEigenvalueAt(0) })
		af("ImagEigenvalue", func() float64 { return x.ImagEigenvalue(0) })
		ad("EigenvectorAt", func() []float64 { return cp(readV(x.EigenvectorAt(m.RowDimension() - 1))) })
		af("Determinant", x.Determinant)
		am("SquareRoot", x.SquareRoot)
		gv("RealEigenvalues", func() interface{} { return x.RealEigenvalues() })
		gv("ImagEigenvalues", func() interface{} { return x.ImagEigenvalues() })
		gv("EigenvectorAt", func() interface{} { return x.EigenvectorAt(m.RowDimension() - 1) })
		gv("SquareRoot", func() interface{} { return x.SquareRoot() })
		d.solver = x.Solver
	case "Hessenberg":
		x, err := lin.NewHessenbergTransformer(m)
		if err != nil {
			return nil, err
		}
		am("P", x.P)
		am("PT", x.PT)
		am("H", x.H)
		ad("HouseholderVectorsRef", func() []float64 { return flatSS(x.HouseholderVectorsRef()) })
	case "Schur":
		x, err := lin.NewSchurTransformer(m)
		if err != nil {
			return nil, err
		}
		am("P", x.P)
		am("PT", x.PT)
		am("T", x.T)
	case "BiDiagonal":
		x, err := lin.NewBiDiagonalTransformer(m)
		if err != nil {
			return nil, err
		}
		am("U", x.U)
		am("B", x.B)
		am("V", x.V)
		ad("HouseholderVectorsRef", func() []float64 { return flatSS(x.HouseholderVectorsRef()) })
		ad("MainDiagonalRef", func() []float64 { return cp(x.MainDiagonalRef()) })
		ad("SecondaryDiagonalRef", func() []float64 { return cp(x.SecondaryDiagonalRef()) })
		ad("IsUpperBiDiagonal", func() []float64 { return b2f(x.IsUpperBiDiagonal()) })
	case "TriDiagonal":
		x, err := lin.NewTriDiagonalTransformer(m)
		if err != nil {
			return nil, err
		}
		am("Q", x.Q)
		am("QT", x.QT)
		am("T", x.T)
		ad("HouseholderVectorsRef", func() []float64 { return flatSS(x.HouseholderVectorsRef()) })
		ad("MainDiagonalRef", func() []float64 { return cp(x.MainDiagonalRef()) })
		ad("SecondaryDiagonalRef", func() []float64 { return cp(x.SecondaryDiagonalRef()) })
	default:
		panic("kind " + kind)
	}
	return d, nil
}

// ask gets one answer; a refusal is an answer too, anything else that panics
// is a violation.
func (c *Ctx) ask(what string, f func() []float64) (out []float64, refused string) {
	p, bad := c.Guard(func() { out = f() })
	if bad {
		m, ok := libErr(p)
		if !ok {
			c.Failf("%s: died with %s, which is not a library error", what, m)
		}
		return []float64{-777}, m
	}
	return out, ""
}

// solverAnswers lists what a solver can be asked about b and B.
func solverAnswers(s lin.DecompositionSolver, b lin.RealVector, B lin.RealMatrix) []answer {
	return []answer{
		{"IsNonSingular", func() []float64 { return b2f(s.IsNonSingular()) }},
		{"SolveVector", func() []float64 { return cp(readV(s.SolveVector(b))) }},
		{"SolveMatrix", func() []float64 { return flatM(s.SolveMatrix(B)) }},
		{"Inverse", func() []float64 { return flatM(s.Inverse()) }},
	}
}

func sameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return false
		}
	}
	return true
}

func firstDiff(a, b []float64) string {
	if len(a) != len(b) {
		return fmt.Sprintf("length %d and %d", len(a), len(b))
	}
	for i := range a {
		if !same(a[i], b[i]) {
			return fmt.Sprintf("position %d: %v and %v", i, a[i], b[i])
		}
	}
	return "none"
}
