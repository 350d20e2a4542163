package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// amp is the amplification granted to a decomposition's solver on top of the
// condition number: the non-symmetric eigen solver also goes through V.
func amp(kind string) float64 {
	if kind == "Eigen" {
		return 60
	}
	return 1
}

// sysInput draws a non-singular matrix in the domain of a solver, together
// with its condition number.
func (c *Ctx) sysInput(kind string, n int) (*T, float64, string) {
	if !c.faint && c.Chance(0.25) { // ill conditioned
		k := math.Pow(10, 3+3*c.Float())
		var t *T
		switch kind {
		case "Cholesky":
			t = c.spd(n, k)
		case "Eigen":
			q := c.randOrth(n)
			d := c.svals(n, k)
			for i := range d {
				d[i] *= pick(c.Rng, 1.0, -1.0)
			}
			t = q.mul(diagT(d)).mul(q.tr()).sym()
		default:
			t = c.withSV(n, n, c.svals(n, k))
		}
		c.fpT(t)
		if cd := t.cond(); cd < 1e8 {
			return t, cd, "ill conditioned"
		}
	}
	for i := 0; i < 20; i++ {
		t := c.wellCond(kind, n, n)
		if cd := t.cond(); cd < 1e5 {
			return t, cd, "well conditioned"
		}
	}
	t := ident(n).scale(2)
	c.fpT(t)
	return t, float64(n), "twice identity"
}

// width draws the number of columns of a right-hand side.
func (c *Ctx) width() int {
	switch c.Intn(12) {
	case 0:
		return pick(c.Rng, 51, 52, 53)
	case 1:
		if c.Chance(0.5) {
			return pick(c.Rng, 103, 104, 105, 157)
		}
	case 2:
		return c.Range(6, 30)
	}
	return c.Range(1, 5)
}

func (c *Ctx) rhs(r, k int) *T {
	t := c.table(r, k, c.kind(vInt, vReal, vReal, vSparse))
	c.fpT(t)
	return t
}

// ================================================================ S01

func s01(c *Ctx) {
	kind := pick(c.Rng, solverKinds...)
	n := c.decDim(62)
	t, cond, name := c.sysInput(kind, n)
	if c.scaled {
		if kind == "Eigen" && !t.nearlySymmetric() {
			t = t.sym()
			if cond = t.cond(); !(cond < 1e5) {
				c.Trivial()
				return
			}
		}
		var e int
		t, e = c.rescale(t, 400)
		name += fmt.Sprintf(" times 2^%d", e)
	}
	m, rep := c.anyMat(t)
	c.Count(kind)
	if !c.scaled {
		c.Count(name)
	}
	what := fmt.Sprintf("%s of %s %d (%s), condition %.3g", kind, name, n, rep, cond)
	c.Notef("%s", what)
	s := c.solver(kind, m)
	c.Check(s.IsNonSingular(), "%s: reported singular", what)
	tol := 8 * float64(n+5) * eps * cond * amp(kind)
	normA := t.fro()

	// a right-hand side with a known solution
	x := make([]float64, n)
	for i := range x {
		x[i] = c.Sym()
		if c.Chance(0.2) {
			x[i] = float64(c.Range(-4, 4))
		}
	}
	if norm2(x) == 0 {
		x[0] = 1
	}
	b := t.mul(colT(x)).a
	bv, bk := c.anyVec(b)
	var got []float64
	c.NoPanic(what+" SolveVector("+bk+")", func() { got = readV(s.SolveVector(bv)) })
	c.Check(len(got) == n, "%s: solution of dimension %d", what, len(got))
	c.Tol("solution", colT(got).sub(colT(x)).fro(), tol*norm2(x), "%s: solving for b = A x with x = %v gives %v", what, x, got)
	res := t.mul(colT(got)).sub(colT(b)).fro()
	stable := 6 * float64(n+5) * eps * (normA*norm2(got) + norm2(b))
	switch kind {
	case "QR", "RRQR", "Cholesky", "LU":
		if kind == "LU" {
			stable *= float64(n + 3)
		}
	default:
		stable *= 1 + cond/10
	}
	c.Tol("residual "+kind, res, stable, "%s: residual of the solution of A x = %v", what, b)

	// an arbitrary matrix right-hand side
	w := c.width()
	B := c.rhs(n, w)
	bm, brep := c.anyMat(B)
	var X lin.RealMatrix
	c.NoPanic(fmt.Sprintf("%s SolveMatrix(%s %dx%d)", what, brep, n, w), func() { X = s.SolveMatrix(bm) })
	c.Check(X.RowDimension() == n && X.ColumnDimension() == w, "%s: solution of %d columns is %dx%d", what, w, X.RowDimension(), X.ColumnDimension())
	xt := read(X)
	r := t.mul(xt).sub(B)
	for j := 0; j < w; j++ {
		bj, xj := norm2(B.col(j)), norm2(xt.col(j))
		c.Tol("matrix residual", norm2(r.col(j)), tol*(bj+normA*xj/(1+cond/10)), "%s: column %d of %d: residual for right-hand side %v", what, j, w, B.col(j))
	}
	// inverse
	var I lin.RealMatrix
	c.NoPanic(what+" Inverse", func() { I = s.Inverse() })
	c.Check(I.RowDimension() == n && I.ColumnDimension() == n, "%s: inverse is %dx%d", what, I.RowDimension(), I.ColumnDimension())
	it := read(I)
	c.Tol("A inv", t.mul(it).sub(ident(n)).fro(), tol*2, "%s: A times its inverse", what)
	c.Tol("inv A", it.mul(t).sub(ident(n)).fro(), tol*2*(1+cond/10), "%s: inverse times A", what)
}

// every decomposition of one matrix agrees on the solution
func s01agree(c *Ctx) {
	n := c.decDim(40)
	spd := c.Bool()
	kinds := []string{"LU", "QR", "RRQR", "SVD"}
	var t *T
	if spd {
		t = c.wellCond("Cholesky", n, n)
		kinds = append(kinds, "Cholesky", "Eigen")
	} else {
		t = c.wellCond("LU", n, n)
	}
	cond := t.cond()
	if !(cond < 1e5) {
		c.Trivial()
		return
	}
	b := c.rhs(n, 1).a
	if norm2(b) == 0 {
		b[0] = 1
	}
	c.Notef("order %d, condition %.3g, right-hand side %v", n, cond, b)
	var ref []float64
	for _, k := range kinds {
		m, rep := c.anyMat(t)
		bv, bk := c.anyVec(b)
		s := c.solver(k, m)
		var x []float64
		c.NoPanic(k+" solve", func() { x = readV(s.SolveVector(bv)) })
		if ref == nil {
			ref = x
			continue
		}
		c.Check(len(x) == len(ref), "%s of order %d: solution of dimension %d", k, n, len(x))
		c.Tol("agreement", colT(x).sub(colT(ref)).fro(), 12*float64(n+5)*eps*cond*norm2(ref), "%s of %s (order %d, condition %.3g) for a %s right-hand side: %v, LU says %v", k, rep, n, cond, bk, x, ref)
	}
}

// s01apart: a system made of independent ones. Each part of the solution is as
// accurate as if its system had been solved alone, whatever the size of the
// right-hand sides of the others.
func s01apart(c *Ctx) {
	kind := pick(c.Rng, "LU", "LU", "QR", "SVD", "Eigen", "Cholesky")
	parts := c.Range(2, 5)
	var blocks []*T
	n, worst := 0, 1.0
	top, low := 0.0, math.Inf(1)
	for p := 0; p < parts; p++ {
		k := c.Range(1, 4)
		var t *T
		for i := 0; t == nil; i++ {
			x := c.wellCond(kind, k, k)
			if cd := x.cond(); cd < 1e3 || i > 20 && cd < 1e5 {
				t, worst = x, math.Max(worst, cd)
			} else if i > 40 {
				t = ident(k)
			}
		}
		t = t.scale(math.Ldexp(1/t.max(), c.Range(-8, 8)))
		top, low = math.Max(top, t.max()), math.Min(low, t.max())
		blocks = append(blocks, t)
		n += k
	}
	A, x, of := newT(n, n), make([]float64, n), make([]int, n)
	at := 0
	for p, t := range blocks {
		f := math.Ldexp(1, c.Range(-50, 50))
		if c.Chance(0.15) {
			f = 0
		}
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				A.set(at+i, at+j, t.at(i, j))
			}
			x[at+i] = f * c.Sym()
			of[at+i] = p
		}
		at += t.r
	}
	if kind == "LU" || kind == "Cholesky" { // exchanges of rows and columns mix nothing
		perm := c.Perm(n)
		rows := perm
		if kind == "LU" {
			rows = c.Perm(n)
		}
		a, y, o := newT(n, n), make([]float64, n), make([]int, n)
		for i := range perm {
			for j := range perm {
				a.set(i, j, A.at(rows[i], perm[j]))
			}
			y[i], o[i] = x[perm[i]], of[perm[i]]
		}
		A, x, of = a, y, o
	}
	c.fpT(A)
	c.fpT(colT(x))
	m, rep := c.anyMat(A)
	c.Count("apart " + kind)
	what := fmt.Sprintf("%s of %d independent systems (%s), order %d", kind, parts, rep, n)
	s := c.solver(kind, m)
	c.Check(s.IsNonSingular(), "%s: reported singular", what)
	tol := 8 * float64(n+5) * eps * worst * amp(kind)
	if kind == "Eigen" {
		tol *= top / low
	}
	b := A.mul(colT(x)).a
	size := make([]float64, parts)
	for i, v := range x {
		size[of[i]] = math.Hypot(size[of[i]], v)
	}
	judge := func(how string, got []float64) {
		c.Check(len(got) == n, "%s: %s: solution of dimension %d", what, how, len(got))
		for i, v := range got {
			c.Tol("part "+kind, math.Abs(v-x[i]), tol*size[of[i]], "%s: %s: entry %d is %v, not %v, in a part of size %v; right-hand side %v, matrix %v", what, how, i, v, x[i], size[of[i]], b, A)
		}
	}
	bv, bk := c.anyVec(b)
	var got []float64
	c.NoPanic(what+" SolveVector("+bk+")", func() { got = readV(s.SolveVector(bv)) })
	judge("SolveVector("+bk+")", got)
	B := newT(n, c.Range(1, 3))
	col := c.Intn(B.c)
	for i := 0; i < n; i++ {
		for j := 0; j < B.c; j++ {
			B.set(i, j, c.Sym())
		}
		B.set(i, col, b[i])
	}
	bm, brep := c.anyMat(B)
	var X *T
	c.NoPanic(what+" SolveMatrix("+brep+")", func() { X = read(s.SolveMatrix(bm)) })
	c.Check(X.r == n && X.c == B.c, "%s: solution is %dx%d", what, X.r, X.c)
	judge(fmt.Sprintf("SolveMatrix(%s) column %d of %d", brep, col, B.c), X.col(col))
}

// ================================================================ S02

// refusesAll: a solver of a singular matrix refuses every request.
func (c *Ctx) refusesAll(what string, s lin.DecompositionSolver, n int) {
	b, bk := c.anyVec(c.rhs(n, 1).a)
	c.RefusedP(what+": SolveVector("+bk+") on a singular matrix", func() { s.SolveVector(b) })
	w := c.width()
	B, brep := c.anyMat(c.rhs(n, w))
	c.RefusedP(fmt.Sprintf("%s: SolveMatrix(%s, %d columns) on a singular matrix", what, brep, w), func() { s.SolveMatrix(B) })
	c.RefusedP(what+": Inverse of a singular matrix", func() { s.Inverse() })
	c.Count("refused")
}

func (c *Ctx) solvesAll(what string, s lin.DecompositionSolver, n int) {
	b, bk := c.anyVec(c.rhs(n, 1).a)
	c.NoPanic(what+": SolveVector("+bk+")", func() { s.SolveVector(b) })
	B, brep := c.anyMat(c.rhs(n, 2))
	c.NoPanic(what+": SolveMatrix("+brep+")", func() { s.SolveMatrix(B) })
	c.NoPanic(what+": Inverse", func() { s.Inverse() })
	c.checks += 3
	c.Count("solved")
}

// exactlySingular builds a matrix whose singularity every elimination sees.
func (c *Ctx) exactlySingular(n int) (*T, string, int) {
	t := c.table(n, n, c.kind(vInt, vReal))
	for i := 0; i < n; i++ {
		t.set(i, i, t.at(i, i)+float64(3+c.Intn(20)))
	}
	k := c.Intn(n)
	l := (k + 1 + c.Intn(n)) % n
	if n > 1 && l == k {
		l = (k + 1) % n
	}
	mode := c.Intn(6)
	if n == 1 {
		mode = pick(c.Rng, 0, 1, 4)
	}
	name := ""
	switch mode {
	case 0:
		name = "zero column"
		for i := 0; i < n; i++ {
			t.set(i, k, 0)
		}
	case 1:
		name = "zero row"
		for i := 0; i < n; i++ {
			t.set(k, i, 0)
		}
	case 2:
		name = "repeated row"
		for i := 0; i < n; i++ {
			t.set(k, i, t.at(l, i))
		}
	case 3:
		name = "repeated column"
		for i := 0; i < n; i++ {
			t.set(i, k, t.at(i, l))
		}
	case 4:
		name = "zero matrix"
		t = newT(n, n)
	case 5:
		name = "low-rank integers"
		r := c.Range(1, n-1)
		t = c.table(n, r, vInt).mul(c.table(r, n, vInt))
	}
	c.fpT(t)
	return t, fmt.Sprintf("%s, order %d", name, n), mode
}

func s02sing(c *Ctx) {
	n := c.decDim(58)
	t, name, mode := c.exactlySingular(n)
	kind := pick(c.Rng, "LU", "QR", "RRQR", "SVD", "Eigen")
	scale := t.max()
	if scale == 0 {
		scale = 1
	}
	if kind == "Eigen" { // keep to the symmetric solver's domain
		if mode == 0 || mode == 1 {
			k := -1
			for i := 0; i < n; i++ {
				if norm2(t.col(i)) == 0 || norm2(t.row(i)) == 0 {
					k = i
				}
			}
			t = t.sym()
			for i := 0; i < n; i++ {
				t.set(i, k, 0)
				t.set(k, i, 0)
			}
		} else if mode != 4 {
			r := c.Range(1, n-1)
			q := c.randOrth(n)
			e := make([]float64, n)
			for i := 0; i < r; i++ {
				e[i] = (1 + 3*c.Float()) * pick(c.Rng, 1.0, -1.0)
			}
			t = q.mul(diagT(e)).mul(q.tr()).sym()
			name = fmt.Sprintf("rank %d symmetric, order %d", r, n)
		}
		c.fpT(t)
	}
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of %s (%s)", kind, name, rep)
	c.Notef("%s", what)
	var s lin.DecompositionSolver
	switch kind {
	case "LU":
		thr := 1e-11
		if mode == 3 || mode == 5 || mode == 2 && n > 8 { // the pivot is only zero up to rounding
			thr = 100 * float64(n*n) * eps * scale * float64(n)
		}
		if thr == 1e-11 && c.Chance(0.7) {
			d, err := lin.NewLUDecomposition(m)
			c.must("LU", err)
			s = d.Solver()
		} else {
			d, err := lin.NewLUDecompositionWithThreshold(m, thr)
			c.must("LU", err)
			s = d.Solver()
		}
	case "QR", "RRQR":
		thr := 100 * float64(n*n) * eps * scale
		if mode == 4 || (mode == 0 && kind == "QR") {
			thr = 0
		}
		if kind == "QR" {
			if mode != 0 && mode != 4 && n > 1 {
				// without pivoting a deficient matrix need not show a small diagonal entry
				// unless the last column depends on the others; put the dependency there
				r := c.Range(1, n-1)
				f := c.table(n, n, vReal)
				for i := 0; i < n; i++ {
					f.set(i, i, f.at(i, i)+float64(3*n))
					f.set(i, r, f.at(i, 0))
				}
				t = f
				scale = t.max()
				thr = 100 * float64(n*n) * eps * scale
				m, rep = c.anyMat(t)
				what = fmt.Sprintf("QR of a repeated column %d, order %d (%s)", r, n, rep)
			}
			d, err := lin.NewQRDecompositionWithThreshold(m, thr)
			c.must("QR", err)
			s = d.Solver()
		} else {
			d, err := lin.NewRRQRDecompositionWithThreshold(m, thr)
			c.must("RRQR", err)
			s = d.Solver()
		}
	default:
		s = c.solver(kind, m)
	}
	c.Check(!s.IsNonSingular(), "%s: singular matrix reported non-singular", what)
	c.Count("singular " + kind)
	if kind == "SVD" {
		// documented to give the pseudo-inverse instead
		c.NoPanic(what+" Inverse", func() { s.Inverse() })
		return
	}
	c.refusesAll(what, s, n)
}

// the criterion itself, at its boundary
func s02edge(c *Ctx) {
	kind := pick(c.Rng, "LU", "QR", "RRQR", "Eigen", "SVD")
	n := c.Range(1, 14)
	if c.Chance(0.1) {
		n = c.Range(15, 55)
	}
	what := fmt.Sprintf("%s order %d", kind, n)
	var s lin.DecompositionSolver
	want := false
	if c.Chance(0.25) && (kind == "LU" || kind == "QR" || kind == "RRQR") { // the default thresholds, 1e-11 and 0
		e := make([]float64, n)
		for i := range e {
			e[i] = float64(c.Range(1, 9)) * pick(c.Rng, 1.0, -1.0)
		}
		i := c.Intn(n)
		if kind == "LU" {
			e[i] = pick(c.Rng, 1.01e-11, 1e-9, 0.99e-11, 1e-15, 0, -1.01e-11, -0.99e-11)
			want = math.Abs(e[i]) > 1e-11
		} else {
			e[i] = pick(c.Rng, 1e-11, 1e-40, -1e-120, 0)
			want = e[i] != 0
		}
		t := diagT(e)
		if kind == "LU" || c.Bool() { // whatever the order
			t = c.randPermT(n).mul(t)
		}
		if kind != "LU" {
			t = t.mul(c.randPermT(n))
		}
		c.fpT(t)
		m, rep := c.anyMat(t)
		what = fmt.Sprintf("%s with the default threshold of a %s matrix with one entry per row, %v", kind, rep, e)
		c.Notef("%s", what)
		var err error
		switch kind {
		case "LU":
			var d *lin.LUDecomposition
			d, err = lin.NewLUDecomposition(m)
			c.must("LU", err)
			s = d.Solver()
		case "QR":
			var d *lin.QRDecomposition
			d, err = lin.NewQRDecomposition(m)
			c.must("QR", err)
			s = d.Solver()
		default:
			var d *lin.RRQRDecomposition
			d, err = lin.NewRRQRDecomposition(m)
			c.must("RRQR", err)
			s = d.Solver()
		}
		c.Count("default thresholds")
		kind = "default"
	}
	switch kind {
	case "default":
	case "LU":
		t := c.wellCond("LU", n, n)
		m, _ := c.anyMat(t)
		d, err := lin.NewLUDecompositionWithThreshold(m, 0)
		c.must("LU", err)
		if isNil(d.U()) {
			c.Failf("%s: well conditioned matrix is singular for threshold 0", what)
		}
		u := read(d.U())
		min := math.Inf(1)
		for i := 0; i < n; i++ {
			min = math.Min(min, math.Abs(u.at(i, i)))
		}
		thr := min
		want = true
		switch c.Intn(3) {
		case 0:
			thr, want = math.Nextafter(min, math.Inf(1)), false
		case 1:
			thr = min / 2
		}
		d2, err := lin.NewLUDecompositionWithThreshold(m, thr)
		c.must("LU", err)
		what = fmt.Sprintf("%s smallest pivot %v threshold %v", what, min, thr)
		s = d2.Solver()
	case "QR", "RRQR":
		t := c.wellCond(kind, n, n)
		m, _ := c.anyMat(t)
		mk := func(thr float64) (lin.DecompositionSolver, lin.RealMatrix) {
			if kind == "QR" {
				d, err := lin.NewQRDecompositionWithThreshold(m, thr)
				c.must("QR", err)
				return d.Solver(), d.R()
			}
			d, err := lin.NewRRQRDecompositionWithThreshold(m, thr)
			c.must("RRQR", err)
			return d.Solver(), d.R()
		}
		_, r := mk(0)
		rt := read(r)
		min := math.Inf(1)
		for i := 0; i < n; i++ {
			min = math.Min(min, math.Abs(rt.at(i, i)))
		}
		thr := min
		want = false
		switch c.Intn(3) {
		case 0:
			thr, want = math.Nextafter(min, 0), true
		case 1:
			thr = min * 1.5
		}
		s, _ = mk(thr)
		what = fmt.Sprintf("%s smallest diagonal entry of R %v threshold %v", what, min, thr)
	case "Eigen":
		// the smallest eigenvalue relative to the largest, clear of the criterion's 1e-12
		n = c.Range(2, 12)
		ratio := math.Pow(10, -9*c.Float())
		want = true
		if c.Bool() {
			ratio = pick(c.Rng, 0, 1e-14, 3e-14, 1e-13)
			want = false
		}
		if c.Chance(0.3) && want {
			ratio = 1e-11
		}
		e := make([]float64, n)
		f := math.Ldexp(1, c.Range(-20, 20))
		for i := range e {
			e[i] = f * (1 + float64(i)/float64(n)) * pick(c.Rng, 1.0, -1.0)
		}
		e[0] = 2 * f * pick(c.Rng, 1.0, -1.0)
		k := c.Range(1, n-1)
		e[k] = ratio * 2 * f
		var t *T
		if ratio < 1e-10 { // exactly representable spectra only
			t = c.randPermT(n)
			t = t.mul(diagT(e)).mul(t.tr())
		} else {
			q := c.randOrth(n)
			t = q.mul(diagT(e)).mul(q.tr()).sym()
		}
		c.fpT(t)
		m, _ := c.anyMat(t)
		s = c.solver(kind, m)
		what = fmt.Sprintf("%s smallest over largest eigenvalue %v", what, ratio)
	case "SVD":
		n = c.Range(2, 12)
		sv := c.svals(n, 1e3)
		sv[0] = 1
		want = c.Bool()
		if !want {
			sv[c.Range(1, n-1)] = pick(c.Rng, 0, 1e-18)
		}
		t := c.withSV(n, n, sv).scale(math.Ldexp(1, c.Range(-100, 100)))
		m, _ := c.anyMat(t)
		s = c.solver(kind, m)
		what = fmt.Sprintf("%s spectrum %v", what, sv)
	}
	c.Notef("%s", what)
	c.Check(s.IsNonSingular() == want, "%s: non-singular is %v", what, s.IsNonSingular())
	c.Count(fmt.Sprintf("boundary %s %v", kind, want))
	if want {
		c.solvesAll(what, s, n)
	} else if kind != "SVD" {
		c.refusesAll(what, s, n)
	}
}

// ================================================================ S03

var lsKinds = []string{"QR", "RRQR", "SVD"}

func s03tall(c *Ctx) {
	kind := pick(c.Rng, lsKinds...)
	n := c.decDim(40)
	m := n + c.Range(1, 8)
	if c.Chance(0.2) {
		m = n + c.Range(9, 60)
	}
	t := c.wellCond(kind, m, n)
	condHint := 1e3
	if c.Chance(0.25) {
		condHint = 1e5
		sv := c.svals(n, condHint)
		t = c.withSV(m, n, sv)
	}
	g := t.tr().mul(t)
	gi, ok := g.inv()
	if !ok {
		c.Trivial()
		return
	}
	cond := math.Sqrt(g.fro() * gi.fro())
	if !(cond < 3e6) {
		c.Trivial()
		return
	}
	t, _ = c.rescale(t, 400)
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of tall %dx%d (%s), condition %.3g", kind, m, n, rep, cond)
	c.Notef("%s", what)
	c.Count("tall " + kind)
	s := c.solver(kind, a)
	if kind != "SVD" {
		c.Check(s.IsNonSingular(), "%s: full column rank reported singular", what)
	}
	normA := t.fro()
	check := func(x, b []float64, how string) {
		c.Check(len(x) == n, "%s %s: solution of dimension %d", what, how, len(x))
		r := colT(b).sub(t.mul(colT(x)))
		k := 1.0
		if kind == "SVD" {
			k = 1 + cond/5
		}
		c.Tol("normal equations "+kind, t.tr().mul(r).fro(), 8*float64(m+5)*eps*k*normA*(norm2(b)+normA*norm2(x)), "%s %s: residual of the solution %v for %v is not orthogonal to the columns", what, how, x, b)
	}
	var xtrue []float64
	b := c.rhs(m, 1).a
	if c.Chance(0.4) { // consistent
		xtrue = make([]float64, n)
		for i := range xtrue {
			xtrue[i] = c.Sym()
		}
		b = t.mul(colT(xtrue)).a
	}
	bv, bk := c.anyVec(b)
	var x []float64
	c.NoPanic(what+" SolveVector("+bk+")", func() { x = readV(s.SolveVector(bv)) })
	check(x, b, "SolveVector")
	if xtrue != nil {
		c.Tol("consistent", colT(x).sub(colT(xtrue)).fro(), 8*float64(m+5)*eps*cond*norm2(xtrue), "%s: consistent system, solution %v, want %v", what, x, xtrue)
		c.Count("consistent")
	}
	w := c.width()
	B := c.rhs(m, w)
	bm, brep := c.anyMat(B)
	var X lin.RealMatrix
	c.NoPanic(what+" SolveMatrix("+brep+")", func() { X = s.SolveMatrix(bm) })
	c.Check(X.RowDimension() == n && X.ColumnDimension() == w, "%s: solution of %d columns is %dx%d", what, w, X.RowDimension(), X.ColumnDimension())
	xt := read(X)
	for j := 0; j < w; j++ {
		check(xt.col(j), B.col(j), fmt.Sprintf("SolveMatrix column %d of %d (%s)", j, w, brep))
	}
}

func s03wide(c *Ctx) {
	kind := pick(c.Rng, lsKinds...)
	m := c.decDim(40)
	n := m + c.Range(1, 8)
	if c.Chance(0.2) {
		n = m + c.Range(9, 60)
	}
	var t, null *T
	cond := 0.0
	if kind == "QR" { // the leading block must be well conditioned
		lead := c.wellCond("LU", m, m)
		t = newT(m, n)
		for i := 0; i < m; i++ {
			for j := 0; j < n; j++ {
				if j < m {
					t.set(i, j, lead.at(i, j))
				} else {
					t.set(i, j, lead.max()*c.Sym())
				}
			}
		}
		c.fpT(t)
		cond = lead.cond()
		if !(cond < 1e5) {
			c.Trivial()
			return
		}
		cond *= float64(n - m + 1)
	} else {
		sv := c.svals(m, pick(c.Rng, 30, 30, 1e4))
		u, v := c.randOrth(m), c.randOrth(n)
		d := newT(m, n)
		min := 1.0
		for i, x := range sv {
			d.set(i, i, x)
			min = math.Min(min, x)
		}
		sc := math.Ldexp(1, c.Range(-12, 12))
		t = u.mul(d).mul(v.tr()).scale(sc)
		c.fpT(t)
		null = v.part(0, n-1, m, n-1)
		cond = math.Sqrt(float64(m)) / min
		if kind == "RRQR" {
			cond *= float64(n) // the pivoted block may be worse than A
		}
	}
	t, _ = c.rescale(t, 400)
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of wide %dx%d (%s), condition %.3g", kind, m, n, rep, cond)
	c.Notef("%s", what)
	c.Count("wide " + kind)
	s := c.solver(kind, a)
	normA := t.fro()
	check := func(x, b []float64, how string) {
		c.Check(len(x) == n, "%s %s: solution of dimension %d", what, how, len(x))
		r := colT(b).sub(t.mul(colT(x)))
		k := 1.0
		if kind == "SVD" {
			k = 1 + cond/5
		}
		c.Tol("wide residual "+kind, r.fro(), 8*float64(n+5)*eps*k*(norm2(b)+normA*norm2(x)), "%s %s: solution %v for %v does not satisfy the system", what, how, x, b)
		if kind == "SVD" {
			c.Tol("least norm", null.tr().mul(colT(x)).fro(), 12*float64(n+5)*eps*cond*cond*norm2(x), "%s %s: solution %v for %v has a component in the null space", what, how, x, b)
			c.Count("least norm")
		}
	}
	b := c.rhs(m, 1).a
	bv, bk := c.anyVec(b)
	var x []float64
	c.NoPanic(what+" SolveVector("+bk+")", func() { x = readV(s.SolveVector(bv)) })
	check(x, b, "SolveVector")
	w := c.width()
	B := c.rhs(m, w)
	bm, brep := c.anyMat(B)
	var X lin.RealMatrix
	c.NoPanic(what+" SolveMatrix("+brep+")", func() { X = s.SolveMatrix(bm) })
	c.Check(X.RowDimension() == n && X.ColumnDimension() == w, "%s: solution of %d columns is %dx%d", what, w, X.RowDimension(), X.ColumnDimension())
	xt := read(X)
	for j := 0; j < w; j++ {
		check(xt.col(j), B.col(j), fmt.Sprintf("SolveMatrix column %d of %d (%s)", j, w, brep))
	}
}

// ================================================================ S04

func s04(c *Ctx) {
	m, n := c.decDim(34), c.decDim(34)
	if c.Chance(0.3) {
		n = m
	}
	p := m
	if n < p {
		p = n
	}
	r := p
	if c.Chance(0.5) {
		r = c.Range(0, p)
	}
	sv := make([]float64, p)
	min := 1.0
	spread := pick(c.Rng, 5.0, 100, 1e4)
	for i := 0; i < r; i++ {
		sv[i] = math.Pow(spread, -c.Float())
		min = math.Min(min, sv[i])
	}
	var t *T
	name := "constructed"
	if c.Chance(0.2) && r > 0 { // integer factors
		f, g := c.table(m, r, vInt), c.table(r, n, vInt)
		for i := 0; i < r; i++ {
			f.set(i, i, f.at(i, i)+float64(12*m+3))
			g.set(i, i, g.at(i, i)-float64(12*n+3))
		}
		t = f.mul(g)
		min = 1e-3 * t.fro()
		name = "integer factors"
		c.fpT(t)
	} else if c.Chance(0.1) { // permutation-like
		t = newT(m, n)
		pr, pc := c.Perm(m), c.Perm(n)
		for i := 0; i < r; i++ {
			t.set(pr[i], pc[i], sv[i])
		}
		name = "scattered"
		c.fpT(t)
	} else {
		t = c.withSV(m, n, sv)
	}
	e := 0
	if c.Chance(0.3) {
		e = pick(c.Rng, c.Range(-330, 330), c.Range(-400, 400))
	}
	f := math.Ldexp(1, e)
	t = t.scale(f)
	min *= f
	A, rep := c.anyMat(t)
	what := fmt.Sprintf("%s %dx%d of rank %d times 2^%d (%s)", name, m, n, r, e, rep)
	c.Notef("%s", what)
	s := c.solver("SVD", A)
	var I lin.RealMatrix
	c.NoPanic(what+" Inverse", func() { I = s.Inverse() })
	c.Check(I.RowDimension() == n && I.ColumnDimension() == m, "%s: pseudo-inverse is %dx%d", what, I.RowDimension(), I.ColumnDimension())
	x := read(I)
	switch {
	case r == 0:
		c.Count("zero matrix")
		for _, v := range x.a {
			c.Check(v == 0, "%s: pseudo-inverse of a zero matrix holds %v", what, v)
		}
		return
	case r < p:
		c.Count("rank-deficient")
	case m > n:
		c.Count("tall")
	case m < n:
		c.Count("wide")
	default:
		c.Count("square")
	}
	na, nx := t.fro(), x.fro()
	cond := na / min
	if nx*na > 4*cond {
		cond = nx * na
	}
	c.Check(nx*min < 4*math.Sqrt(float64(r))*1.001 || name == "integer factors", "%s: pseudo-inverse of norm %v, smallest singular value %v", what, nx, min)
	tol := 12 * float64(m+n) * eps * cond
	ax, xa := t.mul(x), x.mul(t)
	c.Tol("AXA=A", ax.mul(t).sub(t).fro(), tol*na, "%s: A X A differs from A", what)
	c.Tol("XAX=X", xa.mul(x).sub(x).fro(), tol*nx*math.Sqrt(float64(p)), "%s: X A X differs from X", what)
	c.Tol("AX symmetric", ax.sub(ax.tr()).fro(), tol, "%s: A X is not symmetric", what)
	c.Tol("XA symmetric", xa.sub(xa.tr()).fro(), tol, "%s: X A is not symmetric", what)
	// solving is multiplying
	b := c.rhs(m, 1)
	bv, _ := c.anyVec(b.a)
	got := readV(s.SolveVector(bv))
	c.Check(len(got) == n, "%s: solution of dimension %d", what, len(got))
	c.Near("solve = pinv b", what+" SolveVector", colT(got), x.mul(b), x.abs().mul(b.abs()), 4*float64(m+2)*eps)
	B := c.rhs(m, c.width())
	bm, _ := c.anyMat(B)
	X := s.SolveMatrix(bm)
	c.Check(X.RowDimension() == n && X.ColumnDimension() == B.c, "%s: solution is %dx%d", what, X.RowDimension(), X.ColumnDimension())
	c.Near("solve = pinv B", what+" SolveMatrix", read(X), x.mul(B), x.abs().mul(B.abs()), 4*float64(m+2)*eps)
	if r == n && m >= n && e > -60 && e < 60 {
		for _, k := range []string{"QR", "RRQR"} {
			sq := c.solver(k, A)
			c.NoPanic(what+" "+k+" Inverse", func() { I = sq.Inverse() })
			c.Check(I.RowDimension() == n && I.ColumnDimension() == m, "%s: %s inverse is %dx%d", what, k, I.RowDimension(), I.ColumnDimension())
			c.Tol("QR inverse", read(I).sub(x).fro(), tol*2*nx, "%s: inverse from %s differs from the SVD pseudo-inverse", what, k)
			c.Count("full column rank " + k)
		}
	}
}

// ================================================================ S05

// others draws which of n entries differ: all, exactly one, all but one or any.
func (c *Ctx) others(n int) func(i int) bool {
	k, mode := c.Intn(n), c.Intn(4)
	set := map[int]bool{}
	if mode == 3 {
		for i := 0; i < n; i++ {
			set[i] = c.Bool()
		}
	}
	return func(i int) bool {
		switch mode {
		case 0:
			return true
		case 1:
			return i == k
		case 2:
			return i != k
		}
		return set[i]
	}
}

func s05(c *Ctx) {
	kind := pick(c.Rng, solverKinds...)
	n := c.decDim(56)
	rows := n
	if (kind == "QR" || kind == "RRQR" || kind == "SVD") && c.Chance(0.3) {
		rows = n + c.Range(1, 7)
	}
	t := c.wellCond(kind, rows, n)
	cond := 0.0
	if rows == n {
		cond = t.cond()
	} else {
		g := t.tr().mul(t)
		cond = g.cond() // squared: least squares
	}
	if !(cond < 1e6) {
		c.Trivial()
		return
	}
	if c.scaled {
		if kind == "Eigen" && !t.nearlySymmetric() {
			c.Trivial()
			return
		}
		t, _ = c.rescale(t, 400)
	}
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of %dx%d (%s), condition %.3g", kind, rows, n, rep, cond)
	c.Notef("%s", what)
	c.Count(kind)
	s := c.solver(kind, m)
	w := c.width()
	B := c.rhs(rows, w)
	if c.Chance(0.1) && w == rows {
		B = diagT(c.posSlice(rows))
	}
	tol := 10 * float64(rows+5) * eps * cond * amp(kind)
	// a right-hand side far larger than its solution leaves that much rounding behind
	slack := func(j int) float64 {
		if rows == n {
			return 0
		}
		return tol * math.Sqrt(float64(n)) * norm2(B.col(j)) / t.fro()
	}
	var first *T
	var inv *T
	var firstReps []string
	seenM := map[int]*T{}
	seenV := map[string][]float64{}
	steps := c.Range(4, 12)
	for k := 0; k < steps; k++ {
		switch c.Intn(5) {
		case 4: // columns are strangers: what one holds never reaches another
			if first == nil || w < 2 {
				continue
			}
			S := B.clone()
			z := c.Intn(w)
			bad := pick(c.Rng, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, 0)
			for i := 0; i < rows; i++ {
				if c.Bool() || i == 0 {
					S.set(i, z, bad)
				}
			}
			bm := c.build(S, c.rep(S, true, false))
			var X *T
			c.NoPanic(what+" SolveMatrix", func() { X = read(s.SolveMatrix(bm)) })
			c.Check(X.r == n && X.c == w, "%s: solution is %dx%d", what, X.r, X.c)
			for j := 0; j < w; j++ {
				if j != z {
					c.Tol("beside a stranger", norm2(colT(X.col(j)).sub(colT(first.col(j))).a), tol*norm2(first.col(j))+slack(j), "%s: column %d of %d solved differently when column %d holds %v", what, j, w, z, bad)
				}
			}
			c.Count("beside hostile columns")
		case 0: // a vector
			j := c.Intn(w)
			bv, bk := c.anyVec(B.col(j))
			if c.Chance(0.3) {
				// the same object has held, and been solved for, something else before:
				// all entries differed, or one, or some
				other := c.others(rows)
				for i := 0; i < rows; i++ {
					if other(i) {
						bv.SetEntry(i, c.Sym())
					}
				}
				c.NoPanic(what+" SolveVector", func() { s.SolveVector(bv) })
				for i := 0; i < rows; i++ {
					bv.SetEntry(i, B.at(i, j))
				}
				if f, ok := bv.(*FVec); ok {
					f.writes = 0
				}
				c.Count("right-hand side objects reused")
			}
			var x []float64
			c.NoPanic(what+" SolveVector", func() { x = readV(s.SolveVector(bv)) })
			c.EqS(fmt.Sprintf("%s: right-hand side after SolveVector(%s)", what, bk), readV(bv), B.col(j))
			if f, ok := bv.(*FVec); ok {
				c.Check(f.writes == 0, "%s: SolveVector wrote to its right-hand side", what)
			}
			key := fmt.Sprint(bk, j)
			if p, ok := seenV[key]; ok {
				c.Check(sameBits(p, x), "%s: SolveVector of column %d (%s) repeated: %s", what, j, bk, firstDiff(p, x))
				c.Count("repeated")
			}
			seenV[key] = x
			if first != nil {
				c.Check(len(x) == n, "%s: solution of dimension %d", what, len(x))
				fc := first.col(j)
				c.Tol("vector = column", colT(x).sub(colT(fc)).fro(), tol*math.Max(norm2(fc), norm2(x))+slack(j), "%s: column %d of %d solved as a vector (%s) gives %v, as part of a matrix (%v) %v", what, j, w, bk, x, firstReps, fc)
			}
		case 1: // the matrix, in some storage
			r := c.rep(B, true, true)
			bm := c.build(B, r)
			if _, diag := bm.(*lin.DiagonalMatrix); c.Chance(0.3) {
				write := func(f func(i, j int) float64) {
					for i := 0; i < rows; i++ {
						for j := 0; j < w; j++ {
							if !diag || i == j {
								bm.SetEntry(i, j, f(i, j))
							}
						}
					}
				}
				other := c.others(rows * w)
				if diag {
					d := c.others(rows)
					other = func(k int) bool { return d(k / w) }
				}
				write(func(i, j int) float64 {
					if other(i*w + j) {
						return c.Sym()
					}
					return B.at(i, j)
				})
				c.NoPanic(what+" SolveMatrix", func() { s.SolveMatrix(bm) })
				write(B.at)
				if f, ok := bm.(*FMat); ok {
					f.writes = 0
				}
				c.Count("right-hand side objects reused")
			}
			var X *T
			c.NoPanic(what+" SolveMatrix", func() { X = read(s.SolveMatrix(bm)) })
			c.EqM(fmt.Sprintf("%s: right-hand side after SolveMatrix(%s)", what, rName[r]), bm, B)
			if f, ok := bm.(*FMat); ok {
				c.Check(f.writes == 0, "%s: SolveMatrix wrote to its right-hand side", what)
			}
			c.Check(X.r == n && X.c == w, "%s: solution is %dx%d", what, X.r, X.c)
			if p, ok := seenM[r]; ok {
				c.Check(sameBits(p.a, X.a), "%s: SolveMatrix (%s) repeated: %s", what, rName[r], firstDiff(p.a, X.a))
				c.Count("repeated")
			}
			seenM[r] = X
			if first == nil {
				first = X
				firstReps = append(firstReps, rName[r])
			} else {
				for j := 0; j < w; j++ {
					c.Tol("storage of B", norm2(colT(X.col(j)).sub(colT(first.col(j))).a), tol*norm2(first.col(j))+slack(j), "%s: column %d of %d solved from %s differs from that solved from %v", what, j, w, rName[r], firstReps)
				}
			}
		case 2: // some of its columns
			if first == nil {
				continue
			}
			perm := c.Perm(w)[:c.Range(1, w)]
			S := newT(rows, len(perm))
			for j, q := range perm {
				for i := 0; i < rows; i++ {
					S.set(i, j, B.at(i, q))
				}
			}
			bm, brep := c.anyMat(S)
			var X *T
			c.NoPanic(what+" SolveMatrix", func() { X = read(s.SolveMatrix(bm)) })
			c.Check(X.r == n && X.c == len(perm), "%s: solution is %dx%d", what, X.r, X.c)
			for j, q := range perm {
				c.Tol("subset of B", norm2(colT(X.col(j)).sub(colT(first.col(q))).a), tol*norm2(first.col(q))+slack(q), "%s: column %d alone among %v (%s) solved differently from among all %d", what, q, perm, brep, w)
			}
			c.Count("subsets")
		case 3:
			var I *T
			c.NoPanic(what+" Inverse", func() { I = read(s.Inverse()) })
			c.Check(I.r == n && I.c == rows, "%s: inverse is %dx%d", what, I.r, I.c)
			if inv != nil {
				c.Check(sameBits(I.a, inv.a), "%s: Inverse repeated: %s", what, firstDiff(I.a, inv.a))
				c.Count("repeated")
			}
			inv = I
		}
		if inv != nil && first != nil && (k == steps-1 || c.Chance(0.3)) {
			want := inv.mul(B)
			bound := inv.fro()
			for j := 0; j < w; j++ {
				c.Tol("inverse", norm2(colT(want.col(j)).sub(colT(first.col(j))).a), tol*(bound*norm2(B.col(j))), "%s: column %d of %d: inverse times right-hand side differs from the solution", what, j, w)
			}
			c.Count("compared with the inverse")
		}
	}
	c.Check(s.IsNonSingular() || (kind == "SVD" && rows != n), "%s: reported singular after use", what)
}

func init() {
	register(&Prop{ID: "S01",
		Rule:      "forward error against a known solution, residuals (backward-stable bound for LU, Cholesky, QR and pivoted QR), A inv(A) and inv(A) A against the identity, pairwise agreement of all decompositions; bounds are order times eps times the condition number computed independently",
		Technique: "runtime monitoring: residual and known-solution oracle over generated systems",
		Level:     "orders 1..62, condition numbers to 1e6, right-hand sides up to 157 columns in every storage",
		WL:        []Workload{{Name: "systems", Quick: 18000, Thorough: 360000, Run: s01}, {Name: "agreement", Quick: 7500, Thorough: 150000, Run: s01agree}, {Name: "apart", Quick: 9000, Thorough: 180000, Run: s01apart}, {Name: "large", Quick: 24, Thorough: 600, Run: large(s01)}, {Name: "faint", Quick: 1500, Thorough: 30000, Run: faint(s01)}, {Name: "scale", Quick: 2500, Thorough: 50000, Run: extreme(s01)}},
		Need:      []string{"LU", "QR", "RRQR", "SVD", "Eigen", "Cholesky", "ill conditioned", "apart LU", "apart QR", "apart SVD", "apart Eigen", "apart Cholesky", "extreme scales"}})
	register(&Prop{ID: "S02",
		Rule:      "IsNonSingular compared with the documented criterion evaluated on the reported factors, one ulp either side of thresholds; exactly singular inputs must be recognised; a singular solver must refuse vectors, matrices and inversion with the library's error, a regular one must answer",
		Technique: "runtime monitoring: refusal oracle with boundary-value workloads",
		Level:     "orders 1..58; zero, repeated and dependent rows and columns; thresholds at a pivot and one ulp around it",
		WL:        []Workload{{Name: "singular", Quick: 48000, Thorough: 960000, Run: s02sing}, {Name: "boundary", Quick: 48000, Thorough: 960000, Run: s02edge}},
		Need:      []string{"refused", "solved", "singular LU", "singular QR", "singular RRQR", "singular SVD", "singular Eigen"}})
	register(&Prop{ID: "S03",
		Rule:      "normal-equations residual of every least-squares solution, equality residual of every wide solution, null-space component of the SVD solution against a constructed null space",
		Technique: "runtime monitoring: optimality oracle (normal equations, known null space) over generated systems",
		Level:     "shapes up to 100x40 and 40x100, condition numbers to 1e5",
		WL:        []Workload{{Name: "tall", Quick: 12000, Thorough: 240000, Run: s03tall}, {Name: "wide", Quick: 12000, Thorough: 240000, Run: s03wide}, {Name: "large", Quick: 24, Thorough: 600, Run: large(s03tall)}, {Name: "faint", Quick: 1500, Thorough: 30000, Run: faint(s03tall)}, {Name: "faint wide", Quick: 1500, Thorough: 30000, Run: faint(s03wide)}, {Name: "scale", Quick: 2000, Thorough: 40000, Run: extreme(s03tall)}, {Name: "scale wide", Quick: 2000, Thorough: 40000, Run: extreme(s03wide)}},
		Need:      []string{"tall QR", "tall RRQR", "tall SVD", "wide QR", "wide RRQR", "wide SVD", "consistent", "least norm", "extreme scales"}})
	register(&Prop{ID: "S04",
		Rule:      "the four Penrose equations, shapes, norm against the smallest constructed singular value, solving against multiplying, QR inverses against the SVD's",
		Technique: "runtime monitoring: Penrose-equation oracle over matrices of constructed rank",
		Level:     "shapes 1..34 by 1..34, every rank, scales 2^-330..2^330",
		WL:        []Workload{{Name: "pinv", Quick: 30000, Thorough: 600000, Run: s04}, {Name: "large", Quick: 24, Thorough: 600, Run: large(s04)}, {Name: "faint", Quick: 2500, Thorough: 50000, Run: faint(s04)}},
		Need:      []string{"rank-deficient", "tall", "wide", "square", "zero matrix", "full column rank QR", "full column rank RRQR"}})
	register(&Prop{ID: "S05",
		Rule:      "histories of vector, matrix, column-subset and inverse requests on one solver: columns agree with vectors, storages and subsets with one another, the inverse with the solutions; repeated requests are bit-identical and right-hand sides untouched (foreign ones count writes)",
		Technique: "runtime monitoring: differential oracle over histories of solver calls",
		Level:     "orders 1..56, right-hand sides up to 157 columns, 4..12 calls per solver",
		WL:        []Workload{{Name: "histories", Quick: 7800, Thorough: 156000, Run: s05}, {Name: "large", Quick: 24, Thorough: 600, Run: large(s05)}, {Name: "faint", Quick: 1000, Thorough: 20000, Run: faint(s05)}, {Name: "scale", Quick: 1200, Thorough: 24000, Run: extreme(s05)}},
		Need:      []string{"LU", "QR", "RRQR", "SVD", "Eigen", "Cholesky", "repeated", "subsets", "compared with the inverse", "extreme scales"}})
}
