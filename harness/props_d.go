package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	lin "github.com/jtejido/linear"
)

// trans checks that b is exactly the transpose of a.
func (c *Ctx) trans(what string, a, b lin.RealMatrix) {
	if isNil(a) || isNil(b) {
		c.Failf("%s: nil factor", what)
	}
	c.EqT(what, read(b), read(a).tr())
}

// factor reads a factor and checks its shape and that it is finite.
func (c *Ctx) factor(what string, m lin.RealMatrix, r, k int) *T {
	if isNil(m) {
		c.Failf("%s is nil", what)
	}
	t := read(m)
	c.Check(t.r == r && t.c == k, "%s is %dx%d, want %dx%d", what, t.r, t.c, r, k)
	for i, v := range t.a {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			c.Failf("%s: entry (%d,%d) is %v", what, i/t.c, i%t.c, v)
		}
	}
	c.Count("factors checked")
	return t
}

func (c *Ctx) orthogonal(what string, t *T) {
	k := t.r
	c.Tol("orthogonality", orthErr(t), tolOrth*float64(k+5)*eps, "%s has columns that are not orthonormal (%dx%d)", what, t.r, t.c)
}

// lowerZero / upperZero: exact zeros on one side of the diagonal.
func (c *Ctx) zeroBelow(what string, t *T, off int, tol float64) {
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			if i-j > off && !(math.Abs(t.at(i, j)) <= tol) {
				c.Failf("%s: entry (%d,%d) is %v, want zero", what, i, j, t.at(i, j))
			}
		}
	}
	c.checks++
}
func (c *Ctx) zeroAbove(what string, t *T, off int) {
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			if j-i > off && t.at(i, j) != 0 {
				c.Failf("%s: entry (%d,%d) is %v, want zero", what, i, j, t.at(i, j))
			}
		}
	}
	c.checks++
}

// recon compares a reconstruction with the table, normwise.
func (c *Ctx) recon(name, what string, got, want *T, factor float64) {
	n := got.r
	if got.c > n {
		n = got.c
	}
	c.Tol(name, got.sub(want).fro(), factor*float64(n+5)*eps*want.fro(), "%s", what)
}

// permutation checks an exact permutation matrix and returns the column of each row's one.
func (c *Ctx) permutation(what string, t *T) []int {
	p := make([]int, t.r)
	used := make([]bool, t.r)
	for i := 0; i < t.r; i++ {
		k := -1
		for j := 0; j < t.c; j++ {
			switch t.at(i, j) {
			case 0:
			case 1:
				if k >= 0 {
					c.Failf("%s: row %d holds two ones", what, i)
				}
				k = j
			default:
				c.Failf("%s: entry (%d,%d) is %v", what, i, j, t.at(i, j))
			}
		}
		if k < 0 || used[k] {
			c.Failf("%s: row %d has no one of its own", what, i)
		}
		used[k] = true
		p[i] = k
	}
	c.checks++
	return p
}

func permSign(p []int) float64 {
	s := 1.0
	seen := make([]bool, len(p))
	for i := range p {
		l := 0
		for j := i; !seen[j]; j = p[j] {
			seen[j] = true
			l++
		}
		if l > 0 && l%2 == 0 {
			s = -s
		}
	}
	return s
}

const (
	tolOrth  = 20.0
	tolRecon = 20.0
)

// ================================================================ D01 LU

// slack allows for products that underflow.
func (c *Ctx) slack(b *T) *T {
	if c.faint {
		for i := range b.a {
			b.a[i] += 1e-270
		}
	}
	return b
}

func (c *Ctx) luCheck(t *T, lu *lin.LUDecomposition, what string) {
	n := t.r
	L := c.factor(what+" L", lu.L(), n, n)
	U := c.factor(what+" U", lu.U(), n, n)
	P := c.factor(what+" P", lu.P(), n, n)
	piv := lu.Pivot()
	p := c.permutation(what+" P", P)
	c.Check(len(piv) == n, "%s: %d pivots", what, len(piv))
	for i := range p {
		if p[i] != piv[i] {
			c.Failf("%s: P moves row %d to %d, the pivot order says %d", what, p[i], i, piv[i])
		}
	}
	c.zeroAbove(what+" L", L, 0)
	c.zeroBelow(what+" U", U, 0, 0)
	for i := 0; i < n; i++ {
		c.Check(L.at(i, i) == 1, "%s: L(%d,%d) is %v", what, i, i, L.at(i, i))
		for j := 0; j < i; j++ {
			if !(math.Abs(L.at(i, j)) <= 1+1e-10) {
				c.Failf("%s: L(%d,%d) is %v, larger than one", what, i, j, L.at(i, j))
			}
		}
	}
	pa := newT(n, n)
	for i := range p {
		copy(pa.a[i*n:(i+1)*n], t.a[p[i]*n:(p[i]+1)*n])
	}
	c.Near("PA=LU", what+" PA = LU", L.mul(U), pa, c.slack(L.abs().mul(U.abs())), 4*float64(n+4)*eps)
	det, lg := permSign(p), 0.0
	for i := 0; i < n; i++ {
		det *= U.at(i, i)
		lg += math.Log2(math.Abs(U.at(i, i)))
	}
	if math.Abs(lg) < 900 {
		c.Tol("determinant", math.Abs(lu.Determinant()-det), 4*float64(n+1)*eps*math.Abs(det)+1e-300, "%s: determinant %v, signed product of U's diagonal %v", what, lu.Determinant(), det)
	}
	c.Count("non-singular")
}

func (c *Ctx) luSingular(lu *lin.LUDecomposition, what string) {
	c.Check(isNil(lu.L()) && isNil(lu.U()) && isNil(lu.P()), "%s: singular, but has factors", what)
	c.Check(lu.Determinant() == 0, "%s: singular, but the determinant is %v", what, lu.Determinant())
	c.Count("singular")
}

func d01(c *Ctx) {
	n := c.decDim(60)
	var t *T
	name := ""
	switch c.Intn(8) {
	case 0:
		t, name = c.withSV(n, n, c.svals(n, pick(c.Rng, 10.0, 1e4, 1e8, 1e12))), "conditioned"
	case 1:
		t, name = c.square(n)
		for i := 0; i < n; i++ { // duplicated row
			a, b := c.Intn(n), c.Intn(n)
			copy(t.a[b*n:(b+1)*n], t.a[a*n:(a+1)*n])
			if i > 1 {
				break
			}
		}
		name += " duplicated rows"
	case 2: // permuted rows of a triangular matrix
		u := c.table(n, n, vReal)
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				u.set(i, j, 0)
			}
			u.set(i, i, c.Sym()*math.Ldexp(1, -c.Intn(30)))
		}
		t, name = c.randPermT(n).mul(u), "permuted triangle"
	default:
		t, name = c.square(n)
	}
	c.fpT(t)
	thr := pick(c.Rng, 1e-11, 1e-11, 1e-11, 1e-14, 1e-5, 0.1)
	if c.scaled {
		t, _ = c.rescale(t, 400)
		thr = pick(c.Rng, 1e-11, 0, 1e-14*t.max(), 1e-5*t.max())
	}
	m, rep := c.anyMat(t)
	var lu *lin.LUDecomposition
	var err error
	def := thr == 1e-11 && c.Chance(0.7)
	if def {
		lu, err = lin.NewLUDecomposition(m)
	} else {
		lu, err = lin.NewLUDecompositionWithThreshold(m, thr)
	}
	c.must("LU", err)
	what := fmt.Sprintf("%s as %s threshold %v default %v", name, rep, thr, def)
	c.Notef("%s", what)
	// the pivots, as found when no threshold stops the elimination
	l0, err := lin.NewLUDecompositionWithThreshold(m, 0)
	c.must("LU threshold 0", err)
	ns := lu.Solver().IsNonSingular()
	c.Check(ns == !isNil(lu.U()), "%s: non-singular is %v, U nil is %v", what, ns, isNil(lu.U()))
	if isNil(l0.U()) {
		c.Check(!ns, "%s: non-singular, though singular with threshold 0", what)
	} else {
		U := read(l0.U())
		want, minp := true, math.Inf(1)
		for i := 0; i < n && want; i++ {
			p := math.Abs(U.at(i, i))
			if p < minp {
				minp = p
			}
			if p < thr {
				want = false
			}
		}
		c.Check(ns == want, "%s: non-singular is %v although the smallest pivot met is %v", what, ns, minp)
		if want && minp > 0 {
			// exactly at the threshold, and just above it
			for _, q := range []float64{minp, math.Nextafter(minp, math.Inf(1))} {
				lq, err := lin.NewLUDecompositionWithThreshold(m, q)
				c.must("LU at pivot", err)
				c.Check(lq.Solver().IsNonSingular() == (q == minp), "%s: threshold %v and pivot %v: non-singular is %v", what, q, minp, q != minp)
				if q != minp {
					c.luSingular(lq, what)
				}
				c.Count("thresholds at a pivot")
			}
		}
	}
	if ns {
		c.luCheck(t, lu, what)
	} else {
		c.luSingular(lu, what)
	}
	// repeated
	c.EqM("input", m, t)
	dup := false
	// equal rows cancel only up to rounding, which small pivots before the last amplify
	visible := true
	if u := l0.U(); !isNil(u) {
		U := read(u)
		var ps []float64
		for i := 0; i < n; i++ {
			ps = append(ps, math.Abs(U.at(i, i)))
		}
		sort.Float64s(ps)
		size := math.Max(t.max(), U.max())
		amp := 1.0
		for _, p := range ps[1:] {
			amp *= math.Max(1, size/p/8)
		}
		visible = thr >= 200*float64(n)*eps*size*amp
	}
	for i := 0; i < n && !dup; i++ {
		z := true
		for j := 0; j < n; j++ {
			z = z && t.at(i, j) == 0
		}
		dup = dup || z
		for k := i + 1; k < n; k++ {
			e := true
			for j := 0; j < n && e; j++ {
				e = t.at(i, j) == t.at(k, j)
			}
			dup = dup || e && visible
		}
	}
	if dup {
		c.Check(!ns, "%s: two equal rows or a zero row, but reported non-singular", what)
		c.Count("evidently singular")
	}
}

func d01thr(c *Ctx) {
	// prescribed pivots on both sides of a threshold
	n := c.Range(1, 9)
	thr := pick(c.Rng, 1e-11, 1e-11, 1e-3, 0.5, 2.0)
	u := newT(n, n)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			u.set(i, j, c.val(vInt, 0))
		}
		u.set(i, i, pick(c.Rng, 1.0, -1.0)*thr*(1+3*c.Float()))
	}
	k := c.Intn(n)
	mode := c.Intn(4)
	v := []float64{thr, math.Nextafter(thr, 0), 0, math.Nextafter(thr, 1e9)}[mode]
	u.set(k, k, pick(c.Rng, 1.0, -1.0)*v)
	t := c.randPermT(n).mul(u)
	c.fpT(t)
	c.Size(2)
	m, rep := c.anyMat(t)
	var lu *lin.LUDecomposition
	var err error
	if thr == 1e-11 && c.Bool() {
		lu, err = lin.NewLUDecomposition(m)
	} else {
		lu, err = lin.NewLUDecompositionWithThreshold(m, thr)
	}
	c.must("LU", err)
	what := fmt.Sprintf("pivot %v of %d, threshold %v, %s", v, n, thr, rep)
	c.Notef("%s", what)
	want := mode == 0 || mode == 3
	ns := lu.Solver().IsNonSingular()
	c.Check(ns == want, "%s: non-singular is %v", what, ns)
	if ns {
		c.luCheck(t, lu, what)
	} else {
		c.luSingular(lu, what)
		c.RefusedP(what+": inverse of a singular matrix", func() { lu.Solver().Inverse() })
	}
}

// ================================================================ D02 Cholesky

func (c *Ctx) cholCheck(t *T, ch *lin.CholeskyDecomposition, what string) {
	n := t.r
	L := c.factor(what+" L", ch.L(), n, n)
	c.factor(what+" LT", ch.LT(), n, n)
	c.trans(what+" LT", ch.L(), ch.LT())
	c.zeroAbove(what+" L", L, 0)
	det := 1.0
	for i := 0; i < n; i++ {
		c.Check(L.at(i, i) > 0, "%s: L(%d,%d) is %v", what, i, i, L.at(i, i))
		det *= L.at(i, i) * L.at(i, i)
	}
	c.Near("A=LL'", what+" A = L L'", L.mul(L.tr()), t, c.slack(L.abs().mul(L.abs().tr())), 4*float64(n+4)*eps)
	if math.Abs(math.Log2(det)) < 900 {
		c.Tol("determinant", math.Abs(ch.Determinant()-det), 4*float64(n+1)*eps*det, "%s: determinant %v, squared product of L's diagonal %v", what, ch.Determinant(), det)
	}
}

func d02(c *Ctx) {
	n := c.decDim(60)
	var t *T
	name := ""
	switch c.Intn(7) {
	case 6:
		t, name = c.weakSpd(n), "weakly coupled"
	case 0, 1, 2:
		t, name = c.wellCond("Cholesky", n, n), "well conditioned"
	case 3:
		t, name = c.spd(n, 1e6).scale(pick(c.Rng, 1.0, 100.0)), "ill conditioned"
	case 4:
		if n > 7 {
			n = 7
		}
		t, name = hilbert(n), "hilbert"
		c.fpT(t)
	case 5: // banded
		t, name = newT(n, n), "banded"
		for i := 0; i < n; i++ {
			t.set(i, i, 4+c.Float())
			if i > 0 {
				x := 1.5 * c.Sym()
				t.set(i, i-1, x)
				t.set(i-1, i, x)
			}
		}
		c.fpT(t)
	}
	t, e := c.rescale(t, 400)
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s %d times 2^%d as %s", name, n, e, rep)
	c.Notef("%s", what)
	ch, err := lin.NewDefaultCholeskyDecomposition(m)
	if c.scaled {
		ch, err = lin.NewCholeskyDecomposition(m, pick(c.Rng, 1e-15, 1e-10), t.max()*1e-30)
	}
	c.must("NewDefaultCholeskyDecomposition of a positive definite matrix", err)
	c.cholCheck(t, ch, what)
	c.Count("positive definite")
	c.EqM("input", m, t)
}

func d02ref(c *Ctx) {
	n := c.Range(1, 9)
	switch c.Intn(5) {
	case 4: // the default thresholds, 1e-15 and 1e-10
		t := newT(n, n)
		for i := 0; i < n; i++ {
			t.set(i, i, float64(c.Range(60, 90)))
			for j := 0; j < i; j++ {
				x := float64(c.Range(-5, 5))
				t.set(i, j, x)
				t.set(j, i, x)
			}
		}
		what, want := "default Cholesky", ""
		i, f := c.Intn(n), 0.0
		switch c.Intn(5) {
		case 0, 1:
			// a part of its own with that pivot
			for j := 0; j < n; j++ {
				t.set(i, j, 0)
				t.set(j, i, 0)
			}
			f = pick(c.Rng, 1e-10, 0.98e-10, 1e-15, 1e-100, 0)
			want = "definite"
			if c.Bool() {
				f, want = pick(c.Rng, 1.02e-10, 1e-9, 1e-5), ""
			}
			t.set(i, i, f)
			what += fmt.Sprintf(" with pivot %d of %v", i, f)
		case 2, 3:
			if n < 2 {
				c.Trivial()
				return
			}
			j := c.Intn(n - 1)
			if j >= i {
				j++
			}
			f, want = pick(c.Rng, 1e-10, 1e-12, 5e-15), "symmetric"
			if c.Bool() {
				f, want = 1.2e-16, ""
			}
			x := 3 * pick(c.Rng, 1.0, -1.0)
			t.set(i, j, x)
			t.set(j, i, x*(1-f))
			what += fmt.Sprintf(" with a relative asymmetry of %v at (%d,%d)", f, i, j)
		}
		c.fpT(t)
		m, rep := c.mat(t), "dense"
		c.Notef("%s %s", what, rep)
		ch, err := lin.NewDefaultCholeskyDecomposition(m)
		if want == "" {
			c.Check(err == nil, "%s: refused: %v", what, err)
			c.cholCheck(t, ch, what)
			c.Count("defaults accepted")
		} else {
			msg := c.Refused(what, func() error { return err })
			c.Check(strings.Contains(msg, want), "%s: refused with %q", what, msg)
			c.Count("defaults refused")
		}
	case 0: // symmetry threshold, on both sides
		if n < 2 {
			n = 2
		}
		t := newT(n, n)
		for i := range t.a {
			t.a[i] = 0
		}
		for i := 0; i < n; i++ {
			t.set(i, i, 200)
			for j := 0; j < i; j++ {
				x := float64(c.Range(-4, 4))
				t.set(i, j, x)
				t.set(j, i, x)
			}
		}
		i := c.Range(1, n-1)
		j := c.Intn(i)
		thr := pick(c.Rng, 0.5, 0.25, 0.125)
		big := pick(c.Rng, 8.0, -8.0, 16.0)
		edge := big * (1 - thr) // |big - edge| == thr*|big| exactly
		mode := c.Intn(3)
		low := []float64{edge, math.Nextafter(edge, -big*10), math.Nextafter(edge, big)}[mode]
		if mode == 1 { // clearly beyond (one ulp may be lost in the difference)
			low = pick(c.Rng, edge*0.99, edge*0.99, 0, -big, 5e-324)
		}
		if c.Bool() {
			t.set(i, j, big)
			t.set(j, i, low)
		} else {
			t.set(i, j, low)
			t.set(j, i, big)
		}
		m, rep := c.mat(t), "dense"
		what := fmt.Sprintf("entries %v and %v, relative symmetry threshold %v, %s", big, low, thr, rep)
		c.Notef("%s", what)
		c.fpT(t)
		if mode == 1 {
			msg := c.Refused("Cholesky: "+what, func() error {
				_, err := lin.NewCholeskyDecomposition(m, thr, 1e-10)
				return err
			})
			c.Check(strings.Contains(msg, "symmetric"), "%s: refused with %q", what, msg)
			c.Count("not symmetric")
		} else {
			_, err := lin.NewCholeskyDecomposition(m, thr, 1e-10)
			c.Check(err == nil, "%s: refused: %v", what, err)
			c.Count("symmetric within the threshold")
		}
		// the default threshold is at rounding level
		msg := c.Refused("default Cholesky of a visibly asymmetric matrix", func() error {
			_, err := lin.NewDefaultCholeskyDecomposition(m)
			return err
		})
		c.Check(strings.Contains(msg, "symmetric"), "asymmetric matrix refused with %q", msg)
	case 1, 2: // positivity threshold: exact pivots d_k^2
		l := ident(n)
		d := make([]float64, n)
		for i := 0; i < n; i++ {
			d[i] = pick(c.Rng, 1.0, 4.0, 16.0, 0.25)
			for j := 0; j < i; j++ {
				l.set(i, j, float64(c.Range(-3, 3)))
			}
		}
		k := c.Intn(n)
		thr := pick(c.Rng, 1.0/16, 1.0/64, 1.0/1024)
		mode := c.Intn(5)
		switch mode {
		case 0:
			d[k] = thr // a pivot at the threshold is refused
		case 1:
			d[k] = 0
		case 2:
			d[k] = -pick(c.Rng, 1.0, 0.25)
		case 3:
			d[k] = thr * 4
		}
		t := l.mul(diagT(d)).mul(l.tr())
		c.fpT(t)
		m, rep := c.anyMat(t)
		what := fmt.Sprintf("pivots %v, positivity threshold %v, %s", d, thr, rep)
		c.Notef("%s", what)
		ch, err := lin.NewCholeskyDecomposition(m, 1e-15, thr)
		if mode <= 2 {
			msg := c.Refused("Cholesky: "+what, func() error { return err })
			c.Check(strings.Contains(msg, "definite"), "%s: refused with %q", what, msg)
			c.Count("not positive definite")
		} else {
			c.Check(err == nil, "%s: refused: %v", what, err)
			c.cholCheck(t, ch, what)
			c.Count("pivots above the threshold")
		}
		if mode == 1 || mode == 2 {
			msg := c.Refused("default Cholesky: "+what, func() error {
				_, err := lin.NewDefaultCholeskyDecomposition(m)
				return err
			})
			c.Check(strings.Contains(msg, "definite"), "%s: refused with %q", what, msg)
		}
	case 3: // random indefinite
		if n < 2 {
			n = 2
		}
		e := c.svals(n, 10)
		e[c.Intn(n)] *= -1
		q := c.randOrth(n)
		t := q.mul(diagT(e)).mul(q.tr()).sym()
		c.fpT(t)
		m, rep := c.anyMat(t)
		c.Notef("indefinite %d %s", n, rep)
		msg := c.Refused("Cholesky of an indefinite matrix", func() error {
			_, err := lin.NewDefaultCholeskyDecomposition(m)
			return err
		})
		c.Check(strings.Contains(msg, "definite"), "indefinite matrix refused with %q", msg)
		c.Count("not positive definite")
		c.EqM("input", m, t)
	}
}

// ================================================================ D03 rectangular Cholesky

func d03(c *Ctx) {
	n := c.decDim(40)
	k := c.Range(1, n)
	var t *T
	mode := c.Intn(5)
	exact, weak, spread := false, false, false
	switch mode {
	case 4: // dominant diagonal, small couplings: every step counts
		t = c.weakSpd(n)
		if c.faint {
			t = c.faintWell("Cholesky", n, n)
		}
		weak = true
		mode, k = 1, n
	case 0: // integer low rank
		g := c.table(n, k, vInt)
		t = g.mul(g.tr())
	case 1: // prescribed spectrum
		e := make([]float64, n)
		for i := 0; i < k; i++ {
			e[i] = 0.05 + c.Float()
		}
		q := c.randOrth(n)
		t = q.mul(diagT(e)).mul(q.tr()).sym().scale(pick(c.Rng, 1.0, 1e3, 1e-3))
	case 2: // diagonal
		e := make([]float64, n)
		for i := 0; i < k; i++ {
			e[i] = float64(c.Range(1, 20))
		}
		p := c.Perm(n)
		d := make([]float64, n)
		for i := range d {
			d[p[i]] = e[i]
		}
		if c.Chance(0.4) { // directions of very different sizes, for the default threshold
			for i := range d {
				d[i] = math.Ldexp(d[i], c.Range(-260, 0))
			}
			spread = true
		}
		t = diagT(d)
		exact = true
	case 3: // covariance-like with duplicated variables
		g := c.table(n, k, vReal)
		for i := 0; i < n; i++ {
			if i >= k {
				j := c.Intn(k)
				copy(g.a[i*k:(i+1)*k], g.a[j*k:(j+1)*k])
			}
		}
		t = g.mul(g.tr()).sym()
	}
	c.fpT(t)
	mx := t.max()
	if mx == 0 {
		c.Trivial()
		return
	}
	plain := t
	t, e2 := c.rescale(t, 400)
	mx = t.max()
	small := 1e-9 * mx
	def := exact && (c.Bool() || spread)
	if weak {
		def, small = c.Bool(), 0
	}
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("mode %d order %d rank %d times 2^%d as %s", mode, n, k, e2, rep)
	c.Notef("%s", what)
	var rc *lin.RectangularCholeskyDecomposition
	var err error
	if def {
		small = 0 // the default one
		rc, err = lin.NewRectangularCholeskyDecomposition(m)
	} else {
		rc, err = lin.NewRectangularCholeskyDecompositionWithThreshold(m, small)
	}
	c.must("rectangular Cholesky of a positive semi-definite matrix", err)
	r := rc.Rank()
	B := c.factor(what+" root", rc.RootMatrix(), n, r)
	bb := B.mul(B.tr())
	worst := 0.0
	for i := range bb.a {
		worst = math.Max(worst, math.Abs(bb.a[i]-t.a[i]))
	}
	c.Tol("A=BB'", worst, small*1.01+20*float64(n+5)*eps*mx, "%s: A and B B' differ", what)
	if spread {
		for i := 0; i < n; i++ {
			c.Tol("A=BB' entry by entry", math.Abs(bb.at(i, i)-t.at(i, i)), 8*eps*t.at(i, i), "%s: entry %d of B B' is %v, want %v", what, i, bb.at(i, i), t.at(i, i))
		}
		c.Count("diagonals of very different sizes")
	}
	// the rank, decided from the spectrum
	want := c.rankOf(plain, mode, k)
	if want >= 0 {
		c.Check(r == want, "%s: rank %d, want %d", what, r, want)
		c.Count("ranks decided")
		if want < n {
			c.Count("rank-deficient")
		}
	}
	c.EqM("input", m, t)
}

// rankOf gives the rank of a Gram matrix when it can be told safely, else -1.
func (c *Ctx) rankOf(t *T, mode, k int) int {
	switch mode {
	case 1:
		return k
	case 2:
		n := 0
		for i := 0; i < t.r; i++ {
			if t.at(i, i) != 0 {
				n++
			}
		}
		return n
	}
	// pivoted elimination, with a clear gap required
	a := t.clone()
	mx := t.max()
	n := t.r
	used := make([]bool, n)
	for s := 0; s < n; s++ {
		p, best := -1, 0.0
		for i := 0; i < n; i++ {
			if !used[i] && (p < 0 || a.at(i, i) > best) {
				p, best = i, a.at(i, i)
			}
		}
		if best < 1e-12*mx {
			return s
		}
		if best < 1e-6*mx {
			return -1
		}
		used[p] = true
		for i := 0; i < n; i++ {
			if used[i] {
				continue
			}
			f := a.at(i, p) / best
			for j := 0; j < n; j++ {
				if !used[j] {
					a.set(i, j, a.at(i, j)-f*a.at(p, j))
				}
			}
		}
	}
	return n
}

func d03ref(c *Ctx) {
	n := c.Range(1, 8)
	mode := c.Intn(5)
	t := newT(n, n)
	small := pick(c.Rng, 0, 1e-10, 0.5)
	ok := false
	switch mode {
	case 0: // nothing positive at the start
		for i := 0; i < n; i++ {
			t.set(i, i, -float64(c.Range(0, 5)))
		}
	case 1: // clearly negative remaining diagonal
		for i := 0; i < n; i++ {
			t.set(i, i, float64(c.Range(1, 9)))
		}
		if c.Bool() { // among others that count as zero
			for i := 0; i < n; i++ {
				if c.Bool() {
					t.set(i, i, pick(c.Rng, 0, small, -small))
				}
			}
		}
		k := c.Intn(n)
		t.set(k, k, -float64(c.Range(1, 9)))
	case 2: // largest diagonal entry exactly at the threshold
		for i := 0; i < n; i++ {
			t.set(i, i, small)
		}
	case 3: // negative within the threshold is noise
		small = 0.5
		for i := 0; i < n; i++ {
			t.set(i, i, float64(c.Range(1, 9)))
		}
		if n > 1 {
			t.set(n-1, n-1, -pick(c.Rng, 0.5, 0.25, 0.0))
		}
		ok = true
	case 4: // indefinite through the off-diagonal
		if n < 2 {
			n = 2
			t = newT(2, 2)
		}
		for i := 0; i < n; i++ {
			t.set(i, i, 1)
		}
		t.set(0, n-1, 3)
		t.set(n-1, 0, 3)
	}
	c.fpT(t)
	c.Size(2)
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("mode %d %v small %v as %s", mode, t, small, rep)
	c.Notef("%s", what)
	rc, err := lin.NewRectangularCholeskyDecompositionWithThreshold(m, small)
	if ok {
		c.Check(err == nil, "%s: refused: %v", what, err)
		want := n
		if n > 1 {
			want = n - 1
		}
		c.Check(rc.Rank() == want && rc.RootMatrix().ColumnDimension() == want, "%s: rank %d", what, rc.Rank())
		c.Count("noise accepted")
		return
	}
	msg := c.Refused("rectangular Cholesky: "+what, func() error { return err })
	c.Check(strings.Contains(msg, "definite"), "%s: refused with %q", what, msg)
}

// ================================================================ D04 QR

func (c *Ctx) qrCheck(what string, q, qt, r, h lin.RealMatrix, m, n int) (*T, *T) {
	Q := c.factor(what+" Q", q, m, m)
	c.trans(what+" QT", q, qt)
	R := c.factor(what+" R", r, m, n)
	c.orthogonal(what+" Q", Q)
	c.zeroBelow(what+" R", R, 0, 0)
	H := c.factor(what+" H", h, m, n)
	c.zeroAbove(what+" H", H, 0)
	// Q is the product of the reflections whose vectors H holds
	p := m
	if n < p {
		p = n
	}
	acc := ident(m)
	for k := p - 1; k >= 0; k-- {
		vv := 0.0
		for i := k; i < m; i++ {
			vv += H.at(i, k) * H.at(i, k)
		}
		if vv == 0 {
			continue
		}
		for j := 0; j < m; j++ {
			s := 0.0
			for i := k; i < m; i++ {
				s += H.at(i, k) * acc.at(i, j)
			}
			s *= 2 / vv
			for i := k; i < m; i++ {
				acc.set(i, j, acc.at(i, j)-s*H.at(i, k))
			}
		}
	}
	c.Tol("Q=reflections", acc.sub(Q).fro(), tolOrth*float64(m+5)*eps*math.Sqrt(float64(m)), "%s: the reflections in H do not give Q", what)
	return Q, R
}

func (c *Ctx) rectDims(max int) (int, int) {
	r, k := c.decDim(max), c.decDim(max)
	if c.Chance(0.3) {
		k = r
	}
	if c.Chance(0.04) { // across several blocks, thin
		r, k = c.Range(52, 140), c.Range(1, 6)
		if c.Bool() {
			r, k = k, r
		}
	}
	return r, k
}

func d04(c *Ctx) {
	m, n := c.rectDims(60)
	t, name := c.rect(m, n)
	t, e := c.rescale(t, 400)
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s times 2^%d as %s", name, e, rep)
	c.Notef("%s", what)
	var qr *lin.QRDecomposition
	var err error
	if c.Bool() {
		qr, err = lin.NewQRDecomposition(a)
	} else {
		qr, err = lin.NewQRDecompositionWithThreshold(a, pick(c.Rng, 0, 1e-10, 0.5))
	}
	c.must("NewQRDecomposition", err)
	Q, R := c.qrCheck(what, qr.Q(), qr.QT(), qr.R(), qr.H(), m, n)
	c.recon("A=QR", what+": A and QR differ", Q.mul(R), t, tolRecon)
	c.EqM("input", a, t)
	if m > n {
		c.Count("tall")
	} else if m < n {
		c.Count("wide")
	}
}

// ================================================================ D05 RRQR

func d05(c *Ctx) {
	m, n := c.rectDims(50)
	t, name := c.rect(m, n)
	known := -1
	p := m
	if n < p {
		p = n
	}
	if !c.faint && c.Chance(0.5) {
		known = c.Range(0, p)
		sv := make([]float64, p)
		for i := 0; i < known; i++ {
			sv[i] = 0.1 + c.Float()
		}
		t, name = c.withSV(m, n, sv).scale(math.Ldexp(1, c.Range(-20, 20))), fmt.Sprintf("rank %d %dx%d", known, m, n)
	}
	plain := t
	t, e := c.rescale(t, 400)
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s times 2^%d as %s", name, e, rep)
	c.Notef("%s", what)
	var qr *lin.RRQRDecomposition
	var err error
	if c.Bool() {
		qr, err = lin.NewRRQRDecomposition(a)
	} else {
		qr, err = lin.NewRRQRDecompositionWithThreshold(a, pick(c.Rng, 0, 1e-10, 0.5))
	}
	c.must("NewRRQRDecomposition", err)
	Q, R := c.qrCheck(what, qr.Q(), qr.QT(), qr.R(), qr.H(), m, n)
	P := c.factor(what+" P", qr.P(), n, n)
	c.permutation(what+" P", P)
	c.recon("AP=QR", what+": AP and QR differ", Q.mul(R), t.mul(P), tolRecon)
	for i := 0; i+1 < p; i++ {
		x, y := math.Abs(R.at(i, i)), math.Abs(R.at(i+1, i+1))
		c.Check(y <= x*(1+1e-8)+1e3*eps*t.fro(), "%s: |R(%d,%d)|=%v grows to %v", what, i, i, x, y)
	}
	fro := t.fro()
	if known < 0 && !c.faint && strings.HasPrefix(name, "lowrank") || t.max() == 0 {
		known = exactRank(plain)
	}
	if known >= 0 {
		// a gap in R's trailing norms is required to ask for the rank
		drop := 1e-8 * fro
		if fro == 0 {
			drop = 1e-8
		}
		g := math.Inf(1)
		last := fro
		for k := 1; k < known; k++ {
			th := R.part(k, m-1, k, n-1).fro()
			g = math.Min(g, th/last)
			last = th
		}
		if known == 0 || g > 1e-6 {
			c.Check(qr.Rank(drop) == known, "%s: rank %d with drop threshold %v, want %d", what, qr.Rank(drop), drop, known)
			c.Count("ranks decided")
			if known < p {
				c.Count("rank-deficient")
			}
			if known == 0 {
				c.Count("zero matrix")
			}
		}
	}
	c.EqM("input", a, t)
}

// exactRank is the rank of a table of integers, by rational elimination modulo
// two large primes (the larger of the two results).
func exactRank(t *T) int {
	best := 0
	for _, p := range []int64{2147483629, 2147483587} {
		a := make([][]int64, t.r)
		for i := range a {
			a[i] = make([]int64, t.c)
			for j := range a[i] {
				v := int64(t.at(i, j)) % p
				if v < 0 {
					v += p
				}
				a[i][j] = v
			}
		}
		r := 0
		for col := 0; col < t.c && r < t.r; col++ {
			q := -1
			for i := r; i < t.r; i++ {
				if a[i][col] != 0 {
					q = i
					break
				}
			}
			if q < 0 {
				continue
			}
			a[r], a[q] = a[q], a[r]
			iv := new(big.Int).ModInverse(big.NewInt(a[r][col]), big.NewInt(p)).Int64()
			for i := r + 1; i < t.r; i++ {
				if a[i][col] == 0 {
					continue
				}
				f := a[i][col] * iv % p
				for j := col; j < t.c; j++ {
					a[i][j] = ((a[i][j]-f*a[r][j]%p)%p + p) % p
				}
			}
			r++
		}
		if r > best {
			best = r
		}
	}
	return best
}

// ================================================================ D06 SVD

func (c *Ctx) svdInput() (*T, string, []float64) {
	m, n := c.rectDims(45)
	p := m
	if n < p {
		p = n
	}
	if !c.faint && c.Chance(0.45) {
		sv := make([]float64, p)
		name := ""
		switch c.Intn(5) {
		case 0:
			sv, name = c.svals(p, 1e3), "spread"
		case 1:
			name = "graded"
			for i := range sv {
				sv[i] = math.Pow(10, -float64(c.Range(0, 12)))
			}
		case 2:
			name = "clustered"
			for i := range sv {
				sv[i] = pick(c.Rng, 1.0, 1.0, 1+1e-10, 2.0)
			}
		case 3:
			name = "deficient"
			for i := range sv {
				if c.Bool() {
					sv[i] = 0.1 + c.Float()
				}
			}
		case 4:
			name = "all equal"
			for i := range sv {
				sv[i] = 3
			}
		}
		f := math.Ldexp(1, c.Range(-40, 40))
		t := c.withSV(m, n, sv).scale(f)
		for i := range sv {
			sv[i] *= f
		}
		sort.Sort(sort.Reverse(sort.Float64Slice(sv)))
		return t, fmt.Sprintf("sv %s %dx%d", name, m, n), sv
	}
	if c.faint && c.Chance(0.3) {
		return c.faintBands(m, n), fmt.Sprintf("faint bands %dx%d", m, n), nil
	}
	t, name := c.rect(m, n)
	return t, name, nil
}

// faintBands draws an upper or lower bidiagonal matrix, ordinary at one end and
// of numbers down to the smallest ones elsewhere, in stretches of equal scale.
func (c *Ctx) faintBands(m, n int) *T {
	t := newT(m, n)
	p := m
	if n < p {
		p = n
	}
	scale := 0
	x := func(flat bool) float64 {
		v := math.Ldexp(c.Sym()+math.Copysign(0.5, c.Sym()), scale)
		if c.Chance(0.08) {
			return 0
		}
		if flat || c.Chance(0.85) {
			return v
		}
		return math.Ldexp(v, -c.Range(1, 120))
	}
	order := c.Perm(p)
	if c.Chance(0.8) {
		for i := range order {
			order[i] = i
		}
		if c.Chance(0.3) {
			for i := range order {
				order[i] = p - 1 - i
			}
		}
	}
	upper := c.Bool()
	for k, i := range order {
		if k > 0 && c.Chance(0.3) {
			scale = -pick(c.Rng, 0, c.Range(40, 110), c.Range(880, 960), c.Range(880, 960), c.Range(961, 1072))
		}
		t.set(i, i, x(k == 0))
		if upper && i+1 < n {
			t.set(i, i+1, x(false))
		}
		if !upper && i+1 < m {
			t.set(i+1, i, x(false))
		}
	}
	if t.max() < 1e-3 {
		t.set(order[0], order[0], 1)
	}
	return t
}

func d06(c *Ctx) {
	t, name, known := c.svdInput()
	m, n := t.r, t.c
	p := m
	if n < p {
		p = n
	}
	t, e := c.rescale(t, 400)
	for i := range known {
		known[i] = math.Ldexp(known[i], e)
	}
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s times 2^%d as %s", name, e, rep)
	c.Notef("%s", what)
	sd, err := lin.NewSingularValueDecomposition(a)
	c.must("NewSingularValueDecomposition", err)
	U := c.factor(what+" U", sd.U(), m, p)
	V := c.factor(what+" V", sd.V(), n, p)
	S := c.factor(what+" S", sd.S(), p, p)
	c.trans(what+" UT", sd.U(), sd.UT())
	c.trans(what+" VT", sd.V(), sd.VT())
	s := sd.SingularValues()
	c.Check(len(s) == p, "%s: %d singular values of %d", what, len(s), p)
	c.EqT(what+" S", S, diagT(s))
	for i := range s {
		c.Check(s[i] >= 0, "%s: singular value %v", what, s[i])
		c.Check(i == 0 || s[i] <= s[i-1], "%s: singular values rise: %v", what, s)
	}
	c.orthogonal(what+" U", U)
	c.orthogonal(what+" V", V)
	c.recon("A=USV'", what+": A and U S V' differ", U.mul(S).mul(V.tr()), t, tolRecon)
	if known != nil {
		for i := range s {
			c.Tol("singular values", math.Abs(s[i]-known[i]), 20*float64(m+n)*eps*known[0]+1e-300, "%s: singular value %d is %v, built with %v", what, i, s[i], known[i])
		}
		c.Count("known spectra")
	}
	if m > n {
		c.Count("tall")
	} else if m < n {
		c.Count("wide")
	}
	c.EqM("input", a, t)
}

// ================================================================ D07 derived from the spectrum

// monomial rectangular matrices, whose singular values are their entries, with values on both
// sides of the rounding level max(m,n) ulp
func d07rank(c *Ctx) {
	n := c.Range(1, 6)
	m := c.Range(n, pick(c.Rng, 8, 40, 300))
	if c.Bool() {
		m, n = n, m
	}
	p := m
	if n < p {
		p = n
	}
	t := newT(m, n)
	pi, pj := c.Perm(m), c.Perm(n)
	f := math.Ldexp(1, c.Range(-300, 300))
	known := make([]float64, p)
	for i := range known {
		x := 1 + c.Float()
		if i > 0 && c.Chance(0.8) {
			x = math.Ldexp(x, c.Range(-62, -36))
		} else if i > 0 {
			x = math.Ldexp(x, c.Range(-10, -1))
		}
		known[i] = x * f
		if c.Bool() {
			x = -x
		}
		t.set(pi[i], pj[i], x*f)
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(known)))
	c.d07check(t, fmt.Sprintf("monomial %dx%d", m, n), known)
}

func d07(c *Ctx) {
	t, name, known := c.svdInput()
	c.d07check(t, name, known)
}

func (c *Ctx) d07check(t *T, name string, known []float64) {
	m, n := t.r, t.c
	t, scale := c.rescale(t, 300)
	for i := range known {
		known[i] = math.Ldexp(known[i], scale)
	}
	a, rep := c.anyMat(t)
	what := fmt.Sprintf("%s times 2^%d as %s", name, scale, rep)
	c.Notef("%s", what)
	sd, err := lin.NewSingularValueDecomposition(a)
	c.must("NewSingularValueDecomposition", err)
	s := sd.SingularValues()
	p := len(s)
	c.Check(sd.Norm() == s[0], "%s: norm %v, largest singular value %v", what, sd.Norm(), s[0])
	if s[0] > 0 {
		if q := s[0] / s[p-1]; s[p-1] > 0 && !math.IsInf(q, 1) {
			c.Tol("condition", math.Abs(sd.ConditionNumber()-s[0]/s[p-1]), 4*eps*s[0]/s[p-1], "%s: condition number %v, spectrum %v .. %v", what, sd.ConditionNumber(), s[0], s[p-1])
		} else {
			c.Check(math.IsInf(sd.ConditionNumber(), 1), "%s: condition number %v of a singular matrix", what, sd.ConditionNumber())
		}
		c.Tol("inverse condition", math.Abs(sd.InverseConditionNumber()-s[p-1]/s[0]), 4*eps*s[p-1]/s[0]+1e-323, "%s: inverse condition number %v, spectrum %v .. %v", what, sd.InverseConditionNumber(), s[0], s[p-1])
	} else {
		c.Count("zero matrix")
	}
	mx := float64(m)
	if n > m {
		mx = float64(n)
	}
	// the rank follows the reported spectrum, with the documented threshold max(m,n) ulp(s[0])
	rankOf := func(s []float64, up, down float64) (lo, hi int) {
		for _, x := range s {
			if x > up*mx*eps*s[0] {
				lo++
			}
			if x > down*mx*eps*s[0] {
				hi++
			}
		}
		return
	}
	lo, hi := rankOf(s, 4, 0.25)
	c.Check(sd.Rank() >= lo && sd.Rank() <= hi, "%s: rank %d, spectrum %v", what, sd.Rank(), s)
	if lo == hi {
		c.Count("ranks decided")
		if lo < p {
			c.Count("rank-deficient")
		}
	}
	// scale
	if s[0] > 0 {
		e := c.Range(-60, 60)
		s2, err := lin.NewSingularValueDecomposition(c.mat(t.scale(math.Ldexp(1, e))))
		c.must("NewSingularValueDecomposition", err)
		l2, h2 := rankOf(s2.SingularValues(), 4, 0.25)
		c.Check(s2.Rank() >= l2 && s2.Rank() <= h2, "%s scaled by 2^%d: rank %d, unscaled %d, spectrum %v", what, e, s2.Rank(), sd.Rank(), s2.SingularValues())
		l2, _ = rankOf(s, 450, 0)
		_, h2 = rankOf(s, 0, 0.01/mx)
		c.Check(s2.Rank() >= l2 && s2.Rank() <= h2, "%s scaled by 2^%d: rank %d, unscaled %d, spectrum %v", what, e, s2.Rank(), sd.Rank(), s)
		c.Tol("scaled norm", math.Abs(s2.Norm()-math.Ldexp(s[0], e)), 20*mx*eps*math.Ldexp(s[0], e), "%s scaled by 2^%d: norm %v, unscaled %v", what, e, s2.Norm(), s[0])
	}
	if known != nil && known[0] > 0 {
		c.Tol("norm", math.Abs(sd.Norm()-known[0]), 20*float64(m+n)*eps*known[0], "%s: norm %v, built with %v", what, sd.Norm(), known[0])
	}
	// covariance
	if s[0] == 0 {
		c.RefusedP(what+": covariance with a cutoff above all singular values", func() { sd.Covariance(1) })
		return
	}
	k := c.Intn(p)
	if !(s[k] > 1e-10*s[0]) {
		k = 0
	}
	cut := pick(c.Rng, s[k], s[k], s[k]*(1-1e-9), math.Nextafter(s[k], 0))
	if k > 0 && s[k-1] > s[k]*1.01 && c.Bool() {
		cut = math.Nextafter(s[k], math.Inf(1)) // just above s[k]
	}
	V := read(sd.V())
	used := 0
	jj := newT(p, p)
	for i, x := range s {
		if x >= cut {
			jj.set(i, i, 1/x/x)
			used++
		}
	}
	if used > 0 {
		want := V.mul(jj).mul(V.tr())
		got := c.factor(what+" covariance", sd.Covariance(cut), n, n)
		c.recon("covariance", fmt.Sprintf("%s: covariance for cutoff %v (spectrum %v)", what, cut, s), got, want, 4)
		c.Count("covariances")
	}
	for _, x := range []float64{math.Nextafter(s[0], math.Inf(1)), 2 * s[0]} {
		c.RefusedP(what+": covariance with a cutoff above all singular values", func() { sd.Covariance(x) })
	}
}

func init() {
	register(&Prop{ID: "D01",
		Rule:      "P is an exact permutation matching the pivots, L and U exactly triangular, |PA-LU| within 4(n+4) eps |L||U| entrywise, determinant the signed product, singular exactly when an encountered pivot is below the threshold (probed at the pivot and one ulp above)",
		Technique: "runtime monitoring: factorization oracle with rigorous rounding bounds over generated structured matrices",
		Level:     "orders 1..60, 28 matrix structures, all storage kinds, thresholds on both sides of a pivot",
		WL:        []Workload{{Name: "lu", Quick: 25000, Thorough: 500000, Run: d01}, {Name: "threshold", Quick: 40000, Thorough: 800000, Run: d01thr}, {Name: "large", Quick: 50, Thorough: 1250, Run: large(d01)}, {Name: "faint", Quick: 6000, Thorough: 120000, Run: faint(d01)}, {Name: "scale", Quick: 3000, Thorough: 60000, Run: extreme(d01)}},
		Need:      []string{"singular", "non-singular", "thresholds at a pivot", "evidently singular", "extreme scales"}})
	register(&Prop{ID: "D02",
		Rule:      "L exactly lower triangular with positive diagonal, LT its exact transpose, |A-LL'| within 4(n+4) eps |L||L'| entrywise, determinant the squared product; refusals carry the matching library error, decided at exact thresholds",
		Technique: "runtime monitoring: factorization oracle with rigorous rounding bounds; boundary-value oracle for refusals",
		Level:     "orders 1..60, condition numbers to 1e6; refusal boundaries built in exact arithmetic",
		WL:        []Workload{{Name: "spd", Quick: 30000, Thorough: 600000, Run: d02}, {Name: "refusals", Quick: 60000, Thorough: 1200000, Run: d02ref}, {Name: "large", Quick: 60, Thorough: 1500, Run: large(d02)}, {Name: "faint", Quick: 6000, Thorough: 120000, Run: faint(d02)}, {Name: "scale", Quick: 3000, Thorough: 60000, Run: extreme(d02)}},
		Need:      []string{"positive definite", "not symmetric", "symmetric within the threshold", "not positive definite", "pivots above the threshold", "extreme scales"}})
	register(&Prop{ID: "D03",
		Rule:      "max |A-BB'| within the threshold plus rounding, root has rank-many columns, rank equals that of the constructed or independently eliminated matrix; refusals where nothing is positive or a remaining diagonal is clearly negative",
		Technique: "runtime monitoring: factorization oracle plus independent rank oracle over constructed semi-definite matrices",
		Level:     "orders 1..40, every rank",
		WL:        []Workload{{Name: "semidefinite", Quick: 70000, Thorough: 1400000, Run: d03}, {Name: "refusals", Quick: 60000, Thorough: 1200000, Run: d03ref}, {Name: "large", Quick: 60, Thorough: 1500, Run: large(d03)}, {Name: "faint", Quick: 4000, Thorough: 80000, Run: faint(d03)}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d03)}},
		Need:      []string{"ranks decided", "rank-deficient", "noise accepted", "refusals", "extreme scales"}})
	register(&Prop{ID: "D04",
		Rule:      "Q orthogonal, QT its exact transpose, R exactly upper trapezoidal, A=QR normwise, product of the reflections of H equals Q",
		Technique: "runtime monitoring: factorization oracle with rounding bounds over generated rectangular matrices",
		Level:     "shapes 1..60 by 1..60, 35 structures of any rank, all storage kinds",
		WL:        []Workload{{Name: "qr", Quick: 30000, Thorough: 600000, Run: d04}, {Name: "large", Quick: 40, Thorough: 1000, Run: large(d04)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d04)}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d04)}},
		Need:      []string{"tall", "wide", "extreme scales"}})
	register(&Prop{ID: "D05",
		Rule:      "the QR checks with a permutation P, diagonal of R non-increasing in magnitude, rank equal to the constructed or exactly computed one",
		Technique: "runtime monitoring: factorization oracle plus rank oracle (constructed spectrum or modular elimination)",
		Level:     "shapes 1..50 by 1..50, every rank incl. zero",
		WL:        []Workload{{Name: "rrqr", Quick: 30000, Thorough: 600000, Run: d05}, {Name: "large", Quick: 40, Thorough: 1000, Run: large(d05)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d05)}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d05)}},
		Need:      []string{"ranks decided", "rank-deficient", "zero matrix", "extreme scales"}})
	register(&Prop{ID: "D06",
		Rule:      "U, V have orthonormal columns, singular values non-negative and sorted, transposes and S agree exactly, A=USV' normwise, constructed spectra are recovered",
		Technique: "runtime monitoring: factorization oracle with rounding bounds over generated and constructed matrices",
		Level:     "shapes 1..45 by 1..45, graded, clustered, deficient and repeated spectra, scales 2^-40..2^40",
		WL:        []Workload{{Name: "svd", Quick: 42000, Thorough: 840000, Run: d06}, {Name: "large", Quick: 30, Thorough: 750, Run: large(d06)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d06)}, {Name: "scale", Quick: 6000, Thorough: 120000, Run: extreme(d06)}},
		Need:      []string{"tall", "wide", "known spectra", "extreme scales"}})
	register(&Prop{ID: "D07",
		Rule:      "norm, condition numbers, rank (also under power-of-two scaling) and covariance recomputed from the reported spectrum and V; cutoffs at, just below and just above singular values",
		Technique: "runtime monitoring: derived-quantity oracle, boundary values at the spectrum",
		Level:     "shapes 1..45 by 1..45",
		WL:        []Workload{{Name: "derived", Quick: 58000, Thorough: 1160000, Run: d07}, {Name: "large", Quick: 40, Thorough: 1000, Run: large(d07)}, {Name: "rank level", Quick: 6000, Thorough: 120000, Run: d07rank}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d07)}},
		Need:      []string{"covariances", "ranks decided", "rank-deficient", "zero matrix", "extreme scales"}})
}
