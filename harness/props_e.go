package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	lin "github.com/jtejido/linear"
)

// ================================================================ D08 symmetric eigen

func (t *T) symmetric() bool {
	for i := 0; i < t.r; i++ {
		for j := 0; j < i; j++ {
			if t.at(i, j) != t.at(j, i) {
				return false
			}
		}
	}
	return true
}

// nearlySymmetric: asymmetry so small that the library may treat the matrix as symmetric.
func (t *T) nearlySymmetric() bool {
	for i := 0; i < t.r; i++ {
		for j := 0; j < i; j++ {
			a, b := t.at(i, j), t.at(j, i)
			if math.Abs(a-b) > 1e-10*math.Max(math.Abs(a), math.Abs(b)) {
				return false
			}
		}
	}
	return true
}

// symInput draws a symmetric matrix; the eigenvalues are returned, sorted
// downwards, when they are known.
func (c *Ctx) symInput(n int) (*T, string, []float64) {
	if c.faint {
		t, name := c.square(n)
		t = t.sym()
		if b := t.max(); b > 0 && b < 1e-3 { // what is left is all faint
			t.set(0, 0, 1)
		}
		t = c.faintly(t)
		c.fpT(t)
		return t, "symmetrised " + name, nil
	}
	switch c.Intn(9) {
	case 0, 1:
		t, name := c.square(n)
		t = t.sym()
		c.fpT(t)
		return t, "symmetrised " + name, nil
	case 2:
		t := c.table(n, n, c.kind(vInt, vSparse, vReal)).sym()
		return t, "random symmetric", nil
	case 3: // tridiagonal
		t := newT(n, n)
		z := pick(c.Rng, 0.0, 0.3)
		for i := 0; i < n; i++ {
			t.set(i, i, c.Sym())
			if i > 0 && !c.Chance(z) {
				x := c.Sym() * math.Pow(10, -float64(c.Intn(3)*4))
				t.set(i, i-1, x)
				t.set(i-1, i, x)
			}
		}
		c.fpT(t)
		return t, "tridiagonal", nil
	}
	e := make([]float64, n)
	name := ""
	switch c.Intn(6) {
	case 0:
		name = "spread"
		for i := range e {
			e[i] = 3 * c.Sym()
		}
	case 1:
		name = "positive"
		for i := range e {
			e[i] = 0.05 + c.Float()
		}
	case 2:
		name = "repeated"
		for i := range e {
			e[i] = pick(c.Rng, 1.0, 1.0, -1.0, 2.0, 0.0)
		}
	case 3:
		name = "graded"
		for i := range e {
			e[i] = math.Pow(10, -float64(c.Range(0, 10))) * pick(c.Rng, 1.0, 1.0, -1.0)
		}
	case 4:
		name = "opposite pairs"
		for i := range e {
			e[i] = float64(1+i/2) * math.Pow(-1, float64(i))
		}
	case 5:
		name = "clustered"
		for i := range e {
			e[i] = 1 + 1e-9*c.Sym()
		}
	}
	f := math.Ldexp(1, pick(c.Rng, 0, 0, 0, -8, 10, c.Range(-30, 30)))
	q := c.randOrth(n)
	if c.Chance(0.1) {
		q = c.randPermT(n)
	}
	t := q.mul(diagT(e)).mul(q.tr()).sym().scale(f)
	for i := range e {
		e[i] *= f
	}
	sort.Sort(sort.Reverse(sort.Float64Slice(e)))
	c.fpT(t)
	return t, "symmetric " + name, e
}

func d08(c *Ctx) {
	n := c.decDim(66)
	t, name, known := c.symInput(n)
	t, e := c.rescale(t, 400)
	for i := range known {
		known[i] = math.Ldexp(known[i], e)
	}
	if e != 0 {
		name += fmt.Sprintf(" times 2^%d", e)
	}
	tri := c.Chance(0.25)
	var ed *lin.EigenDecomposition
	var err error
	what := fmt.Sprintf("%s %d", name, n)
	if tri {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if i-j > 1 || j-i > 1 {
					t.set(i, j, 0)
				}
			}
		}
		if !strings.HasPrefix(name, "tridiagonal") {
			known = nil
		}
		if b := t.max(); c.faint && !c.scaled && b > 0 && b < 1e-3 {
			t.set(0, 0, 1)
		}
		main, sec := make([]float64, n), make([]float64, n-1)
		for i := range main {
			main[i] = t.at(i, i)
			if i > 0 {
				sec[i-1] = t.at(i, i-1)
			}
		}
		what += " from its diagonals"
		m2, s2 := append([]float64{}, main...), append([]float64{}, sec...)
		ed, err = lin.NewEigenDecompositionFromTridiagonal(main, sec)
		c.EqS("main diagonal passed", main, m2)
		c.EqS("secondary diagonal passed", sec, s2)
		c.Count("from tridiagonal")
	} else {
		m, rep := c.anyMat(t)
		what += " as " + rep
		ed, err = lin.NewEigenDecomposition(m)
		defer c.EqM("input", m, t)
	}
	c.Notef("%s", what)
	if n <= 12 {
		c.Notef("%v", t.a)
	}
	c.must("symmetric eigen decomposition of "+what, err)
	V := c.factor(what+" V", ed.V(), n, n)
	D := c.factor(what+" D", ed.D(), n, n)
	c.trans(what+" VT", ed.V(), ed.VT())
	re, im := ed.RealEigenvalues(), ed.ImagEigenvalues()
	c.Check(len(re) == n && len(im) == n, "%s: %d and %d eigenvalue parts", what, len(re), len(im))
	for i := range re {
		c.Check(im[i] == 0 && ed.ImagEigenvalue(i) == 0, "%s: eigenvalue %d has imaginary part %v", what, i, im[i])
		c.Check(ed.RealEigenvalueAt(i) == re[i], "%s: eigenvalue %d is %v and %v", what, i, re[i], ed.RealEigenvalueAt(i))
		c.Check(i == 0 || re[i] <= re[i-1], "%s: eigenvalues rise: %v", what, re)
		c.EqV(fmt.Sprintf("%s: eigenvector %d and column %d of V", what, i, i), ed.EigenvectorAt(i), V.col(i))
	}
	c.Check(!ed.HasComplexEigenvalues(), "%s: complex eigenvalues reported", what)
	c.EqT(what+": D", D, diagT(re))
	c.orthogonal(what+" V", V)
	c.recon("A=VDV'", what+": A and V D V' differ", V.mul(D).mul(V.tr()), t, tolRecon)
	if known != nil {
		mx := math.Max(math.Abs(known[0]), math.Abs(known[n-1]))
		for i := range known {
			c.Tol("eigenvalues", math.Abs(re[i]-known[i]), 20*float64(n+5)*eps*mx, "%s: eigenvalue %d is %v, built with %v", what, i, re[i], known[i])
		}
		c.Count("known spectra")
	}
	// square root
	if re[n-1] > 0 {
		if re[n-1] > 1e-12*re[0] {
			S := c.factor(what+" square root", ed.SquareRoot(), n, n)
			c.Tol("sqrt symmetric", S.sub(S.tr()).fro(), 20*float64(n+5)*eps*S.fro(), "%s: square root is not symmetric", what)
			c.recon("sqrt", what+": the square root does not square to A", S.mul(S), t, tolRecon)
			c.Count("square roots")
		}
	} else {
		c.RefusedP(fmt.Sprintf("%s: square root with eigenvalue %v", what, re[n-1]), func() { ed.SquareRoot() })
		c.Count("square roots refused")
	}
}

func d08ns(c *Ctx) {
	n := c.Range(2, 9)
	t, name := c.square(n)
	if t.nearlySymmetric() {
		t.set(0, n-1, t.at(0, n-1)+1+math.Abs(t.at(n-1, 0)))
	}
	m, rep := c.anyMat(t)
	c.Notef("%s %s", name, rep)
	ed, err := lin.NewEigenDecomposition(m)
	c.must("eigen decomposition", err)
	c.RefusedP("square root of a matrix that is not symmetric", func() { ed.SquareRoot() })
	c.Count("square roots refused")
}

// ================================================================ D09 general eigen

// eigenTruth says what is known about the spectrum by construction.
type eigenTruth struct {
	realOnly, complexSome bool
	re, im                []float64 // sorted by (re, im), when known
	sens                  float64   // sensitivity of the eigenvalues
}

func (c *Ctx) generalInput(n int) (*T, string, eigenTruth) {
	x := c.Intn(9)
	if c.faint {
		x = 7
	}
	switch x {
	case 0: // real, separated
		d := make([]float64, n)
		for i := range d {
			d[i] = (float64(i) + 0.5 + 0.3*c.Float()) * pick(c.Rng, 1.0, 1.0, -1.0)
		}
		// with mixed signs two values may not come closer than 0.4 in modulus terms
		sort.Float64s(d)
		return c.realSpectrum(d, 5), "real spectrum", eigenTruth{realOnly: true, re: d, im: make([]float64, n), sens: 25}
	case 1: // complex pairs by similarity of rotations
		b := newT(n, n)
		var re, im []float64
		for i := 0; i < n; {
			if i+1 < n && (c.Chance(0.7) || i == 0) {
				a, w := 2*c.Sym(), 0.3+c.Float()
				b.set(i, i, a)
				b.set(i+1, i+1, a)
				b.set(i, i+1, w)
				b.set(i+1, i, -w)
				re = append(re, a, a)
				im = append(im, w, -w)
				i += 2
			} else {
				b.set(i, i, 3+float64(i))
				re = append(re, b.at(i, i))
				im = append(im, 0)
				i++
			}
		}
		u, v := c.randOrth(n), c.randOrth(n)
		s := c.svals(n, 4)
		si := make([]float64, n)
		for i := range s {
			si[i] = 1 / s[i]
		}
		t := u.mul(diagT(s)).mul(v.tr()).mul(b).mul(v).mul(diagT(si)).mul(u.tr())
		c.fpT(t)
		return t, "conjugate pairs", eigenTruth{complexSome: n > 1, re: re, im: im, sens: 16}
	case 2: // upper triangular: the diagonal is the spectrum
		t := c.table(n, n, vReal)
		var re []float64
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				t.set(i, j, 0)
			}
			t.set(i, i, float64(i)+0.5*c.Float())
			re = append(re, t.at(i, i))
		}
		if c.Bool() {
			p := c.randPermT(n)
			t = p.mul(t).mul(p.tr())
		}
		c.fpT(t)
		return t, "triangular", eigenTruth{realOnly: n <= 8}
	case 3: // cyclic permutation: the roots of unity
		t := newT(n, n)
		for i := 0; i < n; i++ {
			t.set(i, (i+1)%n, 1)
		}
		f := math.Ldexp(1, c.Range(-5, 5))
		t = t.scale(f)
		var re, im []float64
		for i := 0; i < n; i++ {
			re = append(re, f*math.Cos(2*math.Pi*float64(i)/float64(n)))
			im = append(im, f*math.Sin(2*math.Pi*float64(i)/float64(n)))
		}
		c.fpT(t)
		c.Size(n)
		return t, "cyclic", eigenTruth{complexSome: n > 2, re: re, im: im, sens: 1}
	case 4: // embedded small coupled blocks
		t := newT(n, n)
		for i := 0; i < n; i++ {
			t.set(i, i, c.val(vInt, 0))
			if i+1 < n && c.Bool() {
				t.set(i, i+1, c.val(vInt, 0))
				t.set(i+1, i, c.val(vInt, 0))
			}
			if c.Chance(0.2) {
				t.set(i, c.Intn(n), c.val(vInt, 0))
			}
		}
		c.fpT(t)
		return t, "coupled blocks", eigenTruth{}
	case 8: // coupled conjugate pairs which share their real part
		return c.sharedReal(n), "pairs on a line", eigenTruth{complexSome: n > 1}
	}
	t, name := c.square(n)
	return t, name, eigenTruth{}
}

// sharedReal draws a matrix whose conjugate pairs all have the same real part:
// triangular but for rotations, coupled above them, as it is, permuted or
// turned; or a shifted skew-symmetric matrix.
func (c *Ctx) sharedReal(n int) *T {
	t := newT(n, n)
	a := pick(c.Rng, 0, 0, 1, c.Sym())
	if c.Chance(0.2) {
		for i := 0; i < n; i++ {
			t.set(i, i, a)
			for j := 0; j < i; j++ {
				x := c.Sym()
				t.set(i, j, x)
				t.set(j, i, -x)
			}
		}
		c.fpT(t)
		return t
	}
	o := c.Perm(n)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			t.set(i, j, c.Sym())
		}
	}
	for i := 0; i < n; i += 2 {
		if i+1 == n {
			t.set(i, i, pick(c.Rng, a, a+1))
			break
		}
		w := 1 + float64(o[i]) // pairwise apart
		f := pick(c.Rng, 1.0, 1.0, 0.25, 4.0)
		t.set(i, i, a)
		t.set(i+1, i+1, a)
		t.set(i, i+1, w*f)
		t.set(i+1, i, -w/f)
	}
	switch c.Intn(3) {
	case 0:
		q := c.randOrth(n)
		t = q.mul(t).mul(q.tr())
	case 1:
		p := c.randPermT(n)
		t = p.mul(t).mul(p.tr())
	}
	c.fpT(t)
	return t
}

func d09(c *Ctx) {
	n := c.decDim(60)
	t, name, truth := c.generalInput(n)
	c.d09(n, t, name, truth)
}

func d09int(c *Ctx) {
	n := c.Range(2, 7)
	c.d09(n, c.smallInts(n), "small integers", eigenTruth{})
}

func (c *Ctx) d09(n int, t *T, name string, truth eigenTruth) {
	if c.Chance(0.1) { // overall scale
		f := math.Ldexp(1, c.Range(-6, 12))
		t = t.scale(f)
		for i := range truth.re {
			truth.re[i] *= f
			truth.im[i] *= f
		}
	}
	sym := t.nearlySymmetric()
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s %d as %s", name, n, rep)
	c.Notef("%s", what)
	if n <= 8 {
		c.Notef("%v", t.a)
	}
	ed, err := lin.NewEigenDecomposition(m)
	c.must("eigen decomposition of "+what, err)
	V := c.factor(what+" V", ed.V(), n, n)
	D := c.factor(what+" D", ed.D(), n, n)
	c.trans(what+" VT", ed.V(), ed.VT())
	re, im := ed.RealEigenvalues(), ed.ImagEigenvalues()
	c.Check(len(re) == n && len(im) == n, "%s: %d and %d eigenvalue parts", what, len(re), len(im))
	fro := t.fro()
	want := newT(n, n)
	pairs, some := 0, false
	for i := 0; i < n; i++ {
		want.set(i, i, re[i])
		c.Check(ed.RealEigenvalueAt(i) == re[i] && ed.ImagEigenvalue(i) == im[i], "%s: eigenvalue %d differs between accessors", what, i)
		if im[i] > 0 {
			ok := i+1 < n && math.Abs(re[i]-re[i+1]) <= 1e-13*fro && math.Abs(im[i]+im[i+1]) <= 1e-13*fro
			c.Check(ok, "%s: eigenvalue %d (%v,%v) has no conjugate next to it", what, i, re[i], im[i])
			want.set(i, i+1, im[i])
			pairs++
			some = some || im[i] > 1e-9*fro
		} else if im[i] < 0 {
			c.Check(i > 0 && im[i-1] > 0, "%s: eigenvalue %d (%v,%v) comes before its conjugate", what, i, re[i], im[i])
			want.set(i, i-1, im[i])
		}
		c.EqV(fmt.Sprintf("%s: eigenvector %d and column %d of V", what, i, i), ed.EigenvectorAt(i), V.col(i))
	}
	c.EqT(what+": D", D, want)
	// residuals, column by column relative to the (pair of) vectors
	av, vd := t.mul(V), V.mul(D)
	// pairs closer than about 1e-6 of the norm are told apart by the documented
	// threshold of 1e-12, not at rounding level
	tol := 100 * float64(n+5) * eps * fro
	clustered := false
	for i := 0; i < n && !clustered; i++ {
		for k := 0; k < i && !clustered; k++ {
			clustered = math.Hypot(re[i]-re[k], im[i]-im[k]) < 1e-5*fro
		}
	}
	if clustered {
		tol += 4e-12 * math.Sqrt(float64(n)) * fro
	}
	for i := 0; i < n; i++ {
		vn := norm2(V.col(i))
		if im[i] > 0 {
			vn = math.Hypot(vn, norm2(V.col(i+1)))
		} else if im[i] < 0 {
			vn = math.Hypot(vn, norm2(V.col(i-1)))
		}
		c.Check(vn > 0, "%s: eigenvector %d is zero", what, i)
		r := make([]float64, n)
		for k := range r {
			r[k] = av.at(k, i) - vd.at(k, i)
		}
		c.Tol("AV=VD", norm2(r)/vn, tol, "%s: column %d of AV and VD differ, eigenvalue (%v,%v), spectrum %v %v", what, i, re[i], im[i], re, im)
	}
	c.Count("decompositions")
	c.CountN("conjugate pairs", pairs)
	// trace
	tr, s := 0.0, 0.0
	for i := 0; i < n; i++ {
		tr += t.at(i, i)
		s += re[i]
	}
	c.Tol("trace", math.Abs(tr-s), 50*float64(n+5)*eps*fro, "%s: eigenvalues sum to %v, the trace is %v", what, s, tr)
	if fro > 1e-3 && fro < 1e8 {
		if some {
			c.Check(ed.HasComplexEigenvalues(), "%s: complex eigenvalues not reported, imaginary parts %v", what, im)
		}
		if pairs == 0 {
			c.Check(!ed.HasComplexEigenvalues(), "%s: complex eigenvalues reported, imaginary parts %v", what, im)
		}
		if truth.realOnly {
			c.Check(!ed.HasComplexEigenvalues() && pairs == 0, "%s: real spectrum reported as complex: %v %v", what, re, im)
			c.Count("known real")
		}
		if truth.complexSome {
			c.Check(ed.HasComplexEigenvalues(), "%s: conjugate pairs not reported: %v %v", what, re, im)
			c.Count("known complex")
		}
	}
	if truth.re != nil {
		c.sameSpectrum("spectrum", what, re, im, truth.re, truth.im, 100*float64(n+5)*eps*fro*truth.sens)
	}
	if !sym {
		c.Count("non-symmetric")
	}
	c.EqM("input", m, t)
}

// sameSpectrum matches two spectra greedily within tol.
func (c *Ctx) sameSpectrum(name, what string, re, im, re2, im2 []float64, tol float64) {
	used := make([]bool, len(re2))
	for i := range re {
		b, bd := -1, math.Inf(1)
		for j := range re2 {
			if !used[j] {
				if d := math.Hypot(re[i]-re2[j], im[i]-im2[j]); d < bd {
					b, bd = j, d
				}
			}
		}
		used[b] = true
		c.Tol(name, bd, tol, "%s: eigenvalue (%v,%v) is none of %v %v", what, re[i], im[i], re2, im2)
	}
	c.Count("known spectra")
}

// ================================================================ D10 Hessenberg and Schur

func d10(c *Ctx) {
	n := c.decDim(60)
	t, name, truth := c.generalInput(n)
	c.d10(n, t, name, truth)
}

func d10int(c *Ctx) {
	n := c.Range(2, 8)
	c.d10(n, c.smallInts(n), "small integers", eigenTruth{})
}

func (c *Ctx) d10(n int, t *T, name string, truth eigenTruth) {
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s %d as %s", name, n, rep)
	c.Notef("%s", what)
	h, err := lin.NewHessenbergTransformer(m)
	c.must("Hessenberg of "+what, err)
	P := c.factor(what+" Hessenberg P", h.P(), n, n)
	H := c.factor(what+" H", h.H(), n, n)
	c.trans(what+" Hessenberg PT", h.P(), h.PT())
	c.orthogonal(what+" Hessenberg P", P)
	c.zeroBelow(what+" H", H, 1, 0)
	c.recon("A=PHP'", what+": A and P H P' differ", P.mul(H).mul(P.tr()), t, tolRecon)
	s, err := lin.NewSchurTransformer(m)
	c.must("Schur of "+what, err)
	P = c.factor(what+" Schur P", s.P(), n, n)
	S := c.factor(what+" T", s.T(), n, n)
	c.trans(what+" Schur PT", s.P(), s.PT())
	c.orthogonal(what+" Schur P", P)
	fro := t.fro()
	noise := 100 * float64(n+5) * eps * fro
	c.zeroBelow(what+" T", S, 1, noise)
	c.recon("A=PTP'", what+": A and P T P' differ", P.mul(S).mul(P.tr()), t, 5*tolRecon)
	blocks := 0
	var re, im []float64
	for i := 0; i < n; {
		if i+1 < n && math.Abs(S.at(i+1, i)) > noise {
			if i+2 < n {
				c.Check(math.Abs(S.at(i+2, i+1)) <= noise, "%s: diagonal block of T at %d is larger than 2: %v and %v", what, i, S.at(i+1, i), S.at(i+2, i+1))
			}
			a, b, d, e := S.at(i, i), S.at(i, i+1), S.at(i+1, i), S.at(i+1, i+1)
			q := (a - e) / 2
			disc := q*q + b*d
			c.Check(disc < noise*fro*10, "%s: block of order two at %d belongs to real eigenvalues: %v %v %v %v", what, i, a, b, d, e)
			w := math.Sqrt(math.Max(0, -disc))
			re = append(re, (a+e)/2, (a+e)/2)
			im = append(im, w, -w)
			blocks++
			i += 2
			continue
		}
		re = append(re, S.at(i, i))
		im = append(im, 0)
		i++
	}
	if truth.re != nil {
		c.sameSpectrum("T's spectrum", what, re, im, truth.re, truth.im, 1000*float64(n+5)*eps*fro*truth.sens)
	}
	if truth.complexSome {
		c.Check(blocks > 0, "%s: no block of order two for complex eigenvalues", what)
	}
	if truth.realOnly {
		c.Check(blocks == 0, "%s: %d blocks of order two for a real spectrum", what, blocks)
	}
	c.CountN("order-two blocks", blocks)
	c.EqM("input", m, t)
}

// ================================================================ D11 bidiagonal and tridiagonal

func d11bi(c *Ctx) {
	m, n := c.rectDims(66)
	t, name := c.rect(m, n)
	t, e := c.rescale(t, 400)
	name += fmt.Sprintf(" times 2^%d", e)
	a, rep := c.anyMat(t)
	what := name + " as " + rep
	c.Notef("%s", what)
	b, err := lin.NewBiDiagonalTransformer(a)
	c.must("NewBiDiagonalTransformer", err)
	U := c.factor(what+" U", b.U(), m, m)
	V := c.factor(what+" V", b.V(), n, n)
	B := c.factor(what+" B", b.B(), m, n)
	c.orthogonal(what+" U", U)
	c.orthogonal(what+" V", V)
	c.Check(b.IsUpperBiDiagonal() == (m >= n), "%s: upper bidiagonal is %v", what, b.IsUpperBiDiagonal())
	p := m
	if n < p {
		p = n
	}
	main, sec := b.MainDiagonalRef(), b.SecondaryDiagonalRef()
	c.Check(len(main) == p && len(sec) == p-1, "%s: diagonals of %d and %d entries", what, len(main), len(sec))
	want := newT(m, n)
	for i := 0; i < p; i++ {
		want.set(i, i, main[i])
		if i > 0 {
			if m >= n {
				want.set(i-1, i, sec[i-1])
			} else {
				want.set(i, i-1, sec[i-1])
			}
		}
	}
	c.EqT(what+" B and the exposed diagonals", B, want)
	c.recon("A=UBV'", what+": A and U B V' differ", U.mul(B).mul(V.tr()), t, tolRecon)
	if m < n {
		c.Count("lower")
	} else {
		c.Count("upper")
	}
	c.EqM("input", a, t)
}

func d11tri(c *Ctx) {
	n := c.decDim(66)
	t, name, _ := c.symInput(n)
	t, e := c.rescale(t, 400)
	name += fmt.Sprintf(" times 2^%d", e)
	in := t
	low := c.Chance(0.2)
	if low { // only the upper part is documented to be read
		in = t.clone()
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				in.set(i, j, c.val(vSpecial, 0))
			}
		}
	}
	a, rep := c.anyMat(in)
	what := fmt.Sprintf("%s %d as %s lower part filled %v", name, n, rep, low)
	c.Notef("%s", what)
	td, err := lin.NewTriDiagonalTransformer(a)
	c.must("NewTriDiagonalTransformer", err)
	Q := c.factor(what+" Q", td.Q(), n, n)
	S := c.factor(what+" T", td.T(), n, n)
	c.trans(what+" QT", td.Q(), td.QT())
	c.orthogonal(what+" Q", Q)
	main, sec := td.MainDiagonalRef(), td.SecondaryDiagonalRef()
	c.Check(len(main) == n && len(sec) == n-1, "%s: diagonals of %d and %d entries", what, len(main), len(sec))
	want := newT(n, n)
	for i := 0; i < n; i++ {
		want.set(i, i, main[i])
		if i > 0 {
			want.set(i-1, i, sec[i-1])
			want.set(i, i-1, sec[i-1])
		}
	}
	c.EqT(what+" T and the exposed diagonals", S, want)
	c.recon("A=QTQ'", what+": A and Q T Q' differ", Q.mul(S).mul(Q.tr()), t, tolRecon)
	c.EqM("input", a, in)
	c.Count("tridiagonal")
}

// ================================================================ D12 determinants

// exactDet is the determinant of a table of float64, exactly.
func exactDet(t *T) *big.Rat {
	n := t.r
	a := make([][]*big.Rat, n)
	for i := range a {
		a[i] = make([]*big.Rat, n)
		for j := range a[i] {
			a[i][j] = new(big.Rat).SetFloat64(t.at(i, j))
		}
	}
	det := big.NewRat(1, 1)
	for k := 0; k < n; k++ {
		p := -1
		for i := k; i < n; i++ {
			if a[i][k].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			return new(big.Rat)
		}
		if p != k {
			a[p], a[k] = a[k], a[p]
			det.Neg(det)
		}
		det.Mul(det, a[k][k])
		iv := new(big.Rat).Inv(a[k][k])
		for i := k + 1; i < n; i++ {
			if a[i][k].Sign() == 0 {
				continue
			}
			f := new(big.Rat).Mul(a[i][k], iv)
			for j := k + 1; j < n; j++ {
				x := new(big.Rat).Mul(f, a[k][j])
				a[i][j].Sub(a[i][j], x)
			}
		}
	}
	return det
}

func (c *Ctx) luDet(what string, t *T) float64 {
	lu, err := lin.NewLUDecomposition(c.mat(t))
	c.must("LU of "+what, err)
	d := lu.Determinant()
	if !lu.Solver().IsNonSingular() {
		c.Check(d == 0, "%s: reported singular, determinant %v", what, d)
		c.Count("singular")
	}
	return d
}

// smallPairs is similar to blocks (a w; -w a) with w far below one, a not
// always above it.
func (c *Ctx) smallPairs(n int) *T {
	t := newT(n, n)
	s := math.Pow(10, -3*c.Float())
	for i := 0; i < n; i++ {
		if i+1 < n && c.Chance(0.7) {
			w := s * c.sign() * math.Pow(10, -6*c.Float())
			a := s * c.sign() * (0.5 + c.Float())
			if c.Chance(0.3) {
				a = w * c.Sym()
			}
			g := 1 + c.Float()
			t.set(i, i, a)
			t.set(i+1, i+1, a)
			t.set(i, i+1, w*g)
			t.set(i+1, i, -w/g)
			i++
		} else {
			t.set(i, i, s*c.sign()*(0.5+c.Float()))
		}
	}
	if c.Chance(0.7) {
		u := c.randOrth(n)
		t = u.mul(t).mul(u.tr())
	}
	return t
}

func d12(c *Ctx) {
	n := c.Range(1, 8)
	var t *T
	name := ""
	spd, eig := false, true
	switch c.Intn(7) {
	case 6:
		t, name = c.smallPairs(n), "pairs of small imaginary part"
	case 0:
		t, name, spd = c.wellCond("Cholesky", n, n), "positive definite", true
	case 1:
		t, name = c.wellCond("LU", n, n), "well conditioned"
	case 2:
		t, name = c.wellCond("Eigen", n, n), "real spectrum"
	case 3:
		t, name = c.table(n, n, vInt), "integers"
	case 4:
		var tr eigenTruth
		t, name, tr = c.generalInput(n)
		_ = tr
	case 5:
		t, name = c.square(n)
	}
	c.fpT(t)
	k := t.cond()
	det, _ := exactDet(t).Float64()
	what := fmt.Sprintf("%s %d", name, n)
	c.Notef("%s cond %.3g", what, k)
	if !(k < 1e7) || math.IsInf(det, 0) || math.Abs(det) < 1e-200 {
		// (near) singular: what LU says must be consistent
		d := c.luDet(what, t)
		fro := t.fro()
		bound := 1.0
		for i := 0; i < n; i++ {
			bound *= fro
		}
		if det == 0 && bound < 1e200 {
			c.Tol("singular determinant", math.Abs(d), 100*float64(n*n)*eps*bound+1e-300, "%s: determinant %v of an exactly singular matrix", what, d)
			ed, err := lin.NewEigenDecomposition(c.mat(t))
			c.must("eigen of "+what, err)
			c.Tol("singular eigen determinant", math.Abs(ed.Determinant()), 1000*float64(n*n)*eps*bound+1e-300, "%s: eigen determinant %v of an exactly singular matrix", what, ed.Determinant())
			c.Count("exactly singular")
		}
		return
	}
	c.Count("exact determinants")
	rel := func(f float64) float64 { return f * float64(n+1) * eps * k * math.Abs(det) }
	m, rep := c.anyMat(t)
	lu, err := lin.NewLUDecompositionWithThreshold(m, 0)
	c.must("LU", err)
	c.Tol("LU", math.Abs(lu.Determinant()-det), rel(20), "%s as %s: LU determinant %v, exactly %v (cond %.3g)", what, rep, lu.Determinant(), det, k)
	if eig {
		ed, err := lin.NewEigenDecomposition(m)
		c.must("eigen of "+what, err)
		c.Tol("eigen", math.Abs(ed.Determinant()-det), rel(200), "%s as %s: eigen determinant %v, exactly %v (cond %.3g), eigenvalues %v %v", what, rep, ed.Determinant(), det, k, ed.RealEigenvalues(), ed.ImagEigenvalues())
		if ed.HasComplexEigenvalues() {
			c.Count("complex spectra")
		}
	}
	if spd {
		ch, err := lin.NewDefaultCholeskyDecomposition(m)
		c.must("Cholesky of "+what, err)
		c.Tol("Cholesky", math.Abs(ch.Determinant()-det), rel(20), "%s as %s: Cholesky determinant %v, exactly %v (cond %.3g)", what, rep, ch.Determinant(), det, k)
		c.Count("positive definite")
	}
	d := c.luDet(what, t)
	if d == 0 {
		return // below LU's threshold
	}
	// algebra of determinants
	if n > 1 {
		i := c.Intn(n)
		j := (i + c.Range(1, n-1)) % n
		x := t.clone()
		copy(x.a[i*n:(i+1)*n], t.a[j*n:(j+1)*n])
		copy(x.a[j*n:(j+1)*n], t.a[i*n:(i+1)*n])
		e := c.luDet(what, x)
		c.Tol("row exchange", math.Abs(e+d), rel(40), "%s: determinant %v, after exchanging two rows %v", what, d, e)
	}
	x := t.clone()
	f := pick(c.Rng, 2.0, -1.0, 0.5, 3.0)
	i := c.Intn(n)
	for j := 0; j < n; j++ {
		x.set(i, j, f*t.at(i, j))
	}
	if e := c.luDet(what, x); e != 0 {
		c.Tol("row scaling", math.Abs(e-f*d), rel(400), "%s: determinant %v, after scaling a row by %v %v", what, d, f, e)
	}
	if e := c.luDet(what, t.tr()); e != 0 {
		c.Tol("transpose", math.Abs(e-d), rel(40), "%s: determinant %v, of the transpose %v", what, d, e)
	}
	u := c.wellCond("LU", n, n)
	if e, ku := c.luDet("second factor", u), u.cond(); e != 0 && ku < 1e4 {
		if g := c.luDet("product", t.mul(u)); g != 0 {
			c.Tol("product", math.Abs(g-d*e), 100*float64(n+1)*eps*k*ku*math.Abs(d*e), "%s: determinants %v and %v, of the product %v", what, d, e, g)
		}
	}
}

// d12wide: determinants known as the product of a diagonal, whose partial
// products go far beyond the determinant in either direction.
func d12wide(c *Ctx) {
	n := c.Range(8, 40)
	d := make([]float64, n)
	up := c.Chance(0.5)
	span := 7
	kind := c.Intn(3)
	if kind == 0 {
		span = 9
	}
	for i := range d {
		e := c.Range(0, span)
		if (i < n/2) != up {
			e = -e
		}
		d[i] = (1 + c.Rng.Float()) * math.Pow(10, float64(e))
		if kind != 1 {
			d[i] *= c.sign()
		}
	}
	if c.Chance(0.3) {
		e := append([]float64{}, d...)
		for i, j := range c.Perm(n) {
			d[i] = e[j]
		}
	}
	want := new(big.Rat).SetInt64(1)
	for _, x := range d {
		want.Mul(want, new(big.Rat).SetFloat64(x))
	}
	t := diagT(d)
	what := "graded diagonal"
	if kind == 0 {
		what = "graded triangular, rows permuted"
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if c.Chance(0.4) {
					t.set(i, j, d[i]*(c.Rng.Float()-0.5))
				}
			}
		}
		p := c.randPermT(n)
		want.Mul(want, exactDet(p))
		t = p.mul(t)
	}
	c.fpT(t)
	det, _ := want.Float64()
	if math.IsInf(det, 0) || math.Abs(det) < 1e-290 {
		return
	}
	c.Count("graded determinants")
	tol := 4 * float64(n+2) * eps * math.Abs(det)
	m, rep := c.anyMat(t)
	c.Notef("%s %d as %s", what, n, rep)
	lu, err := lin.NewLUDecomposition(m)
	c.must("LU of "+what, err)
	c.Tol("LU graded", math.Abs(lu.Determinant()-det), tol, "%s %d as %s: LU determinant %v, want %v", what, n, rep, lu.Determinant(), det)
	if kind == 1 {
		ch, err := lin.NewDefaultCholeskyDecomposition(m)
		c.must("Cholesky of "+what, err)
		c.Tol("Cholesky graded", math.Abs(ch.Determinant()-det), 2*tol, "%s %d as %s: Cholesky determinant %v, want %v", what, n, rep, ch.Determinant(), det)
	}
	if kind != 0 {
		ed, err := lin.NewEigenDecomposition(m)
		c.must("eigen of "+what, err)
		c.Tol("eigen graded", math.Abs(ed.Determinant()-det), tol, "%s %d as %s: eigen determinant %v, want %v", what, n, rep, ed.Determinant(), det)
	}
}

func init() {
	register(&Prop{ID: "D08",
		Rule:      "eigenvalues real and sorted, V orthogonal, VT its exact transpose, eigenvectors its columns, A=VDV' normwise, constructed spectra recovered; square roots square to A or are refused",
		Technique: "runtime monitoring: factorization oracle with rounding bounds over generated and constructed symmetric matrices",
		Level:     "orders 1..66, repeated, clustered, graded and opposite spectra, dense and tridiagonal forms",
		WL:        []Workload{{Name: "symmetric", Quick: 12000, Thorough: 240000, Run: d08}, {Name: "nonsymmetric", Quick: 2000, Thorough: 40000, Run: d08ns}, {Name: "large", Quick: 30, Thorough: 750, Run: large(d08)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d08)}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d08)}},
		Need:      []string{"known spectra", "square roots", "square roots refused", "from tridiagonal", "extreme scales"}})
	register(&Prop{ID: "D09",
		Rule:      "conjugate pairs adjacent and ordered, D exactly the blocks of the reported eigenvalues, residual of every column of AV-VD relative to |A| |v|, trace identity, reality and spectrum against the construction",
		Technique: "runtime monitoring: residual and spectrum oracle over generated and constructed general matrices",
		Level:     "orders 1..60, 28 structures incl. defective, companion, cyclic and triangular ones",
		WL:        []Workload{{Name: "general", Quick: 30000, Thorough: 600000, Run: d09}, {Name: "large", Quick: 30, Thorough: 750, Run: large(d09)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d09)}, {Name: "small integers", Quick: 60000, Thorough: 3000000, Run: d09int}},
		Need:      []string{"conjugate pairs", "known real", "known complex", "known spectra", "non-symmetric"}})
	register(&Prop{ID: "D10",
		Rule:      "P orthogonal with exact transpose, H exactly Hessenberg, T block triangular up to rounding with order-two blocks of negative discriminant, both reconstruct A, T's spectrum against the construction",
		Technique: "runtime monitoring: similarity oracle with rounding bounds over generated and constructed general matrices",
		Level:     "orders 1..60, 28 structures",
		WL:        []Workload{{Name: "reductions", Quick: 20000, Thorough: 400000, Run: d10}, {Name: "large", Quick: 30, Thorough: 750, Run: large(d10)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d10)}, {Name: "small integers", Quick: 60000, Thorough: 3000000, Run: d10int}},
		Need:      []string{"order-two blocks", "known spectra"}})
	register(&Prop{ID: "D11",
		Rule:      "orthogonal factors, B and T exactly of the promised band form and equal to the exposed diagonals, A reconstructed normwise; the tridiagonal reduction also with an arbitrary lower part",
		Technique: "runtime monitoring: reduction oracle with rounding bounds over generated matrices",
		Level:     "shapes 1..66 by 1..66, all structures",
		WL:        []Workload{{Name: "bidiagonal", Quick: 20000, Thorough: 400000, Run: d11bi}, {Name: "tridiagonal", Quick: 20000, Thorough: 400000, Run: d11tri}, {Name: "large", Quick: 30, Thorough: 750, Run: large(d11bi)}, {Name: "faint", Quick: 8000, Thorough: 160000, Run: faint(d11bi)}, {Name: "scale", Quick: 4000, Thorough: 80000, Run: extreme(d11bi)}, {Name: "scale tridiagonal", Quick: 4000, Thorough: 80000, Run: extreme(d11tri)}, {Name: "large tridiagonal", Quick: 30, Thorough: 750, Run: large(d11tri)}, {Name: "faint tridiagonal", Quick: 8000, Thorough: 160000, Run: faint(d11tri)}},
		Need:      []string{"upper", "lower", "tridiagonal", "extreme scales"}})
	register(&Prop{ID: "D12",
		Rule:      "each reported determinant within a condition-scaled rounding bound of the exact rational determinant; exchange, scaling, transpose and product rules; zero when reported singular",
		Technique: "runtime monitoring: exact rational oracle plus metamorphic relations",
		Level:     "orders 1..8, condition numbers to 1e7; graded triangular and diagonal matrices to order 40",
		WL:        []Workload{{Name: "determinants", Quick: 80000, Thorough: 1600000, Run: d12}, {Name: "graded", Quick: 3000, Thorough: 60000, Run: d12wide}},
		Need:      []string{"graded determinants", "exact determinants", "singular", "exactly singular", "complex spectra", "positive definite"}})
}
