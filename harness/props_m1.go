package main

import (
	"fmt"
	"math"
	"sort"

	lin "github.com/jtejido/linear"
)

// ================================================================ M01 reads

// readAll reads m through every read accessor and compares with t.
func (c *Ctx) readAll(m lin.RealMatrix, name string, t *T) {
	diag := name == "Diag"
	if m.RowDimension() != t.r || m.ColumnDimension() != t.c {
		c.Failf("%s: dimensions %dx%d, want %dx%d", name, m.RowDimension(), m.ColumnDimension(), t.r, t.c)
	}
	c.Check(lin.IsSquare(m) == (t.r == t.c), "%s: IsSquare wrong for %dx%d", name, t.r, t.c)
	c.EqM(name+".At", m, t)
	// rows and columns: all of them for small matrices, a sample with both ends otherwise
	idx := func(n int) []int {
		if n <= 12 {
			return c.Perm(n)
		}
		o := []int{0, n - 1, c.Intn(n), c.Intn(n)}
		for _, b := range []int{51, 52, 53, 103, 104} {
			if b < n {
				o = append(o, b)
			}
		}
		return o
	}
	for _, i := range idx(t.r) {
		c.EqS(fmt.Sprintf("%s.RowAt(%d)", name, i), m.RowAt(i), t.row(i))
		c.EqV(fmt.Sprintf("%s.RowVectorAt(%d)", name, i), m.RowVectorAt(i), t.row(i))
		if !diag || t.r == 1 {
			c.EqM(fmt.Sprintf("%s.RowMatrixAt(%d)", name, i), m.RowMatrixAt(i), t.part(i, i, 0, t.c-1))
		}
	}
	for _, j := range idx(t.c) {
		c.EqS(fmt.Sprintf("%s.ColumnAt(%d)", name, j), m.ColumnAt(j), t.col(j))
		c.EqV(fmt.Sprintf("%s.ColumnVectorAt(%d)", name, j), m.ColumnVectorAt(j), t.col(j))
		if !diag || t.r == 1 {
			c.EqM(fmt.Sprintf("%s.ColumnMatrixAt(%d)", name, j), m.ColumnMatrixAt(j), t.part(0, t.r-1, j, j))
		}
	}
	d := m.Data()
	c.Check(len(d) == t.r, "%s.Data has %d rows, want %d", name, len(d), t.r)
	for i := range d {
		c.EqS(fmt.Sprintf("%s.Data row %d", name, i), d[i], t.row(i))
	}
	c.EqM(name+".Copy", m.Copy(), t)
	for k := 0; k < 3; k++ {
		r0, r1, c0, c1 := c.rng(t.r, t.c)
		want := t.part(r0, r1, c0, c1)
		if !diag || want.isDiag() {
			c.EqM(fmt.Sprintf("%s.SubMatrix(%d,%d,%d,%d)", name, r0, r1, c0, c1), m.SubMatrix(r0, r1, c0, c1), want)
			c.Count("sub-matrices")
		}
		// copies into caller slices: larger destinations keep their other entries
		er, ec := c.Intn(3), c.Intn(3)
		dst, exp := c.dest(want, er, ec)
		lin.CopySubMatrix(m, r0, r1, c0, c1, dst)
		c.sameDest(fmt.Sprintf("CopySubMatrix(%s,%d,%d,%d,%d)", name, r0, r1, c0, c1), dst, exp)
		// arbitrary selections
		sr, sc := c.selection(t.r), c.selection(t.c)
		sel := newT(len(sr), len(sc))
		for i := range sr {
			for j := range sc {
				sel.set(i, j, t.at(sr[i], sc[j]))
			}
		}
		c.EqM(fmt.Sprintf("SubMatrix(%s,%v,%v)", name, head(sr), head(sc)), lin.SubMatrix(m, sr, sc), sel)
		dst, exp = c.dest(sel, er, ec)
		lin.CopySubMatrixFromIndices(m, sr, sc, dst)
		c.sameDest(fmt.Sprintf("CopySubMatrixFromIndices(%s,%v,%v)", name, head(sr), head(sc)), dst, exp)
		c.Count("selections")
	}
	// reading changes nothing
	c.EqM(name+" after all reads", m, t)
}

func head(x []int) []int {
	if len(x) > 8 {
		return x[:8]
	}
	return x
}

// rng draws a non-empty inclusive range in rows and columns, often the whole
// matrix, a single entry or a strip across block borders.
func (c *Ctx) rng(r, k int) (int, int, int, int) {
	one := func(n int) (int, int) {
		switch c.Intn(6) {
		case 0:
			return 0, n - 1
		case 1:
			i := c.Intn(n)
			return i, i
		case 2:
			if n > 52 {
				return c.Range(40, 52), c.Range(52, n-1)
			}
		}
		a, b := c.Intn(n), c.Intn(n)
		if a > b {
			a, b = b, a
		}
		return a, b
	}
	a, b := one(r)
	d, e := one(k)
	return a, b, d, e
}

func (c *Ctx) selection(n int) []int {
	k := c.Range(1, 8)
	if c.Chance(0.05) {
		k = c.Range(60, 80)
	}
	o := make([]int, k)
	for i := range o {
		o[i] = c.Intn(n)
	}
	return o
}

func (c *Ctx) dest(want *T, er, ec int) (dst, exp [][]float64) {
	for i := 0; i < want.r+er; i++ {
		row := make([]float64, want.c+ec)
		for j := range row {
			row[j] = -7777 - float64(i*1000+j)
		}
		e := append([]float64{}, row...)
		if i < want.r {
			copy(e, want.row(i))
		}
		dst, exp = append(dst, row), append(exp, e)
	}
	return
}

func (c *Ctx) sameDest(what string, dst, exp [][]float64) {
	for i := range exp {
		c.EqS(fmt.Sprintf("%s destination row %d", what, i), dst[i], exp[i])
	}
}

func m01(c *Ctx) {
	r, k := c.dims()
	if c.WL == "small" {
		r, k = c.smallDims()
	}
	t := c.table(r, k, c.kind(vUnique, vReal, vSpecial, vInt, vWide))
	diag := false
	if c.Chance(0.15) {
		n := r
		if n > 110 {
			n = 110
		}
		t = diagT(c.slice(n, c.kind(vUnique, vReal, vInt)))
		diag = true
	}
	for _, rp := range append([]int{}, denseReps...) {
		if t.r*t.c > 3000 && c.Chance(0.5) {
			continue
		}
		m := c.build(t, rp)
		c.Notef("%s %dx%d", rName[rp], t.r, t.c)
		c.readAll(m, rName[rp], t)
	}
	if t.c == 1 {
		c.readAll(c.build(t, rA2DCol), "A2DCol", t)
	}
	if diag {
		c.readAll(c.build(t, rDiag), "Diag", t)
		dd := make([]float64, t.r)
		for i := range dd {
			dd[i] = t.at(i, i)
		}
		m, err := lin.NewRealMatrixWithDiagonal(dd)
		c.must("NewRealMatrixWithDiagonal", err)
		c.readAll(m, "WithDiagonal", t)
		m, err = lin.NewRealDiagonalMatrix(dd)
		c.must("NewRealDiagonalMatrix", err)
		c.readAll(m, "Diag", t)
		dm, err := lin.NewDiagonalMatrixFromSlice(dd)
		c.must("NewDiagonalMatrixFromSlice", err)
		c.readAll(dm, "Diag", t)
		c.EqS("Diag.DataRef", dm.DataRef(), dd)
		dm, err = lin.NewDiagonalMatrixWithDimension(t.r)
		c.must("NewDiagonalMatrixWithDimension", err)
		c.EqM("NewDiagonalMatrixWithDimension", dm, newT(t.r, t.r))
		m, err = lin.NewRealIdentityMatrix(t.r)
		c.must("NewRealIdentityMatrix", err)
		c.readAll(m, "Identity", ident(t.r))
	}
	// selections read through a foreign matrix too
	f := newFMat(t)
	sr, sc := c.selection(t.r), c.selection(t.c)
	sel := newT(len(sr), len(sc))
	for i := range sr {
		for j := range sc {
			sel.set(i, j, t.at(sr[i], sc[j]))
		}
	}
	c.EqM("SubMatrix(foreign)", lin.SubMatrix(f, sr, sc), sel)
	// fresh matrices are zero
	z, err := lin.NewRealMatrixWithDimension(t.r, t.c)
	c.must("NewRealMatrixWithDimension", err)
	c.EqM("NewRealMatrixWithDimension", z, newT(t.r, t.c))
	bz, err := lin.NewBlockRealMatrix(t.r, t.c)
	c.must("NewBlockRealMatrix", err)
	c.EqM("NewBlockRealMatrix", bz, newT(t.r, t.c))
	az, err := lin.NewArray2DRowRealMatrix(t.r, t.c)
	c.must("NewArray2DRowRealMatrix", err)
	c.EqM("NewArray2DRowRealMatrix", az, newT(t.r, t.c))
	if a, ok := c.build(t, rA2D).(*lin.Array2DRowRealMatrix); ok {
		for i, row := range a.DataRef() {
			c.EqS("A2D.DataRef", row, t.row(i))
		}
	}
}

// ================================================================ M02 mutation histories

func (c *Ctx) srcMat(t *T) (lin.RealMatrix, string) { return c.anyMat(t) }

func m02(c *Ctx) {
	r, k := c.dims()
	if c.WL == "small" {
		r, k = c.smallDims()
	}
	diag := c.WL == "diagonal"
	var t *T
	var m lin.RealMatrix
	var name string
	if diag {
		n := c.dim()
		if n > 110 {
			n = 110
		}
		t = diagT(c.slice(n, vUnique))
		m, name = c.build(t, rDiag), "Diag"
	} else {
		t = c.table(r, k, c.kind(vUnique, vReal, vInt))
		rp := denseReps[c.Intn(len(denseReps))]
		m, name = c.build(t, rp), rName[rp]
	}
	r, k = t.r, t.c
	c.Notef("%s %dx%d", name, r, k)
	model := t.clone()
	// other live matrices made from m earlier must not move with it
	type snap struct {
		m lin.RealMatrix
		t *T
		n string
	}
	var snaps []snap
	next := 1e6
	val := func() float64 {
		next++
		switch c.Intn(8) {
		case 0:
			return specials[c.Intn(len(specials))]
		case 1:
			return c.Sym()
		}
		return next
	}
	steps := c.Range(4, 30)
	if r*k > 5000 {
		steps = c.Range(3, 8)
	}
	for s := 0; s < steps; s++ {
		i, j := c.Intn(r), c.Intn(k)
		op := c.Intn(13)
		if c.WL == "borders" && c.Bool() {
			pickB := func(n int) int {
				o := []int{0, n - 1}
				for _, b := range []int{51, 52, 103, 104} {
					if b < n {
						o = append(o, b)
					}
				}
				return o[c.Intn(len(o))]
			}
			i, j = pickB(r), pickB(k)
		}
		desc := ""
		if diag {
			// values off the diagonal are zero of either sign
			z := func() float64 { return pick(c.Rng, 0, math.Copysign(0, -1)) }
			rowv := func(p int) []float64 {
				o := make([]float64, r)
				for q := range o {
					o[q] = z()
				}
				o[p] = val()
				return o
			}
			set := func(p int, v float64) { model.set(p, p, v) }
			switch op {
			case 0:
				v := val()
				m.SetEntry(i, i, v)
				set(i, v)
				desc = fmt.Sprintf("SetEntry(%d,%d,%v)", i, i, v)
			case 1:
				v := val()
				m.AddToEntry(i, i, v)
				set(i, model.at(i, i)+v)
				desc = fmt.Sprintf("AddToEntry(%d,%d,%v)", i, i, v)
			case 2:
				v := val()
				m.MultiplyEntry(i, i, v)
				set(i, model.at(i, i)*v)
				desc = fmt.Sprintf("MultiplyEntry(%d,%d,%v)", i, i, v)
			case 3:
				a := rowv(i)
				m.SetRow(i, a)
				set(i, a[i])
				desc = fmt.Sprintf("SetRow(%d)", i)
			case 4:
				a := rowv(i)
				m.SetColumn(i, a)
				set(i, a[i])
				desc = fmt.Sprintf("SetColumn(%d)", i)
			case 5:
				a := rowv(i)
				v, _ := c.anyVec(a)
				m.SetRowVector(i, v)
				set(i, a[i])
				desc = fmt.Sprintf("SetRowVector(%d)", i)
			case 6:
				a := rowv(i)
				v, _ := c.anyVec(a)
				m.SetColumnVector(i, v)
				set(i, a[i])
				desc = fmt.Sprintf("SetColumnVector(%d)", i)
			case 7:
				a := rowv(i)
				sm, _ := c.srcMat(&T{1, r, a})
				m.SetRowMatrix(i, sm)
				set(i, a[i])
				desc = fmt.Sprintf("SetRowMatrix(%d)", i)
			case 8:
				a := rowv(i)
				sm, _ := c.srcMat(&T{r, 1, a})
				m.SetColumnMatrix(i, sm)
				set(i, a[i])
				desc = fmt.Sprintf("SetColumnMatrix(%d)", i)
			case 9:
				if i != j {
					zz := z()
					switch c.Intn(3) {
					case 0:
						m.SetEntry(i, j, zz)
					case 1:
						m.AddToEntry(i, j, zz)
					case 2:
						m.MultiplyEntry(i, j, val())
					}
					desc = "zero off the diagonal"
				}
			default:
				a := c.Intn(r)
				b := c.Range(a, r-1)
				sub := newT(b-a+1, b-a+1)
				for q := a; q <= b; q++ {
					v := val()
					sub.set(q-a, q-a, v)
					set(q, v)
				}
				m.SetSubMatrix(sub.slices(), a, a)
				desc = fmt.Sprintf("SetSubMatrix(%d..%d)", a, b)
			}
		} else {
			rowv := func(n int) []float64 {
				o := make([]float64, n)
				for q := range o {
					o[q] = val()
				}
				return o
			}
			setRow := func(a []float64) { copy(model.a[i*k:(i+1)*k], a) }
			setCol := func(a []float64) {
				for q := range a {
					model.set(q, j, a[q])
				}
			}
			switch op {
			case 0:
				v := val()
				m.SetEntry(i, j, v)
				model.set(i, j, v)
				desc = fmt.Sprintf("SetEntry(%d,%d,%v)", i, j, v)
			case 1:
				v := val()
				m.AddToEntry(i, j, v)
				model.set(i, j, model.at(i, j)+v)
				desc = fmt.Sprintf("AddToEntry(%d,%d,%v)", i, j, v)
			case 2:
				v := val()
				m.MultiplyEntry(i, j, v)
				model.set(i, j, model.at(i, j)*v)
				desc = fmt.Sprintf("MultiplyEntry(%d,%d,%v)", i, j, v)
			case 3:
				a := rowv(k)
				m.SetRow(i, a)
				setRow(a)
				desc = fmt.Sprintf("SetRow(%d)", i)
			case 4:
				a := rowv(r)
				m.SetColumn(j, a)
				setCol(a)
				desc = fmt.Sprintf("SetColumn(%d)", j)
			case 5:
				a := rowv(k)
				v, n := c.anyVec(a)
				m.SetRowVector(i, v)
				setRow(a)
				desc = fmt.Sprintf("SetRowVector(%d,%s)", i, n)
			case 6:
				a := rowv(r)
				v, n := c.anyVec(a)
				m.SetColumnVector(j, v)
				setCol(a)
				desc = fmt.Sprintf("SetColumnVector(%d,%s)", j, n)
			case 7:
				a := rowv(k)
				sm, n := c.srcMat(&T{1, k, a})
				m.SetRowMatrix(i, sm)
				setRow(a)
				desc = fmt.Sprintf("SetRowMatrix(%d,%s)", i, n)
			case 8:
				a := rowv(r)
				sm, n := c.srcMat(&T{r, 1, a})
				m.SetColumnMatrix(j, sm)
				setCol(a)
				desc = fmt.Sprintf("SetColumnMatrix(%d,%s)", j, n)
			case 9, 10, 11:
				r0, r1, c0, c1 := c.rng(r, k)
				sub := newT(r1-r0+1, c1-c0+1)
				for q := range sub.a {
					sub.a[q] = val()
				}
				for a := r0; a <= r1; a++ {
					for b := c0; b <= c1; b++ {
						model.set(a, b, sub.at(a-r0, b-c0))
					}
				}
				m.SetSubMatrix(sub.slices(), r0, c0)
				desc = fmt.Sprintf("SetSubMatrix(%d..%d,%d..%d)", r0, r1, c0, c1)
			case 12: // a row or column of the matrix itself as the source
				if c.Bool() {
					q := c.Intn(r)
					v := m.RowVectorAt(q)
					a := model.row(q)
					m.SetRowVector(i, v)
					setRow(a)
					desc = fmt.Sprintf("SetRowVector(%d, own row %d)", i, q)
				} else {
					q := c.Intn(k)
					a := model.col(q)
					m.SetColumnMatrix(j, m.ColumnMatrixAt(q))
					setCol(a)
					desc = fmt.Sprintf("SetColumnMatrix(%d, own column %d)", j, q)
				}
			}
		}
		c.Notef("%s", desc)
		c.Count("mutations")
		if r*k <= 400 || s == steps-1 {
			c.EqM(fmt.Sprintf("%s after step %d %s", name, s, desc), m, model)
		} else {
			// the addressed row and column, and a sample
			c.EqS(fmt.Sprintf("%s row %d after %s", name, i, desc), m.RowAt(i), model.row(i))
			c.EqS(fmt.Sprintf("%s column %d after %s", name, j, desc), m.ColumnAt(j), model.col(j))
		}
		if c.Chance(0.1) && len(snaps) < 3 {
			cp := m.Copy()
			snaps = append(snaps, snap{cp, model.clone(), "copy"})
			if c.Bool() { // continue on the copy, keep the original as witness
				snaps[len(snaps)-1].m, m = m, cp
			}
			c.Count("copies on the way")
		}
	}
	c.EqM(name+" at the end", m, model)
	for _, s := range snaps {
		c.EqM("an earlier "+s.n, s.m, s.t)
	}
}

// m02uninit: a zero Array2DRowRealMatrix is given its data by SetSubMatrix at the origin.
func m02uninit(c *Ctx) {
	r, k := c.smallDims()
	t := c.table(r, k, vUnique)
	m := new(lin.Array2DRowRealMatrix)
	src := t.slices()
	empty := func(when string) {
		c.Check(m.RowDimension() == 0 && m.ColumnDimension() == 0 && len(m.Data()) == 0, "uninitialised matrix %s: %dx%d", when, m.RowDimension(), m.ColumnDimension())
	}
	empty("at first")
	for n := c.Intn(4); n > 0; n-- { // mistakes leave it as it was
		s, a, b := src, c.Range(-1, 2), c.Range(-1, 2)
		if r > 1 && c.Bool() {
			s, a, b = t.slices(), 0, 0
			i := c.Range(1, r-1)
			s[i] = append(s[i], 1)[:pick(c.Rng, k-1, k+1)]
		} else if a == 0 && b == 0 {
			a = 1
		}
		p, bad := c.Guard(func() { m.SetSubMatrix(s, a, b) })
		c.Check(bad, "uninitialised matrix: SetSubMatrix at (%d,%d) of %d rows accepted", a, b, len(s))
		msg, ok := libErr(p)
		c.Check(ok, "uninitialised matrix: SetSubMatrix at (%d,%d) refused with %s", a, b, msg)
		empty("after a refused SetSubMatrix")
		p, bad = c.Guard(func() { m.At(0, 0) })
		msg, ok = libErr(p)
		c.Check(bad && ok, "uninitialised matrix: At(0,0) ended with %s", msg)
		c.Count("refused initialisations")
	}
	m.SetSubMatrix(src, 0, 0)
	c.Notef("uninitialised %dx%d", r, k)
	c.EqM("SetSubMatrix on an uninitialised matrix", m, t)
	i, j := c.Intn(r), c.Intn(k)
	m.SetEntry(i, j, -5)
	t.set(i, j, -5)
	c.EqM("after SetEntry", m, t)
}

// ================================================================ M03 elementwise

func m03(c *Ctx) {
	r, k := c.dims()
	if c.WL == "small" {
		r, k = c.smallDims()
	}
	kinds := []int{vInt, vReal, vSpecial, vWide, vIntBig}
	ta := c.table(r, k, c.kind(kinds...))
	tb := c.table(r, k, c.kind(kinds...))
	if c.Chance(0.12) {
		n := r
		if n > 110 {
			n = 110
		}
		ta, tb = diagT(c.slice(n, c.kind(vInt, vReal))), diagT(c.slice(n, c.kind(vInt, vReal)))
		if c.Bool() {
			tb = c.table(n, n, vReal)
		}
		r, k = n, n
	}
	// left operand is a library matrix, right operand anything
	ra := c.rep(ta, false, true)
	if ra == rDiag && !tb.isDiag() {
		ra = rBlock
	}
	a := c.build(ta, ra)
	b, nb := c.anyMat(tb)
	if c.Chance(0.1) {
		b, tb, nb = a, ta, "itself"
	}
	na := rName[ra]
	c.Notef("%s %s %dx%d", na, nb, r, k)
	c.Count("pair " + na + "/" + nb)
	bin := func(op func(x, y float64) float64) *T {
		o := newT(r, k)
		for i := range o.a {
			o.a[i] = op(ta.a[i], tb.a[i])
		}
		return o
	}
	c.EqM(na+".Add("+nb+")", a.Add(b), bin(func(x, y float64) float64 { return x + y }))
	c.EqM(na+".Subtract("+nb+")", a.Subtract(b), bin(func(x, y float64) float64 { return x - y }))
	s := c.val(c.kind(vInt, vReal, vWide, vSpecial), 0)
	if ra == rDiag {
		s = c.val(vReal, 0)
	}
	un := func(op func(x float64) float64) *T {
		o := newT(r, k)
		for i := range o.a {
			o.a[i] = op(ta.a[i])
		}
		return o
	}
	c.EqM(fmt.Sprintf("%s.ScalarMultiply(%v)", na, s), a.ScalarMultiply(s), func() *T {
		o := un(func(x float64) float64 { return x * s })
		if ra == rDiag {
			// what is not stored is a zero without a sign
			for i := range o.a {
				if i/k != i%k {
					o.a[i] = 0
				}
			}
		}
		return o
	}())
	if ra == rDiag && r > 1 {
		s = 0
	}
	c.EqM(fmt.Sprintf("%s.ScalarAdd(%v)", na, s), a.ScalarAdd(s), un(func(x float64) float64 { return x + s }))
	tt := a.Transpose()
	c.EqM(na+".Transpose", tt, ta.tr())
	c.EqM(na+".Transpose.Transpose", tt.Transpose(), ta)
	if r == k {
		// want is exact for infinities and NaN; finite terms may be added in any order
		want, sum, inf := 0.0, 0.0, 0.0
		for i := 0; i < r; i++ {
			x := ta.at(i, i)
			want += x
			if math.IsInf(x, 0) || math.IsNaN(x) {
				inf += x
			} else {
				sum += math.Abs(x)
			}
		}
		switch got := a.Trace(); {
		case sum > math.MaxFloat64: // may or may not overflow on the way
			c.Check(inf == 0 || !(math.Abs(got) <= math.MaxFloat64), "%s.Trace = %v with an infinity or NaN on the diagonal", na, got)
		case inf != 0:
			c.Check(same(got, inf), "%s.Trace = %v, want %v", na, got, inf)
		default:
			c.Tol("trace", math.Abs(got-want), 4*float64(r)*eps*sum+1e-320, "%s.Trace = %v, want %v", na, got, want)
		}
		c.Count("traces")
	}
}

// ================================================================ M04 products

func (c *Ctx) productDims() (int, int, int) {
	for {
		a, b, d := c.dim(), c.dim(), c.dim()
		if c.Chance(0.2) {
			b = a
		}
		if a*b*d <= 1500000 && a*b <= 17000 && b*d <= 17000 {
			return a, b, d
		}
	}
}

func m04(c *Ctx) {
	n, p, q := c.productDims()
	if c.WL == "small" {
		n, p, q = c.Range(1, 7), c.Range(1, 7), c.Range(1, 7)
	}
	exact := c.Chance(0.6)
	kd := func() int {
		if exact {
			return c.kind(vInt, vSparse, vInt)
		}
		return c.kind(vReal, vWide)
	}
	ta, tb := c.table(n, p, kd()), c.table(p, q, kd())
	if c.Chance(0.1) {
		ta = diagT(c.slice(p, kd()))
		n = p
	}
	if c.Chance(0.1) {
		tb = diagT(c.slice(p, kd()))
		q = p
	}
	ra := c.rep(ta, false, true)
	a := c.build(ta, ra)
	b, nb := c.anyMat(tb)
	na := rName[ra]
	if n == p && c.Chance(0.15) {
		b, tb, nb, q = a, ta, "itself", p
	}
	c.Notef("%s %dx%d * %s %dx%d exact=%v", na, n, p, nb, p, q, exact)
	c.Count("pair " + na + "/" + nb)
	cmp := func(what string, got lin.RealMatrix, x, y *T) {
		want := x.mul(y)
		if exact {
			c.EqM(what, got, want)
			return
		}
		c.Near("product", what, read(got), want, x.abs().mul(y.abs()), 2*float64(x.c+2)*eps)
	}
	cmp(na+".Multiply("+nb+")", a.Multiply(b), ta, tb)
	c.Count("products")
	// pre-multiplication: z a
	z := c.Range(1, 60)
	if z*n*p > 1500000 {
		z = 2
	}
	tz := c.table(z, n, kd())
	zm, nz := c.anyMat(tz)
	cmp(na+".PreMultiplyMatrix("+nz+")", a.PreMultiplyMatrix(zm), tz, ta)
	if ra == rDiag || nb == "Diag" {
		c.Count("diagonal products")
	}
	// vectors
	x, y := c.slice(p, kd()), c.slice(n, kd())
	cmpS := func(what string, got []float64, l, r *T) { cmp(what, newFMat(&T{l.r, r.c, got}), l, r) }
	vx, nx := c.anyVec(x)
	vy, ny := c.anyVec(y)
	g := a.Operate(append([]float64{}, x...))
	c.Check(len(g) == n, "%s.Operate: length %d, want %d", na, len(g), n)
	cmpS(na+".Operate", g, ta, colT(x))
	gv := a.OperateVector(vx)
	c.Check(gv.Dimension() == n, "%s.OperateVector: dimension %d, want %d", na, gv.Dimension(), n)
	cmpS(na+".OperateVector("+nx+")", readV(gv), ta, colT(x))
	g = a.PreMultiply(append([]float64{}, y...))
	c.Check(len(g) == p, "%s.PreMultiply: length %d, want %d", na, len(g), p)
	cmpS(na+".PreMultiply", g, &T{1, n, y}, ta)
	gv = a.PreMultiplyVector(vy)
	c.Check(gv.Dimension() == p, "%s.PreMultiplyVector: dimension %d, want %d", na, gv.Dimension(), p)
	cmpS(na+".PreMultiplyVector("+ny+")", readV(gv), &T{1, n, y}, ta)
	c.CountN("matrix-vector products", 4)
	// outer product: every entry is one product, hence exact
	if n*p <= 12000 {
		o := newT(n, p)
		for i := range y {
			for j := range x {
				o.set(i, j, y[i]*x[j])
			}
		}
		c.EqM("OuterProduct("+ny+","+nx+")", lin.OuterProduct(vy, vx), o)
		c.Count("outer products")
	}
}

// m04special: infinities and NaN reach exactly the entries of the product they
// contribute to. Off-diagonal entries of diagonal matrices contribute nothing.
func m04special(c *Ctx) {
	n, p, q := c.productDims()
	if c.Chance(0.8) {
		n, p, q = c.Range(1, 9), c.Range(1, 9), c.Range(1, 9)
	}
	taint := func(t *T) *T {
		for k := c.Range(0, 3); k > 0; k-- {
			t.a[pick(c.Rng, c.Intn(len(t.a)), len(t.a)-1, 0)] = pick(c.Rng, math.NaN(), math.Inf(1), math.Inf(-1))
			c.Count("special entries")
		}
		return t
	}
	ta, tb := taint(c.table(n, p, c.kind(vInt, vSparse))), taint(c.table(p, q, c.kind(vInt, vSparse)))
	c.fpT(ta)
	c.fpT(tb)
	ra := c.rep(ta, false, true)
	a := c.build(ta, ra)
	b, nb := c.anyMat(tb)
	na := rName[ra]
	c.Notef("%s %dx%d * %s %dx%d", na, n, p, nb, p, q)
	cmp := func(what string, got []float64, l, r *T, ld, rd bool) {
		c.Check(len(got) == l.r*r.c, "%s: %d entries, want %d", what, len(got), l.r*r.c)
		for i := 0; i < l.r; i++ {
			for j := 0; j < r.c; j++ {
				want := 0.0
				for k := 0; k < l.c; k++ {
					if ld && k != i || rd && k != j {
						continue
					}
					want += l.at(i, k) * r.at(k, j)
				}
				g := got[i*r.c+j]
				if (ld || rd) && g != g { // zeros beside the diagonal may count as terms
					bad := false
					for k := 0; k < l.c; k++ {
						x := l.at(i, k) * r.at(k, j)
						bad = bad || x != x || math.IsInf(x, 0)
					}
					if bad {
						continue
					}
				}
				c.Check(c.same(g, want), "%s: entry (%d,%d) is %v, want %v, row %v column %v", what, i, j, g, want, l.row(i), r.col(j))
				if want != want || math.IsInf(want, 0) {
					c.Count("special products")
				}
			}
		}
	}
	da, db := ra == rDiag, nb == "Diag"
	m := a.Multiply(b)
	c.Check(m.RowDimension() == n && m.ColumnDimension() == q, "%s.Multiply(%s) is %dx%d", na, nb, m.RowDimension(), m.ColumnDimension())
	cmp(na+".Multiply("+nb+")", read(m).a, ta, tb, da, db)
	z := c.Range(1, 5)
	tz := taint(c.table(z, n, vInt))
	zm, nz := c.anyMat(tz)
	m = a.PreMultiplyMatrix(zm)
	c.Check(m.RowDimension() == z && m.ColumnDimension() == p, "%s.PreMultiplyMatrix(%s) is %dx%d", na, nz, m.RowDimension(), m.ColumnDimension())
	if nz != "Foreign" { // else the product is the harness's own
		cmp(na+".PreMultiplyMatrix("+nz+")", read(m).a, tz, ta, nz == "Diag", da)
	}
	x, y := taint(c.table(p, 1, vInt)), taint(c.table(1, n, vInt))
	vx, nx := c.anyVec(x.a)
	vy, ny := c.anyVec(y.a)
	cmp(na+".Operate", a.Operate(append([]float64{}, x.a...)), ta, x, da, false)
	cmp(na+".OperateVector("+nx+")", readV(a.OperateVector(vx)), ta, x, da, false)
	cmp(na+".PreMultiply", a.PreMultiply(append([]float64{}, y.a...)), y, ta, false, da)
	cmp(na+".PreMultiplyVector("+ny+")", readV(a.PreMultiplyVector(vy)), y, ta, false, da)
	if n*p < 3000 {
		o := lin.OuterProduct(vy, vx)
		for i := 0; i < n; i++ {
			for j := 0; j < p; j++ {
				c.Check(c.same(o.At(i, j), y.a[i]*x.a[j]), "outer product (%d,%d) of %v and %v is %v", i, j, y.a[i], x.a[j], o.At(i, j))
			}
		}
	}
}

func m04pow(c *Ctx) {
	var t *T
	p := c.Intn(14)
	exact := true
	if c.Chance(0.2) { // large exponents: signed permutations and the identity's relatives
		n := pick(c.Rng, 1, 2, 3, 10, 52, 53, 66)
		to := c.Perm(n)
		if c.Chance(0.2) {
			sort.Ints(to)
		}
		for _, j := range to {
			c.FPi(j)
		}
		p = c.Range(0, 1<<uint(c.Range(5, 40)))
		if c.Bool() {
			p = 1<<uint(c.Range(0, 40)) + c.Range(-1, 1)
		}
		t := newT(n, n)
		sign := pick(c.Rng, 1.0, -1.0)
		want := newT(n, n)
		for i, j := range to {
			t.set(i, j, sign)
			cyc := 1
			for x := j; x != i; x = to[x] {
				cyc++
			}
			x := i
			for k := p % cyc; k > 0; k-- {
				x = to[x]
			}
			want.set(i, x, 1)
			if sign < 0 && p%2 == 1 {
				want.set(i, x, -1)
			}
		}
		m2, name2 := c.anyMat(t)
		c.Notef("Power(%s permutation of %d, %d)", name2, n, p)
		c.EqM(fmt.Sprintf("Power(%s,%d)", name2, p), lin.Power(m2, p), want)
		c.Count("large powers")
		return
	}
	switch c.Intn(5) {
	case 0, 1:
		n := c.Range(1, 4)
		t = newT(n, n)
		for i := range t.a {
			t.a[i] = float64(c.Range(-1, 1))
		}
	case 2:
		t = c.randPermT(pick(c.Rng, 3, 10, 52, 53, 66))
		p = c.Intn(40)
	case 3:
		t = diagT(c.slice(pick(c.Rng, 1, 3, 53), vReal))
		for i := range t.a {
			t.a[i] = math.Trunc(t.a[i] * 3)
		}
	case 4:
		n := c.Range(2, 12)
		t = c.table(n, n, vReal)
		exact = false
		p = c.Intn(9)
	}
	c.fpT(t)
	m, name := c.anyMat(t)
	c.Notef("Power(%s %dx%d, %d)", name, t.r, t.r, p)
	want := ident(t.r)
	ab := ident(t.r)
	for i := 0; i < p; i++ {
		want = want.mul(t)
		ab = ab.mul(t.abs())
	}
	got := lin.Power(m, p)
	if exact {
		c.EqM(fmt.Sprintf("Power(%s,%d)", name, p), got, want)
	} else {
		c.Near("power", fmt.Sprintf("Power(%s,%d)", name, p), read(got), want, ab, 2*float64(p+1)*float64(t.r+2)*eps)
	}
	c.EqM("operand of Power", m, t)
	c.Count("powers")
}

// ================================================================ M05 walks

type recVisit struct {
	r, c int
	v    float64
}

type recorder struct {
	starts, ends int
	args         [6]int
	visits       []recVisit
	bad          string
	ret          float64
	f            func(r, c int, v float64) float64
}

func (q *recorder) Start(rows, columns, r0, r1, c0, c1 int) {
	if q.starts > 0 || q.ends > 0 || len(q.visits) > 0 {
		q.bad = "Start called late or twice"
	}
	q.starts++
	q.args = [6]int{rows, columns, r0, r1, c0, c1}
}
func (q *recorder) note(r, c int, v float64) {
	if q.starts != 1 || q.ends > 0 {
		q.bad = "Visit outside Start..End"
	}
	q.visits = append(q.visits, recVisit{r, c, v})
}
func (q *recorder) End() float64 {
	if q.starts != 1 {
		q.bad = "End without Start"
	}
	q.ends++
	return q.ret
}

type recP struct{ recorder }

func (q *recP) Visit(r, c int, v float64) { q.note(r, c, v) }

type recC struct{ recorder }

func (q *recC) Visit(r, c int, v float64) float64 { q.note(r, c, v); return q.f(r, c, v) }

const (
	wRow = iota
	wCol
	wOpt
)

// walkP / walkC dispatch one of the walks.
func walkP(m lin.RealMatrix, order int, bounded bool, v lin.RealMatrixPreservingVisitor, a, b, d, e int) float64 {
	switch {
	case order == wRow && bounded:
		return m.WalkInRowOrderBounded(v, a, b, d, e)
	case order == wRow:
		return m.WalkInRowOrder(v)
	case order == wCol && bounded:
		return m.WalkInColumnOrderBounded(v, a, b, d, e)
	case order == wCol:
		return m.WalkInColumnOrder(v)
	case bounded:
		return m.WalkInOptimizedOrderBounded(v, a, b, d, e)
	}
	return m.WalkInOptimizedOrder(v)
}

func walkC(m lin.RealMatrix, order int, bounded bool, v lin.RealMatrixChangingVisitor, a, b, d, e int) float64 {
	switch {
	case order == wRow && bounded:
		return m.WalkInUpdateRowOrderBounded(v, a, b, d, e)
	case order == wRow:
		return m.WalkInUpdateRowOrder(v)
	case order == wCol && bounded:
		return m.WalkInUpdateColumnOrderBounded(v, a, b, d, e)
	case order == wCol:
		return m.WalkInUpdateColumnOrder(v)
	case bounded:
		return m.WalkInUpdateOptimizedOrderBounded(v, a, b, d, e)
	}
	return m.WalkInUpdateOptimizedOrder(v)
}

var orderName = []string{"RowOrder", "ColumnOrder", "OptimizedOrder"}

// checkWalk judges a recorded walk event log against the trace specification.
func (c *Ctx) checkWalk(what string, q *recorder, t *T, order, a, b, d, e int, got float64) {
	c.checks++
	c.CountN("visits", len(q.visits))
	if q.bad != "" {
		c.Failf("%s: %s", what, q.bad)
	}
	if q.starts != 1 || q.ends != 1 {
		c.Failf("%s: Start called %d times, End %d times", what, q.starts, q.ends)
	}
	if w := [6]int{t.r, t.c, a, b, d, e}; q.args != w {
		c.Failf("%s: Start received %v, want %v", what, q.args, w)
	}
	if !c.same(got, q.ret) {
		c.Failf("%s: returned %v, End returned %v", what, got, q.ret)
	}
	want := (b - a + 1) * (e - d + 1)
	if len(q.visits) != want {
		c.Failf("%s: %d visits, want %d", what, len(q.visits), want)
	}
	seen := make([]bool, t.r*t.c)
	for n, v := range q.visits {
		if v.r < a || v.r > b || v.c < d || v.c > e {
			c.Failf("%s: visit %d at (%d,%d) outside rows %d..%d columns %d..%d", what, n, v.r, v.c, a, b, d, e)
		}
		if seen[v.r*t.c+v.c] {
			c.Failf("%s: entry (%d,%d) visited twice", what, v.r, v.c)
		}
		seen[v.r*t.c+v.c] = true
		if !c.same(v.v, t.at(v.r, v.c)) {
			c.Failf("%s: entry (%d,%d) visited with %v, holds %v", what, v.r, v.c, v.v, t.at(v.r, v.c))
		}
		er, ec := v.r, v.c
		switch order {
		case wRow:
			er, ec = a+n/(e-d+1), d+n%(e-d+1)
		case wCol:
			er, ec = a+n%(b-a+1), d+n/(b-a+1)
		}
		if er != v.r || ec != v.c {
			c.Failf("%s: visit %d is (%d,%d), the promised order has (%d,%d)", what, n, v.r, v.c, er, ec)
		}
	}
}

// abandon is what a visitor panics with that gives up.
type abandon struct{ i, j int }

func m05(c *Ctx) {
	r, k := c.dims()
	if c.WL == "small" {
		r, k = c.smallDims()
	}
	t := c.table(r, k, c.kind(vUnique, vReal, vSpecial))
	rp := denseReps[c.Intn(len(denseReps))]
	if c.Chance(0.12) {
		n := r
		if n > 60 {
			n = 60
		}
		t, rp = diagT(c.slice(n, vUnique)), rDiag
		r, k = n, n
	}
	m := c.build(t, rp)
	name := rName[rp]
	c.Notef("%s %dx%d", name, r, k)
	for w := 0; w < 3; w++ {
		order := c.Intn(3)
		bounded := c.Bool()
		a, b, d, e := 0, r-1, 0, k-1
		if bounded {
			a, b, d, e = c.rng(r, k)
		}
		c.Count("walk " + orderName[order] + map[bool]string{true: " bounded", false: ""}[bounded])
		p := &recP{}
		p.ret = c.Sym()
		what := fmt.Sprintf("%s walk %s[%d..%d,%d..%d]", name, orderName[order], a, b, d, e)
		c.Notef("%s", what)
		got := walkP(m, order, bounded, p, a, b, d, e)
		c.checkWalk(what, &p.recorder, t, order, a, b, d, e, got)
		c.EqM(name+" after a non-modifying walk", m, t)
		order = c.Intn(3)
		bounded = c.Bool()
		a, b, d, e = 0, r-1, 0, k-1
		if bounded {
			a, b, d, e = c.rng(r, k)
		}
		c.Count("update walk " + orderName[order] + map[bool]string{true: " bounded", false: ""}[bounded])
		q := &recC{}
		q.ret = c.Sym()
		n := float64(w+1) * 1e7
		after := t.clone()
		mode := c.Intn(9)
		done := make([]bool, r*k)
		stop := -1
		if mode == 8 {
			stop = c.Intn((b - a + 1) * (e - d + 1))
		}
		q.f = func(i, j int, v float64) float64 {
			n++
			x := n
			if mode == 1 {
				x = v // stores the value it was given
			} else if mode == 2 {
				x = 2*v + 1
			} else if mode == 3 {
				x = -v
			} else if mode == 4 {
				if (i+j)%3 == 0 {
					x = v
				} else if (i+j)%3 == 1 {
					x = []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1), math.Inf(-1), 5e-324}[(i*7+j)%6]
				}
			} else if mode == 5 {
				// the visitor may read the matrix it walks over: entries visited
				// already hold what was stored, the others what they held
				if y := m.At(i, j); !c.same(y, v) {
					q.bad = fmt.Sprintf("At(%d,%d) during the visit reads %v, visited with %v", i, j, y, v)
				}
				if k := len(q.visits); k > 1 {
					w := q.visits[k-2]
					if y := m.At(w.r, w.c); !c.same(y, after.at(w.r, w.c)) {
						q.bad = fmt.Sprintf("At(%d,%d) after its visit reads %v, stored %v", w.r, w.c, y, after.at(w.r, w.c))
					}
				}
			}
			if rp == rDiag && i != j {
				x = 0
			}
			done[i*k+j] = true
			if mode == 7 && c.Chance(3/float64(r*k)) {
				// a walk within the walk sees what is stored by then
				c.Count("walks within walks")
				w := &recP{}
				w.ret = c.Sym()
				o := c.Intn(3)
				got := walkP(m, o, false, w, 0, r-1, 0, k-1)
				c.checkWalk("walk within a walk "+orderName[o], &w.recorder, after, o, 0, r-1, 0, k-1, got)
			}
			if mode == 8 && len(q.visits) == stop+1 {
				panic(abandon{i, j})
			}
			if mode == 6 && c.Chance(0.4) {
				// the visitor stores into an entry not visited yet, which is
				// then visited with what it holds by that time
				c.Count("entries stored ahead")
				u := c.Intn(r * k)
				if c.Bool() {
					u = pick(c.Rng, (i*k+j+1)%(r*k), (i*k+j+k)%(r*k))
				}
				if !done[u] && (rp != rDiag || u/k == u%k) {
					y := c.Sym()
					m.SetEntry(u/k, u%k, y)
					t.set(u/k, u%k, y)
					after.set(u/k, u%k, y)
				}
			}
			after.set(i, j, x)
			return x
		}
		what = fmt.Sprintf("%s update walk %s[%d..%d,%d..%d]", name, orderName[order], a, b, d, e)
		c.Notef("%s", what)
		if mode == 8 {
			// a visitor may give up: what was stored before stays, no more is touched
			c.Count("walks given up")
			p, bad := c.Guard(func() { walkC(m, order, bounded, q, a, b, d, e) })
			_, own := p.(abandon)
			c.Check(bad && own, "%s: the visitor's panic came out as %v", what, p)
			c.Check(len(q.visits) == stop+1, "%s: %d visits though the visitor gave up at visit %d", what, len(q.visits), stop)
			c.EqM(name+" after a given up "+what, m, after)
			t = after
			continue
		}
		got = walkC(m, order, bounded, q, a, b, d, e)
		c.checkWalk(what, &q.recorder, t, order, a, b, d, e, got)
		c.EqM(name+" after "+what, m, after)
		t = after
	}
}

func init() {
	const judge = "every case draws shapes (favouring 1, the block size 52 and its multiples, the factories' 4096-entry threshold), values and storage kinds from the seed; a case is non-trivial if it involves more than one entry and at least one oracle was evaluated; cases are distinct by a hash of the generated numbers, storage kinds and operations"
	register(&Prop{ID: "M01", Rule: judge, Technique: "runtime monitoring: reference-table oracle over every read accessor",
		Level: "Held on the executed cases; exact comparison of every accessor with a plain table. Trusts the harness's table and that generated shapes reach the storage code's branches (statement coverage is in the evidence).",
		WL:    []Workload{{"shapes", 2000, 20000, m01, false}, {"small", 2400, 48000, m01, false}}, Need: []string{"selections", "sub-matrices"}})
	register(&Prop{ID: "M02", Rule: judge + "; a history is 3 to 30 mutating calls", Technique: "runtime monitoring: executable sequential model over mutation histories",
		Level: "Held on the executed histories; the model is a plain table with unique values written, compared exactly.",
		WL:    []Workload{{"shapes", 9000, 60000, m02, false}, {"small", 8000, 160000, m02, false}, {"borders", 4200, 28000, m02, false}, {"diagonal", 3000, 60000, m02, false}, {"uninitialised", 120, 2400, m02uninit, false}}, Need: []string{"mutations", "copies on the way"}})
	register(&Prop{ID: "M03", Rule: judge, Technique: "runtime monitoring: entrywise reference oracle over operand storage combinations",
		Level: "Held on the executed cases; entries compared bit for bit, the sign of zero included (any NaN equal to any other), the trace within summation rounding.",
		WL:    []Workload{{"shapes", 10800, 72000, m03, false}, {"small", 8000, 160000, m03, false}}, Need: []string{"traces"}})
	register(&Prop{ID: "M04", Rule: judge + "; integer-valued cases are compared exactly, real ones within 2(n+2) eps |A||B| entrywise", Technique: "runtime monitoring: exact and componentwise-error-bound oracle for products",
		Level: "Held on the executed cases; integer data make the oracle exact, so a mis-indexed or dropped term cannot hide in rounding.",
		WL:    []Workload{{"shapes", 3360, 22400, m04, false}, {"small", 4800, 96000, m04, false}, {"powers", 1920, 38400, m04pow, false}, {"special", 6000, 120000, m04special, false}}, Need: []string{"special products", "products", "powers", "outer products", "diagonal products"}})
	register(&Prop{ID: "M05", Rule: judge + "; each case performs six walks, each recorded as an event log", Technique: "runtime monitoring: offline trace checker over recorded visitor events",
		Level: "Held on the executed walks; the recorded Start/Visit/End events are checked against the trace specification and the stored result against the returned values.",
		WL:    []Workload{{"shapes", 12000, 80000, m05, false}, {"small", 16000, 320000, m05, false}}, Need: []string{"entries stored ahead", "walks within walks", "walks given up", "visits", "walk OptimizedOrder bounded", "update walk OptimizedOrder bounded", "update walk ColumnOrder bounded"}})
}
