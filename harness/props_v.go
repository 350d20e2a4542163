package main

import (
	"fmt"
	"math"

	lin "github.com/jtejido/linear"
)

// ================================================================ V01 histories

// vecRead compares a vector with the model through one of the read paths.
func (c *Ctx) vecRead(what string, v *lin.ArrayRealVector, x []float64) {
	switch c.Intn(5) {
	case 0:
		c.EqS(what+" ToArray", v.ToArray(), x)
	case 1:
		c.EqV(what+" Copy", v.Copy(), x)
	case 2:
		c.EqS(what+" DataRef", v.DataRef(), x)
	case 3:
		i := 0
		for it := v.Iterator(); it.HasNext(); i++ {
			e := it.Next()
			if i >= len(x) {
				c.Failf("%s: the iterator does not stop at %d", what, len(x))
			}
			if e.Index() != i || !c.same(e.Value(), x[i]) {
				c.Failf("%s: iterator gives (%d,%v), want (%d,%v)", what, e.Index(), e.Value(), i, x[i])
			}
		}
		c.Check(i == len(x), "%s: the iterator stops after %d of %d", what, i, len(x))
	default:
		c.EqV(what, v, x)
	}
}

func (c *Ctx) vdim() int {
	switch x := c.Intn(10); {
	case x < 2:
		return 1
	case x < 8:
		return c.Range(2, 12)
	case x < 9:
		return c.Range(13, 70)
	}
	if c.Chance(0.03) {
		return pick(c.Rng, c.Range(301, 1100), 512, 1024, 2048)
	}
	return c.Range(71, 300)
}

func v01(c *Ctx) {
	n := c.vdim()
	kind := c.kind(vInt, vReal, vWide, vIntBig, vSpecial, vUnique)
	x := c.slice(n, kind)
	var v *lin.ArrayRealVector
	preset := false
	if c.Chance(0.1) {
		p := c.val(kind, 3)
		for i := range x {
			x[i] = p
		}
		w, err := lin.NewSizedArrayRealVectorWithPreset(n, p)
		c.must("NewSizedArrayRealVectorWithPreset", err)
		v, preset = w, true
	} else {
		v = c.vec(x)
	}
	c.Notef("vector of %d %s preset=%v", n, vName[kind], preset)
	type derived struct {
		what string
		get  func() []float64
		want []float64
	}
	var kept []derived
	keep := func(what string, get func() []float64, want []float64) {
		kept = append(kept, derived{what, get, append([]float64{}, want...)})
	}
	steps := c.Range(3, 30)
	vk := kind
	if vk == vUnique {
		vk = vReal
	}
	for s := 0; s < steps; s++ {
		i := c.Intn(n)
		d := c.val(vk, s)
		op := c.Intn(22)
		what := ""
		tol := 0.0
		switch op {
		case 0, 1:
			what = fmt.Sprintf("SetEntry(%d,%v)", i, d)
			v.SetEntry(i, d)
			x[i] = d
		case 2, 3:
			what = fmt.Sprintf("AddToEntry(%d,%v)", i, d)
			v.AddToEntry(i, d)
			x[i] += d
		case 4:
			what = fmt.Sprintf("Set(%v)", d)
			v.Set(d)
			for k := range x {
				x[k] = d
			}
		case 5, 6:
			k := c.Range(1, n-i)
			y := c.slice(k, vk)
			w, nw := c.anyVec(y)
			what = fmt.Sprintf("SetSubVector(%d,%s of %d)", i, nw, k)
			v.SetSubVector(i, w)
			copy(x[i:], y)
			c.EqV(what+" argument", w, y)
		case 7:
			k := c.Range(1, n-i)
			y := c.slice(k, vk)
			what = fmt.Sprintf("SetSubVectorWithSlice(%d,%d)", i, k)
			v.SetSubVectorWithSlice(i, y)
			copy(x[i:], y)
		case 8: // overlapping part of itself
			k := c.Range(1, n-i)
			j := c.Range(i, n-k) // (moving towards the front: any way of copying gives the same)
			what = fmt.Sprintf("SetSubVector(%d, own part %d+%d)", i, j, k)
			own, err := lin.NewArrayRealVector(v.DataRef()[j:j+k], false)
			c.must("NewArrayRealVector over a part", err)
			v.SetSubVector(i, own)
			y := append([]float64{}, x[j:j+k]...)
			copy(x[i:], y)
		case 9:
			y := c.slice(n, vk)
			w, nw := c.anyVec(y)
			what = "CopyFrom " + nw
			v.CopyFrom(w)
			copy(x, y)
			c.EqV(what+" argument", w, y)
		case 10:
			f := pick(c.Rng, math.Abs, math.Floor, func(a float64) float64 { return a*a - 1 }, func(a float64) float64 { return -a })
			what = "Map"
			calls := 0
			v.Map(func(a float64) float64 { calls++; return f(a) })
			for k := range x {
				x[k] = f(x[k])
			}
			c.Check(calls == n, "Map called the function %d times for %d entries", calls, n)
		case 11:
			what = fmt.Sprintf("MapAdd(%v)", d)
			v.MapAdd(d)
			for k := range x {
				x[k] += d
			}
		case 12:
			what = fmt.Sprintf("MapSubtract(%v)", d)
			v.MapSubtract(d)
			for k := range x {
				x[k] -= d
			}
		case 13:
			what = fmt.Sprintf("MapMultiply(%v)", d)
			v.MapMultiply(d)
			for k := range x {
				x[k] *= d
			}
		case 14:
			what = fmt.Sprintf("MapDivide(%v)", d)
			v.MapDivide(d)
			for k := range x {
				x[k] /= d
			}
		case 15, 16:
			a, b := c.val(vk, 1), c.val(vk, 2)
			y := c.slice(n, vk)
			w, nw := c.anyVec(y)
			if c.Chance(0.2) {
				y, w, nw = append([]float64{}, x...), v, "self"
			}
			what = fmt.Sprintf("Combine(%v,%v,%s)", a, b, nw)
			v.Combine(a, b, w)
			for k := range x {
				x[k] = a*x[k] + b*y[k]
			}
			if nw != "self" {
				c.EqV(what+" argument", w, y)
			}
		case 17:
			nn := 0.0
			for _, a := range x {
				nn += a * a
			}
			nn = math.Sqrt(nn)
			if !(nn > 1e-100 && nn < 1e100) {
				continue
			}
			what = "Unitize"
			v.Unitize()
			for k := range x {
				x[k] /= nn
			}
			tol = 4 * float64(n+4) * eps
			// the model follows the vector from here on
			g := v.ToArray()
			c.Check(len(g) == n, "Unitize: length %d", len(g))
			for k := range x {
				if x[k] != 0 {
					c.Tol("unitize", math.Abs(g[k]-x[k]), tol*math.Abs(x[k]), "Unitize entry %d: %v want %v", k, g[k], x[k])
				} else {
					c.Check(g[k] == 0, "Unitize: zero entry became %v", g[k])
				}
			}
			copy(x, g)
		case 18:
			w, nw := c.anyVec([]float64{d, 1})
			what = "AppendVector " + nw
			o := v.AppendVector(w)
			keep(what, func() []float64 { return readV(o) }, append(append([]float64{}, x...), d, 1))
			keep(what+" argument", func() []float64 { return readV(w) }, []float64{d, 1})
			if c.Bool() {
				p := v.Append(d)
				keep("Append", func() []float64 { return readV(p) }, append(append([]float64{}, x...), d))
			}
		case 19:
			k := c.Range(1, n-i)
			what = fmt.Sprintf("SubVector(%d,%d)", i, k)
			o := v.SubVector(i, k)
			keep(what, func() []float64 { return readV(o) }, x[i:i+k])
		case 20:
			what = "Copy"
			o := v.Copy()
			keep(what, func() []float64 { return readV(o) }, x)
		case 21:
			what = "ToArray"
			o := v.ToArray()
			keep(what, func() []float64 { return o }, x)
		}
		c.FP(what)
		if c.Verbose {
			fmt.Println("  step:", what)
		}
		c.Count("updates")
		c.vecRead(fmt.Sprintf("after step %d %s", s, what), v, x)
		// keep the numbers in range so that the history stays informative
		if kind != vSpecial && (s%6 == 5) {
			big := false
			for _, a := range x {
				if !(math.Abs(a) < 1e60) {
					big = true
				}
			}
			if big {
				y := c.slice(n, vk)
				v.SetSubVectorWithSlice(0, y)
				copy(x, y)
			}
		}
	}
	for _, k := range kept {
		c.EqS("derived value "+k.what+" after later updates", k.get(), k.want)
		c.Count("derived values rechecked")
	}
}

// ================================================================ V02 arithmetic

func v02(c *Ctx) {
	n := c.vdim()
	kind := c.kind(vInt, vReal, vWide, vIntBig, vSpecial, vSpecial, vUnique)
	x, y := c.slice(n, kind), c.slice(n, kind)
	a := c.vec(x)
	b, nb := c.anyVec(y)
	if c.Chance(0.1) {
		b, nb, y = a, "self", x
	}
	c.Notef("%d entries %s, operand %s", n, vName[kind], nb)
	z := func(f func(p, q float64) float64) []float64 {
		o := make([]float64, n)
		for i := range o {
			o[i] = f(x[i], y[i])
		}
		return o
	}
	c.EqV("Add", a.Add(b), z(func(p, q float64) float64 { return p + q }))
	c.EqV("Subtract", a.Subtract(b), z(func(p, q float64) float64 { return p - q }))
	c.EqV("EBEMultiply", a.EBEMultiply(b), z(func(p, q float64) float64 { return p * q }))
	c.EqV("EBEDivide", a.EBEDivide(b), z(func(p, q float64) float64 { return p / q }))
	c.EqV("left operand", a, x)
	c.EqV("right operand", b, y)
	m := c.vdim()
	w := c.slice(m, kind)
	if c.Chance(0.1) {
		w = nil
	}
	e, ne := c.anyVec(w)
	cat := append(append([]float64{}, x...), w...)
	c.EqV("AppendVector "+ne, a.AppendVector(e), cat)
	q, err := lin.NewArrayRealVectorFromTwoRealVector(b, e)
	c.must("NewArrayRealVectorFromTwoRealVector", err)
	c.EqV("vector from two", q, append(append([]float64{}, y...), w...))
	d := c.val(kind, 7)
	c.EqV("Append", a.Append(d), append(append([]float64{}, x...), d))
	for k := 0; k < 3; k++ {
		i := c.Intn(n)
		l := c.Range(1, n-i)
		c.EqV(fmt.Sprintf("SubVector(%d,%d)", i, l), a.SubVector(i, l), x[i:i+l])
	}
	if n > 1 {
		i := c.Range(1, n-1)
		c.EqV("empty SubVector", a.SubVector(i, 0), nil)
	}
	hasNaN, hasInf := false, false
	for _, v := range x {
		hasNaN = hasNaN || math.IsNaN(v)
		hasInf = hasInf || math.IsInf(v, 0)
	}
	c.Check(a.IsNaN() == hasNaN, "IsNaN is %v for %v", !hasNaN, x)
	c.Check(a.IsInf() == (hasInf && !hasNaN), "IsInf is %v for %v", a.IsInf(), x)
	// a single special value somewhere
	s := c.slice(n, vReal)
	p := c.Intn(n)
	sp := pick(c.Rng, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, 5e-324)
	s[p] = sp
	f := c.vec(s)
	c.Check(f.IsNaN() == math.IsNaN(sp), "IsNaN with %v at %d of %d", sp, p, n)
	c.Check(f.IsInf() == math.IsInf(sp, 0), "IsInf with %v at %d of %d", sp, p, n)
	c.Count(fmt.Sprintf("special %v", sp))
	nv, err := lin.NewRealVector(x)
	c.must("NewRealVector", err)
	c.EqV("NewRealVector", nv, x)
}

// ================================================================ V03 metrics

// sumExact adds small numbers of float64 with compensation (Neumaier).
func sumExact(a []float64) float64 {
	s, k := 0.0, 0.0
	for _, x := range a {
		t := s + x
		if math.Abs(s) >= math.Abs(x) {
			k += (s - t) + x
		} else {
			k += (x - t) + s
		}
		s = t
	}
	return s + k
}

func v03(c *Ctx) {
	n := c.vdim()
	kind := c.kind(vInt, vInt, vReal, vWide, vSparse, vUnique)
	exact := kind == vInt || kind == vSparse || kind == vUnique
	x, y := c.slice(n, kind), c.slice(n, kind)
	if c.Chance(0.3) {
		// very long and very short vectors whose squares still fit
		p := c.Range(-380, 380)
		q := p
		if c.Chance(0.7) {
			q = c.Range(-380, 380)
			exact = false // only the differences: entries of two magnitudes round
		}
		for i := range x {
			x[i], y[i] = math.Ldexp(x[i], p), math.Ldexp(y[i], q)
		}
		c.Count("rescaled vectors")
	}
	a, na := c.anyVec(x)
	b, nb := c.anyVec(y)
	if c.Chance(0.1) {
		b, nb, y = a, "self", x
	}
	c.Notef("%d entries %s, %s and %s", n, vName[kind], na, nb)
	prod, ad, dd, dab := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	sq := make([]float64, n)
	linf, dinf := 0.0, 0.0
	for i := range x {
		prod[i] = x[i] * y[i]
		ad[i] = math.Abs(x[i])
		d := x[i] - y[i]
		dab[i] = math.Abs(d)
		dd[i] = d * d
		sq[i] = x[i] * x[i]
		linf = math.Max(linf, ad[i])
		dinf = math.Max(dinf, dab[i])
	}
	pa := make([]float64, n)
	for i := range pa {
		pa[i] = math.Abs(prod[i])
	}
	nf := float64(n + 4)
	cmp := func(what string, got, want, scale float64) {
		if exact && what != "cosine" && what != "norm" && what != "distance" {
			c.Check(got == want, "%s is %v, want %v", what, got, want)
			return
		}
		c.Tol(what, math.Abs(got-want), 2*nf*eps*scale+5e-324, "%s is %v, want %v (n=%d)", what, got, want, n)
	}
	cmp("dot product", lin.VecDotProduct(a, b), sumExact(prod), sumExact(pa))
	cmp("L1 norm", lin.VecL1Norm(a), sumExact(ad), sumExact(ad))
	cmp("L1 distance", lin.VecL1Distance(a, b), sumExact(dab), sumExact(dab))
	c.Check(lin.VecLInfNorm(a) == linf, "Linf norm is %v, want %v", lin.VecLInfNorm(a), linf)
	c.Check(lin.VecLInfDistance(a, b) == dinf, "Linf distance is %v, want %v", lin.VecLInfDistance(a, b), dinf)
	nrm := math.Sqrt(sumExact(sq))
	dst := math.Sqrt(sumExact(dd))
	cmp("norm", lin.VecNorm(a), nrm, nrm)
	cmp("distance", lin.VecDistance(a, b), dst, dst)
	sqy := make([]float64, n)
	for i := range y {
		sqy[i] = y[i] * y[i]
	}
	nrmy := math.Sqrt(sumExact(sqy))
	if nrm > 0 && nrmy > 0 {
		cs := sumExact(prod) / (nrm * nrmy)
		cmp("cosine", lin.VecCosine(a, b), cs, 2)
		pr := lin.Projection(a, b)
		f := sumExact(prod) / sumExact(sqy)
		c.Check(pr.Dimension() == n, "Projection has dimension %d of %d", pr.Dimension(), n)
		ferr := 4 * nf * eps * (sumExact(pa)/sumExact(sqy) + math.Abs(f))
		for i := range y {
			c.Tol("projection", math.Abs(pr.At(i)-f*y[i]), ferr*math.Abs(y[i])+5e-324, "Projection entry %d is %v, want %v", i, pr.At(i), f*y[i])
		}
		c.Count("projections")
		u := lin.UnitVector(a)
		for i := range x {
			c.Tol("unit vector", math.Abs(u.At(i)-x[i]/nrm), 2*nf*eps*math.Abs(x[i]/nrm)+5e-324, "UnitVector entry %d is %v, want %v", i, u.At(i), x[i]/nrm)
		}
		c.Check(isNil(u) == false && u.Dimension() == n, "UnitVector has the wrong dimension")
	} else {
		if nrm == 0 {
			c.RefusedP("UnitVector of a zero vector", func() { lin.UnitVector(a) })
		}
		c.RefusedP("VecCosine with a zero vector", func() { lin.VecCosine(a, b) })
		if nrmy == 0 {
			c.RefusedP("Projection on a zero vector", func() { lin.Projection(a, b) })
		}
		c.Count("zero directions refused")
	}
	c.EqV("first operand", a, x)
	c.EqV("second operand", b, y)
	if c.Chance(0.15) {
		// non-finite entries show in every norm and distance
		x, bad := append([]float64{}, x...), math.NaN()
		if c.Bool() {
			bad = math.Inf(1 - 2*c.Intn(2))
		}
		i := c.Intn(n)
		x[i] = bad
		want := math.Abs(bad)
		a, na := c.anyVec(x)
		b, nb := c.anyVec(y)
		what := fmt.Sprintf("%s with %v at %d of %d", na, bad, i, n)
		for name, got := range map[string]float64{
			"L1 norm": lin.VecL1Norm(a), "norm": lin.VecNorm(a), "Linf norm": lin.VecLInfNorm(a),
			"distance": lin.VecDistance(a, b), "distance from": lin.VecDistance(b, a),
			"L1 distance": lin.VecL1Distance(a, b), "L1 distance from": lin.VecL1Distance(b, a),
			"Linf distance": lin.VecLInfDistance(a, b), "Linf distance from": lin.VecLInfDistance(b, a)} {
			c.Check(same(got, want), "%s to %s of %s is %v, want %v", name, nb, what, got, want)
		}
		if n > 1 && !math.IsNaN(bad) && c.Bool() {
			// an infinity beside a NaN: no sum of terms may lose the NaN
			x := append([]float64{}, x...)
			x[(i+c.Range(1, n-1))%n] = math.NaN()
			a, na := c.anyVec(x)
			for name, got := range map[string]float64{
				"L1 norm": lin.VecL1Norm(a), "norm": lin.VecNorm(a),
				"distance": lin.VecDistance(a, b), "distance from": lin.VecDistance(b, a),
				"L1 distance": lin.VecL1Distance(a, b), "L1 distance from": lin.VecL1Distance(b, a)} {
				c.Check(got != got, "%s to %s of %s with an infinity and a NaN is %v", name, nb, na, got)
			}
			c.Count("infinity beside a NaN")
		}
		if bad != bad {
			got := lin.VecDotProduct(a, b)
			c.Check(got != got, "dot product with %s is %v", what, got)
			got = lin.VecDotProduct(b, a)
			c.Check(got != got, "dot product with %s is %v", what, got)
		}
		c.Count("non-finite operands")
	}
}

func v03ext(c *Ctx) {
	n := c.vdim()
	x := c.slice(n, c.kind(vInt, vReal, vSpecial, vSpecial))
	mode := c.Intn(6)
	switch mode {
	case 0:
		for i := range x {
			x[i] = math.NaN()
		}
	case 1:
		v := pick(c.Rng, math.Inf(1), math.Inf(-1), 0.0, -3.0)
		for i := range x {
			x[i] = v
			if c.Chance(0.3) {
				x[i] = math.NaN()
			}
		}
	case 2:
		for i := range x {
			if c.Chance(0.5) {
				x[i] = math.NaN()
			}
		}
	case 3:
		x = nil
	}
	v, nv := c.anyVec(x)
	c.Size(2)
	c.FPi(mode)
	c.Notef("%d entries mode %d %s", len(x), mode, nv)
	any := false
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, a := range x {
		if a == a {
			any = true
			lo, hi = math.Min(lo, a), math.Max(hi, a)
		}
	}
	mi, ma := lin.MinIndex(v), lin.MaxIndex(v)
	lv, hv := lin.MinValue(v), lin.MaxValue(v)
	if !any {
		c.Check(mi < 0 && ma < 0, "extremum indices %d, %d of a vector without comparable entry (%v)", mi, ma, x)
		c.Check(lv != lv && hv != hv, "extremum values %v, %v of a vector without comparable entry", lv, hv)
		c.Count("no comparable entry")
		return
	}
	c.Check(mi >= 0 && mi < len(x) && ma >= 0 && ma < len(x), "extremum indices %d, %d for %v", mi, ma, x)
	c.Check(lv == lo, "MinValue is %v, want %v of %v", lv, lo, x)
	c.Check(hv == hi, "MaxValue is %v, want %v of %v", hv, hi, x)
	c.Check(x[mi] == lo, "MinIndex is %d holding %v, minimum is %v", mi, x[mi], lo)
	c.Check(x[ma] == hi, "MaxIndex is %d holding %v, maximum is %v", ma, x[ma], hi)
	c.EqV("vector", v, x)
}

// ================================================================ V04 walks

type vrec struct {
	starts, ends int
	n, lo, hi    int
	idx          []int
	val          []float64
	late         bool
	res          float64
	beforeStart  bool
	f            func(i int, x float64) float64
}

func (q *vrec) Start(n, lo, hi int) {
	q.starts++
	q.n, q.lo, q.hi = n, lo, hi
	if len(q.idx) > 0 || q.ends > 0 {
		q.late = true
	}
}
func (q *vrec) note(i int, x float64) {
	if q.starts == 0 || q.ends > 0 {
		q.late = true
	}
	q.idx = append(q.idx, i)
	q.val = append(q.val, x)
}
func (q *vrec) End() float64 { q.ends++; return q.res }

type vrecP struct{ vrec }

func (q *vrecP) Visit(i int, x float64) { q.note(i, x) }

type vrecC struct{ vrec }

func (q *vrecC) Visit(i int, x float64) float64 { q.note(i, x); return q.f(i, x) }

func v04(c *Ctx) {
	n := c.vdim()
	x := c.slice(n, c.kind(vInt, vReal, vUnique, vSpecial))
	v := c.vec(x)
	for q := 0; q < 6; q++ {
		lo, hi := 0, n-1
		bounded := c.Bool()
		if bounded {
			lo = c.Intn(n)
			hi = c.Range(lo, n-1)
			if c.Chance(0.2) {
				lo, hi = 0, n-1
			}
		}
		opt, change := c.Bool(), c.Bool()
		what := fmt.Sprintf("walk optimized=%v changing=%v bounded=%v %d..%d of %d", opt, change, bounded, lo, hi, n)
		c.Notef("%s", what)
		var r *vrec
		var got float64
		res := c.Sym()
		before := append([]float64{}, x...)
		if change {
			k := c.val(vInt, 0)
			m := &vrecC{vrec{res: res, f: func(i int, a float64) float64 { return 3*a + k + float64(i)/8 }}}
			plain := m.f
			switch c.Intn(4) {
			case 0:
				plain = func(i int, a float64) float64 { return -a }
			case 1:
				plain = func(i int, a float64) float64 {
					if (i+n)%2 == 0 {
						return a
					}
					return []float64{0, math.Copysign(0, -1), math.NaN(), math.Inf(1)}[i%4]
				}
			}
			m.f = plain
			if c.Chance(0.3) {
				// the visitor stores into entries not visited yet, which are then
				// visited with what they hold by that time
				c.Count("walks with a writing visitor")
				done := make([]bool, n)
				m.f = func(i int, a float64) float64 {
					done[i] = true
					if u := pick(c.Rng, (i+1)%n, c.Intn(n)); c.Chance(0.4) && !done[u] {
						y := c.Sym()
						v.SetEntry(u, y)
						before[u] = y
						x[u] = y
					}
					return plain(i, a)
				}
			} else if c.Bool() {
				// the visitor looks at the vector while it is walked over: what
				// was returned for earlier visits is stored by then
				c.Count("walks with a reading visitor")
				m.f = func(i int, a float64) float64 {
					if y := v.At(i); !c.same(y, a) {
						c.Failf("%s: entry %d reads %v while visited with %v", what, i, y, a)
					}
					if k := len(m.idx); k > 1 {
						w := m.idx[k-2]
						if y, z := v.At(w), plain(w, before[w]); !c.same(y, z) {
							c.Failf("%s: entry %d reads %v after its visit returned %v", what, w, y, z)
						}
					}
					return plain(i, a)
				}
			}
			walk := func() float64 {
				switch {
				case opt && bounded:
					return v.WalkInUpdateOptimizedOrderBounded(m, lo, hi)
				case opt:
					return v.WalkInUpdateOptimizedOrder(m)
				case bounded:
					return v.WalkInUpdateDefaultOrderBounded(m, lo, hi)
				}
				return v.WalkInUpdateDefaultOrder(m)
			}
			if c.Chance(0.1) {
				// the visitor gives up: what was stored before stays, no more is touched
				c.Count("walks given up")
				stop := c.Intn(hi - lo + 1)
				m.f = func(i int, a float64) float64 {
					if len(m.idx) == stop+1 {
						panic(abandon{i, 0})
					}
					x[i] = plain(i, a)
					return x[i]
				}
				p, bad := c.Guard(func() { walk() })
				_, own := p.(abandon)
				c.Check(bad && own, "%s: the visitor's panic came out as %v", what, p)
				c.Check(len(m.idx) == stop+1, "%s: %d visits though the visitor gave up at visit %d", what, len(m.idx), stop)
				c.EqV("vector after a given up "+what, v, x)
				continue
			}
			if c.Chance(0.2) {
				// a walk within the walk sees what is stored by then
				c.Count("walks within walks")
				f, at := m.f, c.Intn(hi-lo+1)
				m.f = func(i int, a float64) float64 {
					if len(m.idx) == at+1 {
						now := readV(v)
						w := &vrecP{vrec{res: 1}}
						if c.Bool() {
							v.WalkInDefaultOrder(w)
						} else {
							v.WalkInOptimizedOrder(w)
						}
						c.Check(len(w.idx) == n && w.starts == 1 && w.ends == 1, "walk within a %s: %d visits", what, len(w.idx))
						for k, j := range w.idx {
							c.Check(c.same(w.val[k], now[j]), "walk within a %s: visited %d with %v, the entry is %v", what, j, w.val[k], now[j])
						}
					}
					return f(i, a)
				}
			}
			got = walk()
			r = &m.vrec
			for i := lo; i <= hi; i++ {
				x[i] = plain(i, x[i])
			}
		} else {
			m := &vrecP{vrec{res: res}}
			switch {
			case opt && bounded:
				got = v.WalkInOptimizedOrderBounded(m, lo, hi)
			case opt:
				got = v.WalkInOptimizedOrder(m)
			case bounded:
				got = v.WalkInDefaultOrderBounded(m, lo, hi)
			default:
				got = v.WalkInDefaultOrder(m)
			}
			r = &m.vrec
		}
		c.Check(r.starts == 1 && r.ends == 1 && !r.late, "%s: %d starts, %d ends, out of sequence %v", what, r.starts, r.ends, r.late)
		c.Check(r.n == n && r.lo == lo && r.hi == hi, "%s: started with (%d,%d,%d)", what, r.n, r.lo, r.hi)
		c.Check(got == res, "%s: returned %v, the visitor ended with %v", what, got, res)
		c.Check(len(r.idx) == hi-lo+1, "%s: %d visits", what, len(r.idx))
		seen := map[int]bool{}
		for k, i := range r.idx {
			if i < lo || i > hi || seen[i] {
				c.Failf("%s: visited %d out of range or twice", what, i)
			}
			seen[i] = true
			if !opt && i != lo+k {
				c.Failf("%s: visit %d is of index %d", what, k, i)
			}
			if !c.same(r.val[k], before[i]) {
				c.Failf("%s: visited %d with %v, the entry is %v", what, i, r.val[k], before[i])
			}
		}
		c.CountN("visits", len(r.idx))
		c.EqV(what+": vector afterwards", v, x)
	}
	// iterator, with the vector changing under it
	it := v.Iterator()
	it2 := v.Iterator()
	for i := 0; i < n; i++ {
		c.Check(it.HasNext() && it.HasNext(), "iterator exhausted at %d of %d", i, n)
		if c.Chance(0.3) {
			x[i] = c.val(vInt, i)
			v.SetEntry(i, x[i])
		}
		e := it.Next()
		if e.Index() != i || !c.same(e.Value(), x[i]) {
			c.Failf("iterator gives (%d,%v), want (%d,%v)", e.Index(), e.Value(), i, x[i])
		}
		if i > 0 && c.Chance(0.2) {
			f := it2.Next() // a second iterator is independent
			if c.same(f.Value(), x[f.Index()]) == false {
				c.Failf("second iterator gives (%d,%v)", f.Index(), f.Value())
			}
		}
	}
	c.Check(!it.HasNext(), "iterator not exhausted after %d entries", n)
	c.CountN("iterated", n)
}

// v04iters: any number of iterators over several vectors, each at its own
// place, the finished ones asked again.
func v04iters(c *Ctx) {
	type walker struct {
		it     lin.EntryIterator
		v, pos int
	}
	var vs []*lin.ArrayRealVector
	var xs [][]float64
	for k := c.Range(1, 3); k > 0; k-- {
		x := c.slice(c.Range(1, 6), c.kind(vInt, vUnique))
		vs, xs = append(vs, c.vec(x)), append(xs, x)
	}
	var ws []*walker
	trace := ""
	steps := c.Range(10, 60)
	c.Notef("%d vectors, %d steps", len(vs), steps)
	for k := 0; k < steps; k++ {
		switch q := c.Intn(12); {
		case len(ws) == 0 || q == 0:
			i := c.Intn(len(vs))
			ws = append(ws, &walker{it: vs[i].Iterator(), v: i})
			trace += fmt.Sprintf(" new%d(%d)", len(ws)-1, i)
		case q == 1:
			i := c.Intn(len(vs))
			j := c.Intn(len(xs[i]))
			xs[i][j] = c.val(vInt, j)
			vs[i].SetEntry(j, xs[i][j])
			trace += fmt.Sprintf(" set(%d,%d)", i, j)
		case q == 2:
			i := c.Intn(len(vs))
			vs[i].Equals(vs[c.Intn(len(vs))])
			lin.VecNorm(vs[i])
			lin.VecL1Norm(vs[i])
			lin.VecLInfNorm(vs[i])
			lin.VecDotProduct(vs[i], vs[i])
			lin.MaxIndex(vs[i])
			trace += fmt.Sprintf(" metrics(%d)", i)
		case q < 6:
			i := c.Intn(len(ws))
			w := ws[i]
			trace += fmt.Sprintf(" has%d", i)
			if got, want := w.it.HasNext(), w.pos < len(xs[w.v]); got != want {
				c.Failf("after%s: HasNext of an iterator after %d of %d entries is %v", trace, w.pos, len(xs[w.v]), got)
			}
		default:
			i := c.Intn(len(ws))
			w := ws[i]
			if w.pos == len(xs[w.v]) {
				continue
			}
			trace += fmt.Sprintf(" next%d", i)
			e := w.it.Next()
			if e.Index() != w.pos || !c.same(e.Value(), xs[w.v][w.pos]) {
				c.Failf("after%s: iterator gives (%d,%v), want (%d,%v)", trace, e.Index(), e.Value(), w.pos, xs[w.v][w.pos])
			}
			w.pos++
			c.Count("entries iterated side by side")
		}
	}
	c.FPi(steps)
	for i, v := range vs {
		c.EqV(fmt.Sprintf("vector %d after%s", i, trace), v, xs[i])
	}
}

func init() {
	register(&Prop{ID: "V01",
		Rule:      "after every step of a random update history the vector equals a plain list given the same updates; derived values keep the contents they had when taken",
		Technique: "runtime monitoring: model-based monitor over generated update histories, checked after every step",
		Level:     "random histories of 3..30 updates on vectors of 1..300 entries, operands from the library and foreign",
		WL:        []Workload{{Name: "history", Quick: 120000, Thorough: 2400000, Run: v01}},
		Need:      []string{"updates", "derived values rechecked"}})
	register(&Prop{ID: "V02",
		Rule:      "every entry of the result is bit-for-bit the scalar operation on the operands' entries, for library and foreign operands",
		Technique: "runtime monitoring: entry-wise oracle over generated operand pairs",
		Level:     "random vectors of 1..300 entries incl. NaN, infinities, signed zeros and subnormals",
		WL:        []Workload{{Name: "arith", Quick: 160000, Thorough: 3200000, Run: v02}},
		Need:      []string{"entries compared"}})
	register(&Prop{ID: "V03",
		Rule:      "metric functions agree with compensated reference sums (exactly on integers), extrema with a scan",
		Technique: "runtime monitoring: numeric oracle with error bounds over generated operand pairs",
		Level:     "random vectors of 0..300 entries, library and foreign implementations on both sides",
		WL:        []Workload{{Name: "metrics", Quick: 100000, Thorough: 2000000, Run: v03}, {Name: "extrema", Quick: 80000, Thorough: 1600000, Run: v03ext}},
		Need:      []string{"infinity beside a NaN", "projections", "zero directions refused", "no comparable entry"}})
	register(&Prop{ID: "V04",
		Rule:      "the recorded sequence of start, visit and end calls is the one promised, and the vector afterwards is what the visitor returned",
		Technique: "runtime monitoring: trace checker over recorded visitor calls and iterator steps",
		Level:     "random walks of all eight forms on vectors of 1..300 entries, iterators interleaved with updates",
		WL:        []Workload{{Name: "walks", Quick: 180000, Thorough: 3600000, Run: v04}, {Name: "iterators", Quick: 20000, Thorough: 400000, Run: v04iters}},
		Need:      []string{"visits", "iterated", "entries iterated side by side", "walks with a writing visitor", "walks within walks", "walks given up"}})
}
