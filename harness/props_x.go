package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"

	lin "github.com/jtejido/linear"
)

// ---------------------------------------------------------------- every read-only request

type sumVisitor struct{ s, k float64 }

func (v *sumVisitor) Start(rows, columns, a, b, c, d int) { v.s, v.k = 0, 0 }
func (v *sumVisitor) Visit(r, c int, x float64)           { v.k++; v.s += x * (1 + v.k/16) }
func (v *sumVisitor) End() float64                        { return v.s }

type sumVecVisitor struct{ s, k float64 }

func (v *sumVecVisitor) Start(n, a, b int)      { v.s, v.k = 0, 0 }
func (v *sumVecVisitor) Visit(i int, x float64) { v.k++; v.s += x * (1 + v.k/16) }
func (v *sumVecVisitor) End() float64           { return v.s }

func flatV(v lin.RealVector) []float64 {
	if isNil(v) {
		return []float64{-1}
	}
	return cp(readV(v))
}

// matOps lists the non-mutating requests on A (r by k) with companions: S of
// the same shape, B with k rows, v of dimension k, w of dimension r.
func matOps(A, S, B lin.RealMatrix, v, w lin.RealVector, pos [4]int) []answer {
	r, k := A.RowDimension(), A.ColumnDimension()
	i0, i1, j0, j1 := pos[0], pos[1], pos[2], pos[3]
	f1 := func(x float64) []float64 { return []float64{x} }
	o := []answer{
		{"At", func() []float64 { return f1(A.At(i0, j0)) }},
		{"Copy", func() []float64 { return flatM(A.Copy()) }},
		{"Add", func() []float64 { return flatM(A.Add(S)) }},
		{"Subtract", func() []float64 { return flatM(A.Subtract(S)) }},
		{"ScalarAdd", func() []float64 { return flatM(A.ScalarAdd(0.75)) }},
		{"ScalarMultiply", func() []float64 { return flatM(A.ScalarMultiply(-1.5)) }},
		{"Multiply", func() []float64 { return flatM(A.Multiply(B)) }},
		{"PreMultiplyMatrix", func() []float64 { return flatM(B.PreMultiplyMatrix(A)) }},
		{"Data", func() []float64 { return flatSS(A.Data()) }},
		{"SubMatrix", func() []float64 { return flatM(A.SubMatrix(i0, i1, j0, j1)) }},
		{"RowMatrixAt", func() []float64 { return flatM(A.RowMatrixAt(i0)) }},
		{"ColumnMatrixAt", func() []float64 { return flatM(A.ColumnMatrixAt(j0)) }},
		{"RowVectorAt", func() []float64 { return flatV(A.RowVectorAt(i0)) }},
		{"ColumnVectorAt", func() []float64 { return flatV(A.ColumnVectorAt(j0)) }},
		{"RowAt", func() []float64 { return cp(A.RowAt(i1)) }},
		{"ColumnAt", func() []float64 { return cp(A.ColumnAt(j1)) }},
		{"Transpose", func() []float64 { return flatM(A.Transpose()) }},
		{"Operate", func() []float64 { return cp(A.Operate(readV(v))) }},
		{"OperateVector", func() []float64 { return flatV(A.OperateVector(v)) }},
		{"PreMultiply", func() []float64 { return cp(A.PreMultiply(readV(w))) }},
		{"PreMultiplyVector", func() []float64 { return flatV(A.PreMultiplyVector(w)) }},
		{"Equals", func() []float64 { return append(b2f(A.Equals(S)), b2f(A.Equals(A))...) }},
		{"MatFrobeniusNorm", func() []float64 { return f1(lin.MatFrobeniusNorm(A)) }},
		{"MatLInfNorm", func() []float64 { return f1(lin.MatLInfNorm(A)) }},
		{"IsSquare", func() []float64 { return b2f(lin.IsSquare(A)) }},
		{"SubMatrix of indices", func() []float64 { return flatM(lin.SubMatrix(A, []int{i1, i0, i0}, []int{j1, j0})) }},
		{"CopySubMatrix", func() []float64 {
			d := make([][]float64, i1-i0+1)
			for i := range d {
				d[i] = make([]float64, j1-j0+1)
			}
			lin.CopySubMatrix(A, i0, i1, j0, j1, d)
			return flatSS(d)
		}},
		{"OuterProduct", func() []float64 { return flatM(lin.OuterProduct(v, w)) }},
	}
	for q := 0; q < 6; q++ {
		q := q
		o = append(o, answer{fmt.Sprint("walk ", q), func() []float64 {
			return f1(walkP(A, q%3, q >= 3, new(sumVisitor), i0, i1, j0, j1))
		}})
	}
	if r == k {
		o = append(o, answer{"Trace", func() []float64 { return f1(A.Trace()) }},
			answer{"Power", func() []float64 { return flatM(lin.Power(A, 3)) }})
	}
	if d, ok := A.(*lin.DiagonalMatrix); ok {
		o = append(o, answer{"Diagonal inverse", func() []float64 { return flatM(d.Inverse()) }},
			answer{"Diagonal IsSingular", func() []float64 { return b2f(d.IsSingular(1e-3)) }})
	}
	return o
}

// vecOps lists the non-mutating requests on v with a companion of the same dimension.
func vecOps(v, u lin.RealVector) []answer {
	n := v.Dimension()
	f1 := func(x float64) []float64 { return []float64{x} }
	fi := func(x int) []float64 { return []float64{float64(x)} }
	o := []answer{
		{"At", func() []float64 { return f1(v.At(n / 2)) }},
		{"Copy", func() []float64 { return flatV(v.Copy()) }},
		{"ToArray", func() []float64 { return cp(v.ToArray()) }},
		{"Add", func() []float64 { return flatV(v.Add(u)) }},
		{"Subtract", func() []float64 { return flatV(v.Subtract(u)) }},
		{"EBEMultiply", func() []float64 { return flatV(v.EBEMultiply(u)) }},
		{"EBEDivide", func() []float64 { return flatV(v.EBEDivide(u)) }},
		{"Append", func() []float64 { return flatV(v.Append(2.5)) }},
		{"AppendVector", func() []float64 { return flatV(v.AppendVector(u)) }},
		{"SubVector", func() []float64 { return flatV(v.SubVector(n/3, n-n/3)) }},
		{"Equals", func() []float64 { return append(b2f(v.Equals(u)), b2f(v.Equals(v))...) }},
		{"IsNaN", func() []float64 { return append(b2f(v.IsNaN()), b2f(v.IsInf())...) }},
		{"VecNorm", func() []float64 { return []float64{lin.VecNorm(v), lin.VecL1Norm(v), lin.VecLInfNorm(v)} }},
		{"VecDistance", func() []float64 {
			return []float64{lin.VecDistance(v, u), lin.VecL1Distance(v, u), lin.VecLInfDistance(v, u)}
		}},
		{"VecDotProduct", func() []float64 { return f1(lin.VecDotProduct(v, u)) }},
		{"VecCosine", func() []float64 { return f1(lin.VecCosine(v, u)) }},
		{"Projection", func() []float64 { return flatV(lin.Projection(v, u)) }},
		{"UnitVector", func() []float64 { return flatV(lin.UnitVector(v)) }},
		{"MaxIndex", func() []float64 { return append(fi(lin.MaxIndex(v)), fi(lin.MinIndex(v))...) }},
		{"MaxValue", func() []float64 { return []float64{lin.MaxValue(v), lin.MinValue(v)} }},
		{"iterator", func() []float64 {
			var s []float64
			for it := v.Iterator(); it.HasNext(); {
				e := it.Next()
				s = append(s, float64(e.Index()), e.Value())
			}
			return s
		}},
		{"walk", func() []float64 { return f1(v.WalkInDefaultOrder(new(sumVecVisitor))) }},
		{"walk optimized", func() []float64 { return f1(v.WalkInOptimizedOrder(new(sumVecVisitor))) }},
		{"walk bounded", func() []float64 { return f1(v.WalkInDefaultOrderBounded(new(sumVecVisitor), n/4, n-1)) }},
		{"walk optimized bounded", func() []float64 { return f1(v.WalkInOptimizedOrderBounded(new(sumVecVisitor), n/4, n-1)) }},
	}
	return o
}

// quiet gets an answer without a Ctx: refusals become a marker, other panics
// are reported as text.
func quiet(f func() []float64) (out []float64, died string) {
	defer func() {
		if r := recover(); r != nil {
			m, ok := libErr(r)
			if !ok {
				died = m
			}
			out = []float64{-777, float64(len(m))}
		}
	}()
	return f(), ""
}

// decInput draws a matrix a decomposition accepts; domain tells the kind.
func (c *Ctx) decInput(kind string, n int) *T {
	switch kind {
	case "Cholesky":
		return c.wellCond("Cholesky", n, n)
	case "RectCholesky":
		r := c.Range(1, n)
		g := c.table(n, r, vReal)
		t := g.mul(g.tr()).sym()
		for i := 0; i < n; i++ { // something positive to take
			t.set(i, i, t.at(i, i)+1)
		}
		c.fpT(t)
		return t
	case "TriDiagonal", "EigenTri":
		t := c.table(n, n, c.kind(vInt, vReal)).sym()
		c.fpT(t)
		return t
	case "Eigen":
		switch c.Intn(3) {
		case 0:
			return c.wellCond("Eigen", n, n)
		case 1:
			t := c.table(n, n, c.kind(vInt, vReal)).sym()
			c.fpT(t)
			return t
		}
		t := c.table(n, n, vReal)
		return t
	case "LU":
		if c.Chance(0.2) {
			t, _, _ := c.exactlySingular(n)
			return t
		}
		return c.wellCond("LU", n, n)
	case "Hessenberg", "Schur":
		t, _ := c.square(n)
		return t
	}
	k := n
	if c.Chance(0.5) {
		k = c.Range(1, n+4)
	}
	if c.Chance(0.25) {
		t, _ := c.rect(n, k)
		return t
	}
	return c.wellCond(kind, n, k)
}

func decThr(kind string) float64 {
	switch kind {
	case "LU", "RectCholesky":
		return 1e-11
	}
	return 0
}

// ================================================================ X01

// together runs the jobs in g goroutines released at once; every goroutine
// runs its own ordering of all jobs. It returns the answers per goroutine.
func (c *Ctx) together(g int, jobs []answer) (outs [][][]float64, died string) {
	outs = make([][][]float64, g)
	dieds := make([]string, g)
	orders := make([][]int, g)
	yields := make([][]int, g)
	for k := range orders {
		orders[k] = c.Perm(len(jobs))
		if c.Chance(0.3) && k > 0 {
			orders[k] = orders[0] // all in step
		}
		yields[k] = make([]int, len(jobs))
		for i := range yields[k] {
			if c.Chance(0.4) {
				yields[k][i] = c.Range(1, 4)
			}
		}
		outs[k] = make([][]float64, len(jobs))
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < g; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			for i, j := range orders[k] {
				for y := 0; y < yields[k][i]; y++ {
					runtime.Gosched()
				}
				var d string
				outs[k][j], d = quiet(jobs[j].f)
				if d != "" {
					dieds[k] = jobs[j].name + ": " + d
					return
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	for _, d := range dieds {
		if d != "" {
			return outs, d
		}
	}
	return outs, ""
}

func (c *Ctx) compareRuns(what string, jobs []answer, outs [][][]float64, want [][]float64) {
	for k := range outs {
		for i := range jobs {
			c.Check(sameBits(outs[k][i], want[i]), "%s: goroutine %d: %s differs from the sequential result: %s", what, k, jobs[i].name, firstDiff(outs[k][i], want[i]))
		}
	}
	c.CountN("concurrent requests", len(outs)*len(jobs))
}

// shared matrices and vectors, any non-mutating operation
func x01ops(c *Ctx) {
	r, k := c.Range(1, 9), c.Range(1, 9)
	if c.Chance(0.25) {
		r, k = c.Range(50, 107), c.Range(50, 60)
	}
	if c.Chance(0.3) {
		k = r
	}
	ta := c.table(r, k, c.kind(vReal, vInt))
	if r == k && c.Chance(0.3) {
		ta = diagT(c.posSlice(r))
	}
	ts := c.table(r, k, vReal)
	if c.Chance(0.2) {
		ts = ta.clone()
	}
	tb := c.table(k, c.Range(1, 6), vReal)
	a, rep := c.anyMat(ta)
	sm, rep2 := c.anyMat(ts)
	b, rep3 := c.anyMat(tb)
	vs, ws := c.slice(k, vReal), c.slice(r, vReal)
	v, _ := c.anyVec(vs)
	w, _ := c.anyVec(ws)
	u, _ := c.anyVec(c.slice(k, vReal))
	i0, j0 := c.Intn(r), c.Intn(k)
	pos := [4]int{i0, c.Range(i0, r-1), j0, c.Range(j0, k-1)}
	mk := func() []answer {
		jobs := matOps(a, sm, b, v, w, pos)
		jobs = append(jobs, vecOps(v, u)...)
		if k == tb.c && k == r {
			jobs = append(jobs, matOps(b, b, a, v, w, [4]int{0, r - 1, 0, k - 1})...)
		}
		return jobs
	}
	jobs := mk()
	g := c.Range(2, 5)
	what := fmt.Sprintf("%d goroutines reading %s %dx%d, %s, %s", g, rep, r, k, rep2, rep3)
	c.Notef("%s", what)
	// concurrency first: the sequential run must not warm anything up
	outs, died := c.together(g, jobs)
	c.Check(died == "", "%s: %s", what, died)
	want := make([][]float64, len(jobs))
	for i := range jobs {
		want[i], _ = quiet(jobs[i].f)
	}
	c.compareRuns(what, jobs, outs, want)
	c.EqM(what+": first operand", a, ta)
	c.EqM(what+": second operand", b, tb)
	c.EqV(what+": vector", v, vs)
	c.Count("shared operands")
}

// decompositions of one shared input
func x01dec(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	n := c.Range(1, 9)
	if c.Chance(0.15) {
		n = c.Range(10, 56)
	}
	t := c.decInput(kind, n)
	m, rep := c.anyMat(t)
	b, _ := c.anyVec(c.slice(t.r, vReal))
	B, _ := c.anyMat(c.table(t.r, c.Range(1, 4), vReal))
	job := answer{"decompose", func() []float64 {
		d, err := decompose(kind, m, decThr(kind))
		if err != nil {
			if _, ok := libErr(err); !ok {
				panic(fmt.Sprintf("constructor error %T %v", err, err))
			}
			return []float64{-778}
		}
		var o []float64
		all := d.factors
		if d.solver != nil {
			s := d.solver
			all = append(all, answer{"solver", func() []float64 {
				var o []float64
				for _, a := range solverAnswers(s(), b, B) {
					x, died := quiet(a.f)
					if died != "" {
						panic(died)
					}
					o = append(o, x...)
				}
				return o
			}})
		}
		for _, a := range all {
			x, died := quiet(a.f)
			if died != "" {
				panic(a.name + ": " + died)
			}
			o = append(o, x...)
		}
		return o
	}}
	jobs := []answer{job}
	g := c.Range(2, 5)
	what := fmt.Sprintf("%d goroutines decomposing one %dx%d %s by %s", g, t.r, t.c, rep, kind)
	c.Notef("%s", what)
	outs, died := c.together(g, jobs)
	c.Check(died == "", "%s: %s", what, died)
	want, _ := quiet(job.f)
	c.compareRuns(what, jobs, outs, [][]float64{want})
	c.EqM(what+": input", m, t)
	c.Count("shared input " + kind)
}

// one shared solver, from its first use on
func x01solver(c *Ctx) {
	kind := pick(c.Rng, solverKinds...)
	n := c.Range(1, 9)
	if c.Chance(0.15) {
		n = c.Range(10, 56)
	}
	rows := n
	if (kind == "QR" || kind == "RRQR" || kind == "SVD") && c.Chance(0.4) {
		rows = n + c.Range(1, 5)
	}
	t := c.wellCond(kind, rows, n)
	if kind != "Cholesky" && rows == n && c.Chance(0.15) {
		t = newT(n, n) // every request is refused
	}
	m, rep := c.anyMat(t)
	bs := c.slice(rows, vReal)
	tb := c.table(rows, pick(c.Rng, 1, 2, 3, 53), vReal)
	b, _ := c.anyVec(bs)
	B, _ := c.anyMat(tb)
	s := c.solver(kind, m)
	fresh := c.solver(kind, m) // for the sequential reference
	jobs := solverAnswers(s, b, B)
	b2, _ := c.anyVec(c.slice(rows, vReal))
	jobs = append(jobs, answer{"SolveVector another", func() []float64 { return flatV(s.SolveVector(b2)) }},
		answer{"SolveMatrix again", func() []float64 { return flatM(s.SolveMatrix(B)) }},
		answer{"SolveVector again", func() []float64 { return flatV(s.SolveVector(b)) }})
	ref := solverAnswers(fresh, b, B)
	ref = append(ref, answer{"", func() []float64 { return flatV(fresh.SolveVector(b2)) }}, ref[2], ref[1])
	g := c.Range(2, 6)
	what := fmt.Sprintf("%d goroutines on one %s solver of a %dx%d %s", g, kind, rows, n, rep)
	c.Notef("%s", what)
	outs, died := c.together(g, jobs)
	c.Check(died == "", "%s: %s", what, died)
	want := make([][]float64, len(jobs))
	for i := range ref {
		want[i], _ = quiet(ref[i].f)
	}
	c.compareRuns(what, jobs, outs, want)
	c.EqV(what+": right-hand side", b, bs)
	c.EqM(what+": right-hand side", B, tb)
	c.Count("shared solver " + kind)
}

// a decomposition object whose getters have been called once
func x01getters(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	n := c.Range(1, 12)
	t := c.decInput(kind, n)
	m, rep := c.anyMat(t)
	d, err := decompose(kind, m, decThr(kind))
	if err != nil {
		c.Check(isLib(err), "%s: constructor error %v", kind, err)
		c.Trivial()
		return
	}
	want := make([][]float64, len(d.factors))
	for i, a := range d.factors {
		want[i], _ = quiet(a.f)
	}
	var sol lin.DecompositionSolver
	jobs := append([]answer{}, d.factors...)
	if d.solver != nil {
		// solvers may be made and used while others read the factors
		if kind == "LU" || kind == "Cholesky" || kind == "SVD" || kind == "RRQR" || kind == "QR" {
			bs := c.slice(t.r, vReal)
			b := c.vec(bs)
			f := d.solver
			jobs = append(jobs, answer{"own solver", func() []float64 { return flatV(f().SolveVector(b)) }})
			sol = f()
			w, _ := quiet(func() []float64 { return flatV(sol.SolveVector(b)) })
			want = append(want, w)
		}
	}
	g := c.Range(2, 5)
	what := fmt.Sprintf("%d goroutines asking one %s of a %dx%d %s", g, kind, t.r, t.c, rep)
	c.Notef("%s", what)
	outs, died := c.together(g, jobs)
	c.Check(died == "", "%s: %s", what, died)
	c.compareRuns(what, jobs, outs, want)
	c.Count("shared decomposition " + kind)
}

func isLib(e error) bool { _, ok := libErr(e); return ok }

// goroutines each working, and mutating, objects of their own
func x01own(c *Ctx) {
	g := c.Range(2, 6)
	type job struct {
		seed uint64
	}
	work := func(seed uint64) []float64 {
		// a private context: same seed, same work
		q := &Ctx{Rng: &Rng{seed}, Prop: c.Prop, WL: c.WL, events: map[string]int64{}, worst: map[string]float64{}}
		var o []float64
		n := q.Range(1, 7)
		if q.Chance(0.1) {
			n = q.Range(50, 60)
		}
		kind := pick(q.Rng, decKinds...)
		t := q.decInput(kind, n)
		m := q.mat(t)
		m.SetEntry(0, 0, m.At(0, 0)*1.5)
		d, err := decompose(kind, m, decThr(kind))
		if err == nil {
			for _, a := range d.factors {
				x, died := quiet(a.f)
				if died != "" {
					panic(a.name + ": " + died)
				}
				o = append(o, x...)
			}
			if d.solver != nil {
				b := q.vec(q.slice(t.r, vReal))
				x, _ := quiet(func() []float64 { return flatV(d.solver().SolveVector(b)) })
				o = append(o, x...)
			}
		} else {
			o = append(o, -778)
		}
		// mutation of private objects
		A, v := q.mat(q.table(n, n+1, vReal)), q.vec(q.slice(n+1, vReal))
		for k := 0; k < 8; k++ {
			switch q.Intn(6) {
			case 0:
				A.MultiplyEntry(q.Intn(n), q.Intn(n+1), 1.25)
			case 1:
				A.SetRowVector(q.Intn(n), v)
			case 2:
				v.MapMultiply(0.9)
			case 3:
				v.Combine(0.5, 0.25, v.Copy())
			case 4:
				A.SetSubMatrix([][]float64{{q.Sym()}}, q.Intn(n), q.Intn(n+1))
			case 5:
				o = append(o, A.Operate(v.ToArray())...)
			}
			o = append(o, flatV(v)...)
		}
		o = append(o, flatM(A)...)
		o = append(o, flatM(A.Multiply(A.Transpose()))...)
		return o
	}
	jobs := make([]job, g)
	for i := range jobs {
		jobs[i] = job{c.U64()}
		c.FPi(int(jobs[i].seed))
	}
	c.Size(4)
	outs := make([][]float64, g)
	dieds := make([]string, g)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if v, ok := recover().(violation); ok {
					dieds[i] = v.msg
				}
			}()
			<-start
			outs[i], dieds[i] = quiet(func() []float64 { return work(jobs[i].seed) })
		}(i)
	}
	close(start)
	wg.Wait()
	c.Notef("%d goroutines with objects of their own", g)
	for i := range jobs {
		c.Check(dieds[i] == "", "goroutine %d of %d on its own objects: %s", i, g, dieds[i])
		want, _ := quiet(func() []float64 { return work(jobs[i].seed) })
		c.Check(sameBits(outs[i], want), "goroutine %d of %d on its own objects differs from the sequential run: %s", i, g, firstDiff(outs[i], want))
	}
	c.CountN("private workers", g)
}

// ================================================================ X02

func x02(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	n := c.decDim(30)
	t := c.decInput(kind, n)
	m, rep := c.anyMat(t)
	thr := decThr(kind)
	mk := func() *decomp {
		var d *decomp
		var err error
		c.NoPanic("constructor", func() { d, err = decompose(kind, m, thr) })
		if err != nil {
			c.Check(isLib(err), "%s: constructor error %v", kind, err)
			return nil
		}
		return d
	}
	d := mk()
	if d == nil {
		c.Trivial()
		return
	}
	what := fmt.Sprintf("%s of %dx%d (%s)", kind, t.r, t.c, rep)
	c.Count(kind)
	bs := c.slice(t.r, vReal)
	tb := c.table(t.r, c.Range(1, 5), vReal)
	b, _ := c.anyVec(bs)
	B, _ := c.anyMat(tb)
	const nsolve = 4
	nq := len(d.factors)
	if d.solver != nil {
		nq += nsolve
	}
	// the answer of a fresh decomposition to this question alone
	fresh := make(map[int][]float64)
	alone := func(q int) []float64 {
		if a, ok := fresh[q]; ok {
			return a
		}
		e := mk()
		var a []float64
		if q < len(e.factors) {
			a, _ = c.ask(what+" "+e.factors[q].name, e.factors[q].f)
		} else {
			x := solverAnswers(e.solver(), b, B)[q-len(e.factors)]
			a, _ = c.ask(what+" "+x.name, x.f)
		}
		fresh[q] = a
		return a
	}
	var solvers []lin.DecompositionSolver
	steps := c.Range(6, 24)
	hist := ""
	focus := -1
	if c.Chance(0.3) {
		focus = c.Intn(nq)
	}
	for k := 0; k < steps; k++ {
		if c.Chance(0.15) {
			// overwrite something that was given away by value
			if q := c.Intn(len(d.given) + 3); q < len(d.given) {
				hist += " overwrite(" + d.given[q].name + ")"
				c.ask(what+" "+d.given[q].name, d.given[q].f)
				c.Count("overwritten")
			} else if len(solvers) > 0 {
				s := solvers[c.Intn(len(solvers))]
				hist += " overwrite(solution)"
				quiet(func() []float64 {
					switch q - len(d.given) {
					case 0:
						return scrawl(s.SolveVector(b))
					case 1:
						return scrawl(s.SolveMatrix(B))
					}
					if kind == "SVD" { // keeps the pseudo-inverse it gives
						return nil
					}
					return scrawl(s.Inverse())
				})
				c.Count("overwritten")
			}
		}
		if len(solvers) > 0 && c.Chance(0.12) {
			// a right-hand side that belongs to the decomposition, or is its input
			s := solvers[c.Intn(len(solvers))]
			own := m
			quiet(func() []float64 {
				switch q := c.Intn(len(d.mats) + 2); {
				case q < len(d.mats):
					own = d.mats[q]()
				case q == len(d.mats):
					own = s.Inverse()
				}
				return nil
			})
			if !isNil(own) && own.RowDimension() == t.r {
				held := read(own)
				cpy := own.Copy()
				got, _ := c.ask(what+" own matrix", func() []float64 { return flatM(s.SolveMatrix(own)) })
				want, _ := c.ask(what+" copy of it", func() []float64 { return flatM(mk().solver().SolveMatrix(cpy)) })
				c.Check(sameBits(got, want), "%s: after%s, the solution for an own matrix differs from that for a copy: %s", what, hist, firstDiff(got, want))
				c.EqM(what+": own matrix after it was a right-hand side", own, held)
				hist += " solve(own)"
				c.Count("own right-hand sides")
			}
		}
		q := c.Intn(nq)
		if focus >= 0 && c.Chance(0.4) {
			q = focus
		}
		var got []float64
		name := ""
		if q < len(d.factors) {
			name = d.factors[q].name
			got, _ = c.ask(what+" "+name, d.factors[q].f)
		} else {
			if len(solvers) == 0 || c.Chance(0.3) {
				var s lin.DecompositionSolver
				p, bad := c.Guard(func() { s = d.solver() })
				if bad {
					mm, ok := libErr(p)
					c.Check(ok, "%s: Solver died with %s", what, mm)
					continue
				}
				solvers = append(solvers, s)
				hist += " Solver"
			}
			a := solverAnswers(solvers[c.Intn(len(solvers))], b, B)[q-len(d.factors)]
			name = a.name
			got, _ = c.ask(what+" "+name, a.f)
		}
		want := alone(q)
		c.Check(sameBits(got, want), "%s: after%s, %s differs from a fresh decomposition's: %s", what, hist, name, firstDiff(got, want))
		hist += " " + name
		c.Count("requests")
	}
	c.Notef("%s:%s", what, hist)
	c.EqV(what+": right-hand side", b, bs)
	c.EqM(what+": right-hand side", B, tb)
	c.EqM(what+": input", m, t)
}

// objects handed out earlier keep their contents
func x02held(c *Ctx) {
	n := c.decDim(24)
	kind := pick(c.Rng, "LU", "QR", "RRQR", "SVD", "Eigen", "Cholesky", "Hessenberg", "Schur", "BiDiagonal", "TriDiagonal")
	t := c.decInput(kind, n)
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of %dx%d (%s)", kind, t.r, t.c, rep)
	c.Notef("%s", what)
	var held []lin.RealMatrix
	var names []string
	var get []func() lin.RealMatrix
	var others []func()
	add := func(name string, f func() lin.RealMatrix) { names = append(names, name); get = append(get, f) }
	solverOf := func(f func() lin.DecompositionSolver) {
		others = append(others, func() {
			s := f()
			s.IsNonSingular()
			b, _ := c.anyVec(c.slice(t.r, vReal))
			quiet(func() []float64 { s.SolveVector(b); return nil })
			B, _ := c.anyMat(c.table(t.r, 3, vReal))
			quiet(func() []float64 { s.SolveMatrix(B); return nil })
			quiet(func() []float64 { s.Inverse(); return nil })
		})
	}
	var err error
	switch kind {
	case "LU":
		var x *lin.LUDecomposition
		if x, err = lin.NewLUDecomposition(m); err == nil {
			add("L", x.L)
			add("U", x.U)
			add("P", x.P)
			solverOf(x.Solver)
			others = append(others, func() { x.Determinant() }, func() { x.Pivot() })
		}
	case "Cholesky":
		var x *lin.CholeskyDecomposition
		if x, err = lin.NewDefaultCholeskyDecomposition(m); err == nil {
			add("L", x.L)
			add("LT", x.LT)
			solverOf(x.Solver)
			others = append(others, func() { x.Determinant() })
		}
	case "QR":
		var x *lin.QRDecomposition
		if x, err = lin.NewQRDecomposition(m); err == nil {
			add("Q", x.Q)
			add("QT", x.QT)
			add("R", x.R)
			add("H", x.H)
			solverOf(x.Solver)
		}
	case "RRQR":
		var x *lin.RRQRDecomposition
		if x, err = lin.NewRRQRDecomposition(m); err == nil {
			add("Q", x.Q)
			add("QT", x.QT)
			add("R", x.R)
			add("H", x.H)
			add("P", x.P)
			solverOf(x.Solver)
			others = append(others, func() { x.Rank(0.01) })
		}
	case "SVD":
		var x *lin.SingularValueDecomposition
		if x, err = lin.NewSingularValueDecomposition(m); err == nil {
			add("U", x.U)
			add("UT", x.UT)
			add("S", x.S)
			add("V", x.V)
			add("VT", x.VT)
			add("Covariance", func() lin.RealMatrix { return x.Covariance(x.Norm() / 3) })
			solverOf(x.Solver)
			others = append(others, func() { x.Rank() }, func() { x.ConditionNumber() }, func() { x.SingularValues() })
		}
	case "Eigen":
		var x *lin.EigenDecomposition
		if x, err = lin.NewEigenDecomposition(m); err == nil {
			add("V", x.V)
			add("D", x.D)
			add("VT", x.VT)
			if !x.HasComplexEigenvalues() {
				solverOf(x.Solver)
			}
			others = append(others, func() { x.Determinant() }, func() { quiet(func() []float64 { x.SquareRoot(); return nil }) },
				func() { x.EigenvectorAt(0).SetEntry(0, 17) }, func() { x.RealEigenvalues()[0] = 17 }, func() { x.ImagEigenvalues()[0] = 17 })
		}
	case "Hessenberg":
		var x *lin.HessenbergTransformer
		if x, err = lin.NewHessenbergTransformer(m); err == nil {
			add("P", x.P)
			add("PT", x.PT)
			add("H", x.H)
		}
	case "Schur":
		var x *lin.SchurTransformer
		if x, err = lin.NewSchurTransformer(m); err == nil {
			add("P", x.P)
			add("PT", x.PT)
			add("T", x.T)
		}
	case "BiDiagonal":
		var x *lin.BiDiagonalTransformer
		if x, err = lin.NewBiDiagonalTransformer(m); err == nil {
			add("U", x.U)
			add("B", x.B)
			add("V", x.V)
		}
	case "TriDiagonal":
		var x *lin.TriDiagonalTransformer
		if x, err = lin.NewTriDiagonalTransformer(m); err == nil {
			add("Q", x.Q)
			add("QT", x.QT)
			add("T", x.T)
		}
	}
	if err != nil {
		c.Check(isLib(err), "%s: constructor error %v", kind, err)
		c.Trivial()
		return
	}
	var snap []*T
	var which []int
	for k := 0; k < 14; k++ {
		if len(others) > 0 && c.Chance(0.35) {
			c.NoPanic(what, others[c.Intn(len(others))])
		} else {
			q := c.Intn(len(get))
			var x lin.RealMatrix
			p, bad := c.Guard(func() { x = get[q]() })
			if bad {
				mm, ok := libErr(p)
				c.Check(ok, "%s: %s died with %s", what, names[q], mm)
				continue
			}
			if isNil(x) {
				continue
			}
			held = append(held, x)
			snap = append(snap, read(x))
			which = append(which, q)
		}
		for i := range held {
			g := read(held[i])
			c.Check(g.r == snap[i].r && g.c == snap[i].c && sameBits(g.a, snap[i].a), "%s: the %s handed out earlier changed: %s", what, names[which[i]], firstDiff(g.a, snap[i].a))
			for j := 0; j < i; j++ {
				if which[i] == which[j] {
					c.Check(sameBits(snap[i].a, snap[j].a), "%s: %s asked twice: %s", what, names[which[i]], firstDiff(snap[i].a, snap[j].a))
				}
			}
		}
	}
	c.CountN("held", len(held))
}

// ================================================================ X03

// rewrite changes every entry of a matrix through one of its mutators.
func (c *Ctx) rewrite(m lin.RealMatrix, t *T, backing [][]float64) string {
	if _, diag := m.(*lin.DiagonalMatrix); diag {
		if backing != nil && c.Bool() {
			for i := range backing[0] {
				backing[0][i] = 3 + c.Float()
			}
			return "caller's array"
		}
		for i := 0; i < t.r; i++ {
			m.SetEntry(i, i, 2+c.Float())
		}
		return "SetEntry"
	}
	switch q := c.Intn(6); {
	case q == 0 && backing != nil, q == 1 && backing != nil:
		for i := range backing {
			for j := range backing[i] {
				backing[i][j] = 3 + c.Float()
			}
		}
		return "caller's array"
	case q == 2:
		s := c.table(t.r, t.c, vReal)
		m.SetSubMatrix(s.slices(), 0, 0)
		return "SetSubMatrix"
	case q == 3:
		for i := 0; i < t.r; i++ {
			m.SetRow(i, c.slice(t.c, vReal))
		}
		return "SetRow"
	case q == 4:
		for i := 0; i < t.r; i++ {
			for j := 0; j < t.c; j++ {
				m.MultiplyEntry(i, j, -2.5)
				m.AddToEntry(i, j, 1)
			}
		}
		return "MultiplyEntry"
	}
	for i := 0; i < t.r; i++ {
		for j := 0; j < t.c; j++ {
			m.SetEntry(i, j, c.Sym())
		}
	}
	return "SetEntry"
}

func x03(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	n := c.decDim(30)
	if c.Chance(0.05) {
		n = c.Range(50, 56)
	}
	t := c.decInput(kind, n)
	// the input, with access to the memory it may share with its maker
	var m lin.RealMatrix
	var backing [][]float64
	rep := ""
	switch x := c.Intn(6); {
	case x < 2:
		backing = t.slices()
		var err error
		m, err = lin.NewArray2DRowRealMatrixFromSlices(backing, false)
		c.must("NewArray2DRowRealMatrixFromSlices", err)
		rep = "A2D over caller's array"
	case x == 2 && t.isDiag():
		d := make([]float64, t.r)
		for i := range d {
			d[i] = t.at(i, i)
		}
		backing = [][]float64{d}
		var err error
		m, err = lin.NewDiagonalMatrix(d, false)
		c.must("NewDiagonalMatrix", err)
		rep = "Diagonal over caller's array"
	case x == 3:
		backing = blockLayout(t)
		var err error
		m, err = lin.NewBlockRealMatrixFromBlockData(t.r, t.c, backing)
		c.must("NewBlockRealMatrixFromBlockData", err)
		rep = "Block over caller's array"
	default:
		m, rep = c.anyMat(t)
	}
	thr := decThr(kind)
	d, err := decompose(kind, m, thr)
	c.EqM(kind+" constructor: input "+rep, m, t)
	if f, ok := m.(*FMat); ok {
		c.Check(f.writes == 0, "%s constructor wrote to its input", kind)
	}
	// a decomposition of a private copy in another storage
	ref, rrep := c.anyMat(t)
	e, err2 := decompose(kind, ref, thr)
	c.Check((err == nil) == (err2 == nil), "%s of %s: %v, of %s: %v", kind, rep, err, rrep, err2)
	if err != nil {
		c.Check(isLib(err), "%s: constructor error %v", kind, err)
		c.Trivial()
		return
	}
	bs := c.slice(t.r, vReal)
	tb := c.table(t.r, c.Range(1, 3), vReal)
	b, _ := c.anyVec(bs)
	B, _ := c.anyMat(tb)
	answers := func(d *decomp) []answer {
		a := append([]answer{}, d.factors...)
		if d.solver != nil {
			for q := 0; q < 4; q++ {
				q := q
				a = append(a, answer{[]string{"IsNonSingular", "SolveVector", "SolveMatrix", "Inverse"}[q], func() []float64 {
					return solverAnswers(d.solver(), b, B)[q].f()
				}})
			}
		}
		return a
	}
	mine, other := answers(d), answers(e)
	order := c.Perm(len(mine))
	cut := c.Intn(len(order) + 1)
	how := "nothing"
	got := map[int][]float64{}
	for k, q := range order {
		if k == cut || (k > cut && c.Chance(0.1)) {
			how = c.rewrite(m, t, backing)
			c.Count("mutated by " + how)
		}
		x, _ := c.ask(kind+" "+mine[q].name, mine[q].f)
		got[q] = x
	}
	if c.Bool() { // ask everything again after the mutation
		how = c.rewrite(m, t, backing)
		for q := range mine {
			x, _ := c.ask(kind+" "+mine[q].name, mine[q].f)
			c.Check(sameBits(x, got[q]), "%s of %s: %s changed after the input was mutated by %s: %s", kind, rep, mine[q].name, how, firstDiff(x, got[q]))
		}
	}
	what := fmt.Sprintf("%s of %dx%d %s", kind, t.r, t.c, rep)
	c.Notef("%s, mutated by %s, compared with %s", what, how, rrep)
	for q := range mine {
		w, _ := c.ask(kind+" "+other[q].name, other[q].f)
		if sameBits(got[q], w) {
			c.checks++
			continue
		}
		c.Check(len(got[q]) == len(w), "%s: %s has another shape than from %s", what, mine[q].name, rrep)
		max := 0.0
		for _, x := range w {
			max = math.Max(max, math.Abs(x))
		}
		for i := range w {
			c.Tol("storage", math.Abs(got[q][i]-w[i]), 1e-6*max, "%s: %s differs from that of the same entries in %s: %s", what, mine[q].name, rrep, firstDiff(got[q], w))
		}
		c.Count("equal up to rounding only")
	}
	c.Count(kind)
}

// solutions are independent of right-hand sides and of one another
func x03solve(c *Ctx) {
	kind := pick(c.Rng, solverKinds...)
	n := c.decDim(20)
	t := c.wellCond(kind, n, n)
	if kind == "LU" && c.Chance(0.15) {
		t = ident(n)
	}
	m, rep := c.anyMat(t)
	s := c.solver(kind, m)
	what := fmt.Sprintf("%s of %d (%s)", kind, n, rep)
	c.Notef("%s", what)
	bs := c.slice(n, vReal)
	tb := c.table(n, pick(c.Rng, 1, 2, 3, n), vReal)
	b, bk := c.anyVec(bs)
	B, brep := c.anyMat(tb)
	x1 := s.SolveVector(b)
	X1 := s.SolveMatrix(B)
	xv, Xv := readV(x1), read(X1)
	// scribble over the right-hand sides: the solutions stay
	for i := 0; i < n; i++ {
		b.SetEntry(i, 99)
		if _, diag := B.(*lin.DiagonalMatrix); !diag {
			for j := 0; j < tb.c; j++ {
				B.SetEntry(i, j, 99)
			}
		}
	}
	c.Check(sameBits(readV(x1), xv), "%s: solution changed with its %s right-hand side", what, bk)
	c.Check(sameBits(read(X1).a, Xv.a), "%s: solution changed with its %s right-hand side", what, brep)
	// solving for the overwritten objects is solving for what they hold now
	f1, _ := quiet(func() []float64 { return readV(s.SolveVector(b)) })
	f2, _ := quiet(func() []float64 { return readV(c.solver(kind, m).SolveVector(b.Copy())) })
	c.Check(sameBits(f1, f2), "%s: solving for a %s right-hand side overwritten since: %s", what, bk, firstDiff(f1, f2))
	f1, _ = quiet(func() []float64 { return read(s.SolveMatrix(B)).a })
	f2, _ = quiet(func() []float64 { return read(c.solver(kind, m).SolveMatrix(B.Copy())).a })
	c.Check(sameBits(f1, f2), "%s: solving for a %s right-hand side overwritten since: %s", what, brep, firstDiff(f1, f2))
	// scribble over the solutions: the solver stays
	for i := 0; i < n; i++ {
		x1.SetEntry(i, 77)
		for j := 0; j < tb.c; j++ {
			quiet(func() []float64 { X1.SetEntry(i, j, 77); return nil })
		}
	}
	b2, _ := c.anyVec(bs)
	B2, _ := c.anyMat(tb)
	x2, X2 := readV(s.SolveVector(b2)), read(s.SolveMatrix(B2))
	for i := range xv {
		c.Check(math.Abs(x2[i]-xv[i]) <= 1e-9*norm2(xv), "%s: solving again after the first solution was overwritten: %v, was %v", what, x2, xv)
	}
	c.Check(X2.sub(Xv).fro() <= 1e-9*Xv.fro(), "%s: solving again after the first solution was overwritten: %v, was %v", what, X2, Xv)
	c.Count("scribbled " + kind)
}

// x03apart: what becomes of one decomposition's answers is nothing to another,
// built before or after.
func x03apart(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	n := c.Range(1, 9)
	if c.Chance(0.05) {
		n = pick(c.Rng, 53, 65, 70)
	}
	plain := func(t *T) *T {
		if t.r != t.c || !c.Chance(0.35) {
			return t
		}
		if c.Bool() {
			return ident(t.r)
		}
		d := c.slice(t.r, vInt)
		for i := range d {
			d[i] = math.Abs(d[i]) + 1
		}
		return diagT(d)
	}
	t := plain(c.decInput(kind, n))
	m, rep := c.anyMat(t)
	thr := decThr(kind)
	b, _ := c.anyVec(c.slice(t.r, vReal))
	B, _ := c.anyMat(c.table(t.r, c.Range(1, 4), vReal))
	what := fmt.Sprintf("%s of %dx%d (%s)", kind, t.r, t.c, rep)
	build := func() *decomp {
		var d *decomp
		var err error
		c.NoPanic("constructor", func() { d, err = decompose(kind, m, thr) })
		if err != nil {
			c.Check(isLib(err), "%s: constructor error %v", kind, err)
			return nil
		}
		return d
	}
	answers := func(d *decomp, s lin.DecompositionSolver) []answer {
		as := d.factors
		if s != nil {
			as = append(append([]answer{}, as...), solverAnswers(s, b, B)...)
		}
		return as
	}
	solver := func(d *decomp) (s lin.DecompositionSolver) {
		if d.solver != nil {
			quiet(func() []float64 { s = d.solver(); return nil })
		}
		return
	}
	before := build()
	if before == nil {
		c.Trivial()
		return
	}
	sb := solver(before)
	var want [][]float64
	for _, a := range answers(before, sb) {
		w, _ := c.ask(what+" "+a.name, a.f)
		want = append(want, w)
	}
	// objects it gave
	type kept struct {
		name string
		now  func() []float64
		was  []float64
	}
	var held []kept
	hold := func(name string, f func() interface{}) {
		quiet(func() []float64 {
			switch x := f().(type) {
			case lin.RealVector:
				held = append(held, kept{name, func() []float64 { return readV(x) }, readV(x)})
			case lin.RealMatrix:
				if !isNil(x) {
					held = append(held, kept{name, func() []float64 { return flatM(x) }, flatM(x)})
				}
			}
			return nil
		})
	}
	for i, f := range before.mats {
		f := f
		hold(fmt.Sprintf("factor %d", i), func() interface{} { return f() })
	}
	if sb != nil {
		hold("the solution for a vector", func() interface{} { return sb.SolveVector(b) })
		hold("the solution for a matrix", func() interface{} { return sb.SolveMatrix(B) })
		hold("the inverse", func() interface{} { return sb.Inverse() })
	}
	// others of the same or another kind, asked and written over
	hist := ""
	for k := c.Range(1, 3); k > 0; k-- {
		k2 := kind
		if c.Bool() {
			k2 = pick(c.Rng, decKinds...)
		}
		var m2 lin.RealMatrix
		if k2 == kind && c.Bool() {
			m2, _ = c.anyMat(t)
		} else {
			m2, _ = c.anyMat(plain(c.decInput(k2, t.r)))
		}
		d, err := decompose(k2, m2, decThr(k2))
		if err != nil {
			continue
		}
		hist += fmt.Sprintf(" %s of %dx%d", k2, m2.RowDimension(), m2.ColumnDimension())
		b2, _ := c.anyVec(c.slice(m2.RowDimension(), vReal))
		B2, _ := c.anyMat(c.table(m2.RowDimension(), c.Range(1, 4), vReal))
		s := solver(d)
		for _, q := range c.Perm(len(d.mats) + len(d.given) + 3) {
			quiet(func() []float64 {
				switch {
				case q < len(d.mats):
					if x := d.mats[q](); !isNil(x) {
						return scrawl(x)
					}
				case q < len(d.mats)+len(d.given):
					return d.given[q-len(d.mats)].f()
				case s == nil:
				case q == len(d.mats)+len(d.given):
					return scrawl(s.SolveVector(b2))
				case q == len(d.mats)+len(d.given)+1:
					return scrawl(s.SolveMatrix(B2))
				default:
					return scrawl(s.Inverse())
				}
				return nil
			})
		}
		c.Count("written over " + k2)
	}
	c.Notef("%s, then%s", what, hist)
	if hist == "" {
		c.Trivial()
		return
	}
	for _, h := range held {
		now := h.now()
		c.Check(sameBits(now, h.was), "%s: %s, handed out earlier, changed when answers of%s were overwritten: %s", what, h.name, hist, firstDiff(now, h.was))
	}
	c.CountN("held", len(held))
	after := build()
	c.Check(after != nil, "%s cannot be built again after the answers of%s were overwritten", what, hist)
	for k, d := range []*decomp{before, after} {
		s := sb
		if d == after {
			s = solver(after)
		}
		for i, a := range answers(d, s) {
			got, _ := c.ask(what+" "+a.name, a.f)
			c.Check(sameBits(got, want[i]), "%s built %s answers of%s were overwritten: %s is another now: %s", what, []string{"before", "after"}[k], hist, a.name, firstDiff(got, want[i]))
		}
	}
	c.Count("others overwritten")
}

// ================================================================ X04

// hostile fills a table with numbers no algorithm likes.
func (c *Ctx) hostile(r, k int) (*T, string) {
	t := newT(r, k)
	name := ""
	base := func() {
		x := c.table(r, k, c.kind(vReal, vInt))
		copy(t.a, x.a)
	}
	weird := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1e-308, math.Copysign(0, -1), 1e154, 1e155, 1e-155, 1e-162, 1e200, 1e308}
	switch c.Intn(12) {
	case 0:
		name = "one NaN"
		base()
		t.a[c.Intn(r*k)] = math.NaN()
	case 1:
		name = "one infinity"
		base()
		t.a[c.Intn(r*k)] = math.Inf(pick(c.Rng, 1, -1))
	case 2:
		name = "one weird"
		base()
		t.a[c.Intn(r*k)] = weird[c.Intn(len(weird))]
	case 3:
		name = "all the same"
		x := weird[c.Intn(len(weird))]
		for i := range t.a {
			t.a[i] = x
		}
	case 4:
		name = "all weird"
		for i := range t.a {
			t.a[i] = weird[c.Intn(len(weird))]
		}
	case 5:
		name = "huge"
		base()
		t = t.scale(pick(c.Rng, 1e150, 1e200, 1e300, 1e306))
	case 6:
		name = "tiny"
		base()
		t = t.scale(pick(c.Rng, 1e-150, 1e-200, 1e-300, 1e-320))
	case 7:
		name = "random bits"
		for i := range t.a {
			t.a[i] = math.Float64frombits(c.U64())
		}
	case 8:
		name = "wild exponents"
		for i := range t.a {
			t.a[i] = c.Sym() * math.Pow(10, float64(c.Range(-320, 308)))
		}
	case 9:
		name = "weird row and column"
		base()
		i, j, x := c.Intn(r), c.Intn(k), weird[c.Intn(len(weird))]
		for q := 0; q < k; q++ {
			t.set(i, q, x)
		}
		for q := 0; q < r; q++ {
			t.set(q, j, x)
		}
	case 10:
		name = "weird diagonal"
		for i := 0; i < r && i < k; i++ {
			t.set(i, i, weird[c.Intn(len(weird))])
		}
	case 11:
		if r == k {
			t, name = c.square(r)
			name = "structured " + name
		} else {
			t, name = c.rect(r, k)
			name = "structured " + name
		}
		if c.Chance(0.3) {
			t = t.scale(math.Ldexp(1, c.Range(-1060, 1020)))
		}
	}
	if r == k && c.Chance(0.4) { // symmetric variants reach the symmetric algorithms
		for i := 0; i < r; i++ {
			for j := 0; j < i; j++ {
				t.set(i, j, t.at(j, i))
			}
		}
		name += ", symmetric"
		if c.Chance(0.3) { // positive diagonal
			for i := 0; i < r; i++ {
				t.set(i, i, math.Abs(t.at(i, i))+pick(c.Rng, 0, 1, 1e10))
			}
			name += ", positive diagonal"
		}
	}
	for _, x := range t.a {
		c.FPf(x)
	}
	c.Size(r * k)
	return t, name
}

// shapes of the factors of an r-by-k matrix; absent means not fixed.
func factorShape(kind, name string, r, k int) (int, int, bool) {
	p := r
	if k < p {
		p = k
	}
	sq := kind != "QR" && kind != "RRQR" && kind != "SVD" && kind != "BiDiagonal"
	if sq {
		switch name {
		case "L", "U", "P", "LT", "V", "D", "VT", "Q", "QT", "T", "H", "PT", "SquareRoot":
			return r, r, true
		}
		return 0, 0, false
	}
	switch kind {
	case "QR", "RRQR":
		switch name {
		case "Q", "QT":
			return r, r, true
		case "R", "H":
			return r, k, true
		case "P":
			return k, k, true
		}
	case "SVD":
		switch name {
		case "U":
			return r, p, true
		case "UT":
			return p, r, true
		case "S":
			return p, p, true
		case "V":
			return k, p, true
		case "VT":
			return p, k, true
		}
	case "BiDiagonal":
		switch name {
		case "U":
			return r, r, true
		case "B":
			return r, k, true
		case "V":
			return k, k, true
		}
	}
	return 0, 0, false
}

func x04dec(c *Ctx) {
	kind := pick(c.Rng, decKinds...)
	r := c.decDim(36)
	k := r
	switch kind {
	case "QR", "RRQR", "SVD", "BiDiagonal":
		if c.Chance(0.5) {
			k = c.decDim(36)
		}
	}
	t, name := c.hostile(r, k)
	m, rep := c.anyMat(t)
	what := fmt.Sprintf("%s of %s %dx%d (%s)", kind, name, r, k, rep)
	c.Notef("%s", what)
	c.Count(kind)
	thr := decThr(kind)
	if c.Chance(0.2) {
		thr = pick(c.Rng, 0, 1e-300, 1, math.Inf(1), math.NaN())
		if kind == "RectCholesky" && !(thr > 0) {
			thr = 1e-12
		}
	}
	var d *decomp
	var err error
	p, bad := c.Guard(func() { d, err = decompose(kind, m, thr) })
	if bad {
		mm, ok := libErr(p)
		c.Check(ok, "%s: constructor died with %s", what, mm)
		c.Count("refused")
		return
	}
	if err != nil {
		c.Check(isLib(err), "%s: constructor returned %T %v", what, err, err)
		c.Count("refused")
		return
	}
	c.Count("decomposed")
	for _, a := range d.factors {
		x, refused := c.ask(what+" "+a.name, a.f)
		c.checks++
		if refused != "" || (len(x) == 1 && x[0] == -1) {
			continue
		}
		if wr, wc, ok := factorShape(kind, a.name, r, k); ok {
			c.Check(len(x) == 2+wr*wc && int(x[0]) == wr && int(x[1]) == wc, "%s: %s is %vx%v, want %dx%d", what, a.name, x[0], x[1], wr, wc)
		}
	}
	if d.solver == nil {
		return
	}
	b, _ := c.anyVec(c.slice(r, vReal))
	w := c.Range(1, 4)
	tb := c.table(r, w, vReal)
	if c.Chance(0.3) {
		tb, _ = c.hostile(r, w)
	}
	B, _ := c.anyMat(tb)
	var s lin.DecompositionSolver
	p, bad = c.Guard(func() { s = d.solver() })
	if bad {
		mm, ok := libErr(p)
		c.Check(ok, "%s: Solver died with %s", what, mm)
		return
	}
	for i, a := range solverAnswers(s, b, B) {
		x, refused := c.ask(what+" "+a.name, a.f)
		c.checks++
		if refused != "" {
			continue
		}
		switch i {
		case 1:
			c.Check(len(x) == 1+k, "%s: solution of dimension %d", what, len(x)-1)
		case 2:
			c.Check(int(x[0]) == k && int(x[1]) == w, "%s: solution is %vx%v", what, x[0], x[1])
		case 3:
			c.Check(int(x[0]) == k && int(x[1]) == r, "%s: inverse is %vx%v", what, x[0], x[1])
		}
	}
}

func x04ops(c *Ctx) {
	r, k := c.Range(1, 9), c.Range(1, 9)
	if c.Chance(0.1) {
		r, k = c.Range(50, 60), c.Range(1, 60)
	}
	if c.Chance(0.4) {
		k = r
	}
	ta, name := c.hostile(r, k)
	ts, _ := c.hostile(r, k)
	tb, _ := c.hostile(k, c.Range(1, 5))
	a, rep := c.anyMat(ta)
	s, _ := c.anyMat(ts)
	b, _ := c.anyMat(tb)
	hv := func(n int) lin.RealVector {
		t, _ := c.hostile(n, 1)
		v, _ := c.anyVec(t.a)
		return v
	}
	v, w, u := hv(k), hv(r), hv(k)
	what := fmt.Sprintf("%s %dx%d (%s)", name, r, k, rep)
	c.Notef("%s", what)
	i0, j0 := c.Intn(r), c.Intn(k)
	pos := [4]int{i0, c.Range(i0, r-1), j0, c.Range(j0, k-1)}
	ops := matOps(a, s, b, v, w, pos)
	ops = append(ops, vecOps(v, u)...)
	for _, o := range ops {
		c.ask(what+" "+o.name, o.f)
		c.checks++
	}
	c.EqM(what+" after reading", a, ta)
	c.CountN("operations", len(ops))
}

func init() {
	register(&Prop{ID: "X01",
		Rule:      "no data race report from the race detector, and every result of every goroutine bit-identical to the sequential one, over goroutines sharing operands, inputs, solvers and primed decompositions, or working on objects of their own",
		Technique: "runtime monitoring: Go race detector plus bitwise comparison with a sequential run, randomized schedules",
		Level:     "2..6 goroutines, random request orders and injected yields; all storage kinds and decompositions",
		WL: []Workload{{Name: "operands", Quick: 700, Thorough: 14000, Run: x01ops}, {Name: "inputs", Quick: 1500, Thorough: 30000, Run: x01dec},
			{Name: "solvers", Quick: 2000, Thorough: 40000, Run: x01solver}, {Name: "getters", Quick: 1200, Thorough: 24000, Run: x01getters}, {Name: "private", Quick: 1500, Thorough: 30000, Run: x01own}},
		Need: []string{"concurrent requests", "shared operands", "shared solver LU", "shared solver SVD", "shared solver RRQR", "shared solver Eigen", "private workers"}})
	register(&Prop{ID: "X02",
		Rule:      "every answer in a random history of getters, solvers and solves is bit-identical to that of a freshly built decomposition asked only this question, although objects given away by value (slices, eigenvectors, covariances, solutions) are overwritten in between; matrices handed out earlier keep their contents",
		Technique: "runtime monitoring: history oracle against fresh instances (bitwise)",
		Level:     "12 decompositions and transformers, histories of 6..24 requests, orders to 30",
		WL:        []Workload{{Name: "histories", Quick: 6000, Thorough: 120000, Run: x02}, {Name: "held", Quick: 4000, Thorough: 80000, Run: x02held}},
		Need:      append([]string{"requests", "held", "overwritten", "own right-hand sides"}, decKinds...)})
	register(&Prop{ID: "X03",
		Rule:      "inputs are bit-identical after construction (foreign ones count writes), answers stay bit-identical when the input or the array under it is overwritten between requests, and agree with those of the same entries in another storage; solutions survive overwriting of right-hand sides and vice versa; overwriting the answers of other decompositions changes nothing in one built before or after",
		Technique: "runtime monitoring: mutation-injection oracle, differential over storage kinds",
		Level:     "12 decompositions and transformers, all storage kinds incl. matrices over a caller's array, orders to 56",
		WL:        []Workload{{Name: "inputs", Quick: 9000, Thorough: 180000, Run: x03}, {Name: "solutions", Quick: 4500, Thorough: 90000, Run: x03solve}, {Name: "others", Quick: 4500, Thorough: 90000, Run: x03apart}},
		Need:      append([]string{"mutated by caller's array", "mutated by SetEntry"}, decKinds...)})
	register(&Prop{ID: "X04",
		Rule:      "every constructor, getter, solver call and operation on hostile numbers returns a result of the documented shape or the library's error (returned or panicked); a watchdog turns a hang or memory exhaustion into a violation, and a fatal fault of the process is attributed to the case in flight",
		Technique: "runtime monitoring: termination/outcome monitor with watchdog over hostile-value workloads",
		Level:     "NaN, infinities, subnormals, extreme exponents, random bit patterns, degenerate structures; orders to 36 (operations to 60)",
		WL:        []Workload{{Name: "decompositions", Quick: 36000, Thorough: 720000, Run: x04dec}, {Name: "operations", Quick: 9000, Thorough: 180000, Run: x04ops}},
		Need:      append([]string{"refused", "decomposed", "operations"}, decKinds...)})
}
