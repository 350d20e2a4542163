package main

import lin "github.com/jtejido/linear"

// FMat is an implementation of the matrix interface that does not belong to
// the library. It counts every write it receives.
type FMat struct {
	t      *T
	writes int
}

func newFMat(t *T) *FMat                                 { return &FMat{t: t.clone()} }
func (f *FMat) RowDimension() int                        { return f.t.r }
func (f *FMat) ColumnDimension() int                     { return f.t.c }
func (f *FMat) Copy() lin.RealMatrix                     { return newFMat(f.t) }
func (f *FMat) Add(m lin.RealMatrix) lin.RealMatrix      { return &FMat{t: f.t.add(read(m))} }
func (f *FMat) Subtract(m lin.RealMatrix) lin.RealMatrix { return &FMat{t: f.t.sub(read(m))} }
func (f *FMat) ScalarAdd(d float64) lin.RealMatrix {
	o := f.t.clone()
	for i := range o.a {
		o.a[i] += d
	}
	return &FMat{t: o}
}
func (f *FMat) ScalarMultiply(d float64) lin.RealMatrix           { return &FMat{t: f.t.scale(d)} }
func (f *FMat) Multiply(m lin.RealMatrix) lin.RealMatrix          { return &FMat{t: f.t.mul(read(m))} }
func (f *FMat) PreMultiplyMatrix(m lin.RealMatrix) lin.RealMatrix { return &FMat{t: read(m).mul(f.t)} }
func (f *FMat) Data() [][]float64                                 { return f.t.slices() }
func (f *FMat) SubMatrix(a, b, c, d int) lin.RealMatrix           { return &FMat{t: f.t.part(a, b, c, d)} }
func (f *FMat) SetSubMatrix(s [][]float64, row, column int) {
	for i := range s {
		for j := range s[i] {
			f.SetEntry(row+i, column+j, s[i][j])
		}
	}
}
func (f *FMat) RowMatrixAt(r int) lin.RealMatrix { return &FMat{t: f.t.part(r, r, 0, f.t.c-1)} }
func (f *FMat) SetRowMatrix(r int, m lin.RealMatrix) {
	for j := 0; j < f.t.c; j++ {
		f.SetEntry(r, j, m.At(0, j))
	}
}
func (f *FMat) ColumnMatrixAt(c int) lin.RealMatrix { return &FMat{t: f.t.part(0, f.t.r-1, c, c)} }
func (f *FMat) SetColumnMatrix(c int, m lin.RealMatrix) {
	for i := 0; i < f.t.r; i++ {
		f.SetEntry(i, c, m.At(i, 0))
	}
}
func (f *FMat) RowVectorAt(r int) lin.RealVector        { return &FVec{a: f.t.row(r)} }
func (f *FMat) SetRowVector(r int, v lin.RealVector)    { f.SetRow(r, readV(v)) }
func (f *FMat) ColumnVectorAt(c int) lin.RealVector     { return &FVec{a: f.t.col(c)} }
func (f *FMat) SetColumnVector(c int, v lin.RealVector) { f.SetColumn(c, readV(v)) }
func (f *FMat) RowAt(r int) []float64                   { return f.t.row(r) }
func (f *FMat) SetRow(r int, a []float64) {
	for j, v := range a {
		f.SetEntry(r, j, v)
	}
}
func (f *FMat) ColumnAt(c int) []float64 { return f.t.col(c) }
func (f *FMat) SetColumn(c int, a []float64) {
	for i, v := range a {
		f.SetEntry(i, c, v)
	}
}
func (f *FMat) At(r, c int) float64 {
	if r < 0 || c < 0 || r >= f.t.r || c >= f.t.c {
		panic("foreign matrix: index out of range")
	}
	return f.t.at(r, c)
}
func (f *FMat) SetEntry(r, c int, v float64)      { f.writes++; f.t.set(r, c, v) }
func (f *FMat) AddToEntry(r, c int, v float64)    { f.writes++; f.t.set(r, c, f.t.at(r, c)+v) }
func (f *FMat) MultiplyEntry(r, c int, v float64) { f.writes++; f.t.set(r, c, f.t.at(r, c)*v) }
func (f *FMat) Transpose() lin.RealMatrix         { return &FMat{t: f.t.tr()} }
func (f *FMat) Trace() float64 {
	s := 0.0
	for i := 0; i < f.t.r; i++ {
		s += f.t.at(i, i)
	}
	return s
}
func (f *FMat) Operate(v []float64) []float64                 { return f.t.mul(colT(v)).a }
func (f *FMat) OperateVector(v lin.RealVector) lin.RealVector { return &FVec{a: f.Operate(readV(v))} }
func (f *FMat) PreMultiply(v []float64) []float64             { return (&T{1, len(v), v}).mul(f.t).a }
func (f *FMat) PreMultiplyVector(v lin.RealVector) lin.RealVector {
	return &FVec{a: f.PreMultiply(readV(v))}
}
func (f *FMat) Equals(o interface{}) bool {
	m, ok := o.(lin.RealMatrix)
	if !ok || m.RowDimension() != f.t.r || m.ColumnDimension() != f.t.c {
		return false
	}
	u := read(m)
	for i := range u.a {
		if u.a[i] != f.t.a[i] {
			return false
		}
	}
	return true
}
func (f *FMat) walkU(v lin.RealMatrixChangingVisitor, a, b, c, d int, byCol bool) float64 {
	v.Start(f.t.r, f.t.c, a, b, c, d)
	if byCol {
		for j := c; j <= d; j++ {
			for i := a; i <= b; i++ {
				f.SetEntry(i, j, v.Visit(i, j, f.t.at(i, j)))
			}
		}
	} else {
		for i := a; i <= b; i++ {
			for j := c; j <= d; j++ {
				f.SetEntry(i, j, v.Visit(i, j, f.t.at(i, j)))
			}
		}
	}
	return v.End()
}
func (f *FMat) walk(v lin.RealMatrixPreservingVisitor, a, b, c, d int, byCol bool) float64 {
	v.Start(f.t.r, f.t.c, a, b, c, d)
	if byCol {
		for j := c; j <= d; j++ {
			for i := a; i <= b; i++ {
				v.Visit(i, j, f.t.at(i, j))
			}
		}
	} else {
		for i := a; i <= b; i++ {
			for j := c; j <= d; j++ {
				v.Visit(i, j, f.t.at(i, j))
			}
		}
	}
	return v.End()
}
func (f *FMat) WalkInUpdateRowOrder(v lin.RealMatrixChangingVisitor) float64 {
	return f.walkU(v, 0, f.t.r-1, 0, f.t.c-1, false)
}
func (f *FMat) WalkInRowOrder(v lin.RealMatrixPreservingVisitor) float64 {
	return f.walk(v, 0, f.t.r-1, 0, f.t.c-1, false)
}
func (f *FMat) WalkInUpdateRowOrderBounded(v lin.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return f.walkU(v, a, b, c, d, false)
}
func (f *FMat) WalkInRowOrderBounded(v lin.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return f.walk(v, a, b, c, d, false)
}
func (f *FMat) WalkInUpdateColumnOrder(v lin.RealMatrixChangingVisitor) float64 {
	return f.walkU(v, 0, f.t.r-1, 0, f.t.c-1, true)
}
func (f *FMat) WalkInColumnOrder(v lin.RealMatrixPreservingVisitor) float64 {
	return f.walk(v, 0, f.t.r-1, 0, f.t.c-1, true)
}
func (f *FMat) WalkInUpdateColumnOrderBounded(v lin.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return f.walkU(v, a, b, c, d, true)
}
func (f *FMat) WalkInColumnOrderBounded(v lin.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return f.walk(v, a, b, c, d, true)
}
func (f *FMat) WalkInUpdateOptimizedOrder(v lin.RealMatrixChangingVisitor) float64 {
	return f.walkU(v, 0, f.t.r-1, 0, f.t.c-1, true)
}
func (f *FMat) WalkInOptimizedOrder(v lin.RealMatrixPreservingVisitor) float64 {
	return f.walk(v, 0, f.t.r-1, 0, f.t.c-1, true)
}
func (f *FMat) WalkInUpdateOptimizedOrderBounded(v lin.RealMatrixChangingVisitor, a, b, c, d int) float64 {
	return f.walkU(v, a, b, c, d, true)
}
func (f *FMat) WalkInOptimizedOrderBounded(v lin.RealMatrixPreservingVisitor, a, b, c, d int) float64 {
	return f.walk(v, a, b, c, d, true)
}

// FVec is an implementation of the vector interface that does not belong to the library.
type FVec struct {
	a      []float64
	writes int
}

func newFVec(a []float64) *FVec             { return &FVec{a: append([]float64{}, a...)} }
func (f *FVec) w(i int, v float64)          { f.writes++; f.a[i] = v }
func (f *FVec) Dimension() int              { return len(f.a) }
func (f *FVec) At(i int) float64            { return f.a[i] }
func (f *FVec) SetEntry(i int, v float64)   { f.w(i, v) }
func (f *FVec) AddToEntry(i int, v float64) { f.w(i, f.a[i]+v) }
func (f *FVec) AppendVector(v lin.RealVector) lin.RealVector {
	return &FVec{a: append(append([]float64{}, f.a...), readV(v)...)}
}
func (f *FVec) Append(d float64) lin.RealVector {
	return &FVec{a: append(append([]float64{}, f.a...), d)}
}
func (f *FVec) SubVector(i, n int) lin.RealVector { return newFVec(f.a[i : i+n]) }
func (f *FVec) SetSubVector(i int, v lin.RealVector) {
	for k, x := range readV(v) {
		f.w(i+k, x)
	}
}
func (f *FVec) IsNaN() bool {
	for _, v := range f.a {
		if v != v {
			return true
		}
	}
	return false
}
func (f *FVec) IsInf() bool {
	inf := false
	for _, v := range f.a {
		if v != v {
			return false
		}
		if v-v != 0 {
			inf = true
		}
	}
	return inf
}
func (f *FVec) zip(v lin.RealVector, g func(a, b float64) float64) lin.RealVector {
	if v.Dimension() != len(f.a) {
		panic("foreign vector: dimension mismatch")
	}
	o := newFVec(f.a)
	for i := range o.a {
		o.a[i] = g(f.a[i], v.At(i))
	}
	return o
}
func (f *FVec) Add(v lin.RealVector) lin.RealVector {
	return f.zip(v, func(a, b float64) float64 { return a + b })
}
func (f *FVec) Subtract(v lin.RealVector) lin.RealVector {
	return f.zip(v, func(a, b float64) float64 { return a - b })
}
func (f *FVec) EBEDivide(v lin.RealVector) lin.RealVector {
	return f.zip(v, func(a, b float64) float64 { return a / b })
}
func (f *FVec) EBEMultiply(v lin.RealVector) lin.RealVector {
	return f.zip(v, func(a, b float64) float64 { return a * b })
}
func (f *FVec) Map(g func(float64) float64) {
	for i := range f.a {
		f.w(i, g(f.a[i]))
	}
}
func (f *FVec) MapAdd(d float64)      { f.Map(func(x float64) float64 { return x + d }) }
func (f *FVec) MapSubtract(d float64) { f.Map(func(x float64) float64 { return x - d }) }
func (f *FVec) MapMultiply(d float64) { f.Map(func(x float64) float64 { return x * d }) }
func (f *FVec) MapDivide(d float64)   { f.Map(func(x float64) float64 { return x / d }) }
func (f *FVec) CopyFrom(v lin.RealVector) {
	for i := range f.a {
		f.w(i, v.At(i))
	}
}
func (f *FVec) Copy() lin.RealVector { return newFVec(f.a) }
func (f *FVec) Set(v float64)        { f.Map(func(float64) float64 { return v }) }
func (f *FVec) ToArray() []float64   { return append([]float64{}, f.a...) }
func (f *FVec) Unitize()             { f.MapDivide(norm2(f.a)) }
func (f *FVec) Combine(a, b float64, y lin.RealVector) {
	for i := range f.a {
		f.w(i, a*f.a[i]+b*y.At(i))
	}
}

type fent struct {
	i int
	v float64
}

func (e fent) Index() int     { return e.i }
func (e fent) Value() float64 { return e.v }

type fit struct {
	f *FVec
	i int
}

func (t *fit) HasNext() bool { return t.i < len(t.f.a) }
func (t *fit) Next() lin.Entry {
	t.i++
	return fent{t.i - 1, t.f.a[t.i-1]}
}
func (f *FVec) Iterator() lin.EntryIterator { return &fit{f: f} }
func (f *FVec) walk(v lin.RealVectorPreservingVisitor, a, b int) float64 {
	v.Start(len(f.a), a, b)
	for i := a; i <= b; i++ {
		v.Visit(i, f.a[i])
	}
	return v.End()
}
func (f *FVec) walkU(v lin.RealVectorChangingVisitor, a, b int) float64 {
	v.Start(len(f.a), a, b)
	for i := a; i <= b; i++ {
		f.w(i, v.Visit(i, f.a[i]))
	}
	return v.End()
}
func (f *FVec) WalkInDefaultOrder(v lin.RealVectorPreservingVisitor) float64 {
	return f.walk(v, 0, len(f.a)-1)
}
func (f *FVec) WalkInDefaultOrderBounded(v lin.RealVectorPreservingVisitor, a, b int) float64 {
	return f.walk(v, a, b)
}
func (f *FVec) WalkInUpdateDefaultOrder(v lin.RealVectorChangingVisitor) float64 {
	return f.walkU(v, 0, len(f.a)-1)
}
func (f *FVec) WalkInUpdateDefaultOrderBounded(v lin.RealVectorChangingVisitor, a, b int) float64 {
	return f.walkU(v, a, b)
}
func (f *FVec) WalkInOptimizedOrder(v lin.RealVectorPreservingVisitor) float64 {
	return f.walk(v, 0, len(f.a)-1)
}
func (f *FVec) WalkInOptimizedOrderBounded(v lin.RealVectorPreservingVisitor, a, b int) float64 {
	return f.walk(v, a, b)
}
func (f *FVec) WalkInUpdateOptimizedOrder(v lin.RealVectorChangingVisitor) float64 {
	return f.walkU(v, 0, len(f.a)-1)
}
func (f *FVec) WalkInUpdateOptimizedOrderBounded(v lin.RealVectorChangingVisitor, a, b int) float64 {
	return f.walkU(v, a, b)
}
func (f *FVec) Equals(o interface{}) bool {
	v, ok := o.(lin.RealVector)
	if !ok || v.Dimension() != len(f.a) {
		return false
	}
	if v.IsNaN() || f.IsNaN() {
		return v.IsNaN() && f.IsNaN()
	}
	for i := range f.a {
		if f.a[i] != v.At(i) {
			return false
		}
	}
	return true
}

var _ lin.RealMatrix = (*FMat)(nil)
var _ lin.RealVector = (*FVec)(nil)
