package main

import (
	"math"
	"sort"

	"pgregory.net/rapid"
)

// Row describes one input row.
type Row struct {
	V    []F    `json:"v,omitempty"`    // values of features 0..len(V)-1
	Seed uint64 `json:"seed,omitempty"` // seed of the other features' values
	Sp   int    `json:"sp,omitempty"`   // chance (in percent) that a seeded feature has a value at all
	Tree int    `json:"tree,omitempty"` // 1+number of a tree; the row is led to leaf Leaf of it
	Leaf int    `json:"leaf,omitempty"`
}

// Mat describes an input matrix.
type Mat struct {
	Rows  []Row  `json:"rows,omitempty"`
	More  int    `json:"more,omitempty"` // further rows made from Seed
	Seed  uint64 `json:"seed,omitempty"`
	Extra int    `json:"extra,omitempty"` // trailing columns that the model does not have
}

// pools holds interesting values of every used feature.
type pools struct {
	used []int
	v    map[int][]float64
}

var baseVals = []float64{0, 1, -1, 1e-35, 0.5, 2, 3, math.Copysign(0, -1), 9.9e-36, -9.9e-36, 1.1e-35, -1.1e-35, 1e-20, 100.25, -100.25, 1e6, 5e-324, -5e-324, 1e300, -1e300}
var catVals = []float64{0, 1, 2, 3, 0.5, 0.99, -0.5, -0.001, math.Nextafter(-1, 0), math.Copysign(0, -1), -1, -2, -100.5, 31, 32, 33, 63, 64, 100.9, 1000000, 2147483647, 2147483648, 4294967296, 4294967297, 1e18, 1e300, -1e300}

// domain tells whether the value is one whose meaning is documented.
func (m *Model) domain(f int, x float64) bool {
	if m.single() && !math.IsNaN(x) && f32(x) != x {
		return false
	}
	switch m.Fam {
	case SKL:
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	case LGT, LGJ:
		if m.isCatFeature(f) {
			if math.IsNaN(x) {
				return has(m.CatN, f)
			}
			return true
		}
		a := math.Abs(x)
		return x == 1e-35 || !(a >= 1e-35 && a <= 1.00000002e-35)
	}
	return true
}

func (m *Model) getPools() *pools {
	if m.pools != nil {
		return m.pools
	}
	m.prepare()
	p := &pools{v: map[int][]float64{}}
	seen := map[int]map[uint64]bool{}
	add := func(f int, x float64) {
		if m.single() {
			x = to32(x)
		}
		if !m.domain(f, x) {
			return
		}
		if seen[f] == nil {
			seen[f] = map[uint64]bool{}
		}
		if b := math.Float64bits(x); !seen[f][b] {
			seen[f][b] = true
			p.v[f] = append(p.v[f], x)
		}
	}
	around := func(f int, x float64) {
		add(f, x)
		if m.single() {
			add(f, next32(x, true))
			add(f, next32(x, false))
			return
		}
		add(f, math.Nextafter(x, math.Inf(1)))
		add(f, math.Nextafter(x, math.Inf(-1)))
	}
	feats := append([]int{}, m.Used...)
	if m.Fam == XGL {
		for f := 0; f < m.NF && f < 8; f++ {
			feats = append(feats, f)
		}
		if m.NF > 8 {
			feats = append(feats, m.NF-1)
		}
	}
	p.used = feats
	for _, f := range feats {
		base := baseVals
		if m.isCatFeature(f) {
			base = catVals
		}
		for _, x := range base {
			add(f, x)
		}
		add(f, math.NaN())
		add(f, math.Inf(1))
		add(f, math.Inf(-1))
	}
	for i := range m.trees {
		t := &m.trees[i]
		for j := range t.S {
			s := &t.S[j]
			if len(p.v[s.F]) > 300 {
				continue
			}
			if !s.cat() {
				around(s.F, float64(s.T))
				continue
			}
			for _, c := range s.C {
				x := float64(c)
				add(s.F, x)
				add(s.F, x+1)
				add(s.F, x-1)
				add(s.F, x+0.75)
				add(s.F, x+32)
				add(s.F, x+(1<<32))
			}
			last := s.C[len(s.C)-1]
			add(s.F, float64(last/32*32+32))
			add(s.F, float64(last/32*32+31))
		}
	}
	m.pools = p
	return p
}

// row builds the row's values.
func (m *Model) row(r *Row, extra int) []float64 {
	p := m.getPools()
	v := make([]float64, m.NF+extra)
	if r.Seed != 0 {
		g := newRng(r.Seed)
		for _, f := range p.used {
			pool := p.v[f]
			x := pool[g.Intn(len(pool))]
			if r.Sp > 0 && g.Intn(100) >= r.Sp {
				if m.sparseNaN() {
					x = math.NaN()
				} else {
					x = 0
				}
			}
			v[f] = x
		}
		if m.NF <= 64 || m.Fam == XGL {
			for f := range v[:m.NF] {
				if p.v[f] == nil && g.Intn(2) == 0 {
					v[f] = float64(g.Intn(8) - 3)
					if m.Fam == XGL {
						switch g.Intn(12) {
						case 0:
							v[f] = math.NaN()
						case 1:
							v[f] = float64(g.Intn(4001)-2000) / 32
						}
					}
				}
			}
		}
		for f := m.NF; f < len(v); f++ {
			v[f] = []float64{1e9, math.NaN(), -7, math.Inf(1)}[g.Intn(4)]
		}
	} else {
		for f := m.NF; f < len(v); f++ {
			v[f] = 1e9 - float64(f)
		}
	}
	for f := range r.V {
		if f < m.NF {
			v[f] = float64(r.V[f])
		}
	}
	if r.Tree > 0 && r.Tree <= len(m.trees) {
		m.lead(&m.trees[r.Tree-1], r.Leaf, v)
	}
	return v
}

// sparseNaN: features that are not stored are missing.
func (m *Model) sparseNaN() bool { return m.Fam == XGT || m.Fam == XGD }

// lead changes the row so that it reaches the leaf, as far as the splits on
// the way allow it. Values at the bounds of the leaf's box are preferred.
func (m *Model) lead(t *Tree, leaf int, v []float64) {
	if len(t.S) == 0 || len(t.V) == 0 {
		return
	}
	leaf = ((leaf % len(t.V)) + len(t.V)) % len(t.V)
	// path to the leaf
	type step struct {
		node int
		left bool
	}
	parent := make(map[int]step, len(t.S))
	var last step
	for i := range t.S {
		for _, left := range []bool{true, false} {
			c := t.S[i].R
			if left {
				c = t.S[i].L
			}
			if c >= 0 {
				parent[c] = step{i, left}
			} else if ^c == leaf {
				last = step{i, left}
			}
		}
	}
	var path []step
	for s, ok := last, true; ok; s, ok = parent[s.node] {
		path = append(path, s)
	}
	type box struct{ lo, hi float64 }
	boxes := map[int]*box{}
	for i := len(path) - 1; i >= 0; i-- {
		s := &t.S[path[i].node]
		left := path[i].left
		if goLeft(m.Fam, s, v[s.F]) == left && !s.cat() && boxes[s.F] == nil {
			// the present value does
			b := &box{math.Inf(-1), math.Inf(1)}
			boxes[s.F] = b
			if left {
				b.hi = float64(s.T)
			} else {
				b.lo = float64(s.T)
			}
			continue
		}
		if s.cat() {
			if goLeft(m.Fam, s, v[s.F]) == left {
				continue
			}
			if left {
				v[s.F] = float64(s.C[(leaf+i)%len(s.C)])
			} else {
				c := 0
				for has(s.C, c) {
					c++
				}
				v[s.F] = float64(c)
			}
			continue
		}
		b := boxes[s.F]
		if b == nil {
			b = &box{math.Inf(-1), math.Inf(1)}
			boxes[s.F] = b
		}
		if left {
			b.hi = math.Min(b.hi, float64(s.T))
		} else {
			b.lo = math.Max(b.lo, float64(s.T))
		}
		if goLeft(m.Fam, s, v[s.F]) == left && v[s.F] <= b.hi && v[s.F] >= b.lo {
			continue
		}
		x := b.hi // `<=` splits
		if m.sparseNaN() {
			x = b.lo // `<` splits
			if math.IsInf(x, -1) {
				x = next32(b.hi, false)
			}
		} else if math.IsInf(x, 1) {
			x = math.Nextafter(b.lo, math.Inf(1))
			if m.single() {
				x = next32(b.lo, true)
				if x <= b.lo {
					x = next32(x, true)
				}
			}
		}
		if m.single() {
			x = to32(x)
		}
		if m.domain(s.F, x) {
			v[s.F] = x
		}
	}
}

// matrix builds the rows of the matrix.
func (m *Model) matrix(x *Mat) [][]float64 {
	out := make([][]float64, 0, len(x.Rows)+x.More)
	for i := range x.Rows {
		out = append(out, m.row(&x.Rows[i], x.Extra))
	}
	g := newRng(x.Seed)
	for i := 0; i < x.More; i++ {
		r := m.seedRow(g)
		out = append(out, m.row(&r, x.Extra))
	}
	return out
}

func (m *Model) seedRow(g *Rng) Row {
	r := Row{Seed: g.U64() | 1}
	if g.Intn(3) == 0 {
		r.Sp = []int{20, 50, 80}[g.Intn(3)]
	}
	if len(m.trees) > 0 && g.Bool() {
		r.Tree = 1 + g.Intn(len(m.trees))
		r.Leaf = g.Intn(len(m.trees[r.Tree-1].V))
		if n := len(m.trees[r.Tree-1].V); n > 1000 && g.Intn(3) == 0 {
			r.Leaf = n - 1 - g.Intn(400)
		}
	}
	return r
}

func genVal(t *rapid.T, m *Model, f int) F {
	p := m.getPools()
	pool := p.v[f]
	if len(pool) == 0 {
		return F(ir(t, "free", -2, 2))
	}
	k := ir(t, "valkind", 0, 9)
	if k == 9 {
		x := rapid.Float64Range(-1200, 1200).Draw(t, "valf")
		if m.single() {
			x = f32(x)
		}
		if m.domain(f, x) {
			return F(x)
		}
		return 0
	}
	return F(pool[ir(t, "val", 0, len(pool)-1)])
}

func genRow(t *rapid.T, m *Model) Row {
	m.prepare()
	r := Row{}
	if m.NF <= 7 {
		if pct(t, "rowseed", 10) {
			r.Seed = rapid.Uint64Min(1).Draw(t, "rs")
		} else {
			for f := 0; f < m.NF; f++ {
				r.V = append(r.V, genVal(t, m, f))
			}
		}
	} else if pct(t, "rowset", 90) {
		r.Seed = rapid.Uint64Min(1).Draw(t, "rs")
		if pct(t, "sparse", 30) {
			r.Sp = 30
		}
	}
	if len(m.trees) > 0 && pct(t, "lead", 40) {
		r.Tree = 1 + ir(t, "ltree", 0, len(m.trees)-1)
		n := len(m.trees[r.Tree-1].V)
		r.Leaf = ir(t, "lleaf", 0, n-1)
		if n > 1000 && pct(t, "lleaflast", 40) {
			r.Leaf = n - 1 - r.Leaf%400
		}
	}
	return r
}

func genRows(t *rapid.T, m *Model, lo, hi int) []Row {
	n := ir(t, "rows", lo, hi)
	var r []Row
	for i := 0; i < n; i++ {
		r = append(r, genRow(t, m))
	}
	return r
}

// rowSizes covers the edges of the framework's batches.
var rowSizes = []int{1, 2, 3, 5, 15, 16, 17, 18, 31, 32, 33, 47, 48, 49, 64, 65, 100, 129, 200}

// genMat draws a matrix, of many rows most of the time when `batch`.
func genMat(t *rapid.T, m *Model, batch bool) Mat {
	x := Mat{Rows: genRows(t, m, 1, 4)}
	if batch {
		n := oneOf(t, "nrows", rowSizes)
		if m.NF < 100 && len(m.trees) < 40 && uni(t, "tall", 1<<10) >= 1<<10-6 {
			n = oneOf(t, "nrowstall", []int{500, 1024, 1025, 3000, 9000, 33000, 70000})
			if n > 9000 && (m.nEst()*m.K > 4 || m.NF > 8 || uni(t, "verytall", 8) < 4) {
				n = 600
			}
		}
		if m.NF > 1000 && n > 40 {
			n = 40
		}
		if n > len(x.Rows) {
			x.More = n - len(x.Rows)
			x.Seed = rapid.Uint64().Draw(t, "matseed")
		}
	}
	if pct(t, "extracols", 25) {
		x.Extra = ir(t, "extra", 1, 3)
		if pct(t, "wide", 10) {
			x.Extra = ir(t, "extrawide", 4, 90)
		}
	}
	return x
}

func flat(rows [][]float64) []float64 {
	var v []float64
	for _, r := range rows {
		v = append(v, r...)
	}
	return v
}

// CSR holds a sparse matrix.
type CSR struct {
	ptr, col []int
	val      []float64
}

// explicitCSR stores every value of every row.
func explicitCSR(rows [][]float64) CSR {
	c := CSR{ptr: []int{0}}
	for _, r := range rows {
		for f, x := range r {
			c.col = append(c.col, f)
			c.val = append(c.val, x)
		}
		c.ptr = append(c.ptr, len(c.val))
	}
	return c
}

// sparseCSR stores the same rows with random choices that have no meaning:
// values which absent entries have are stored or not, entries are in any
// order, columns that the model does not have appear, and the row pointers
// start behind unrelated entries.
type sparseOpt struct {
	Seed    uint64 `json:"seed"`
	Drop    int    `json:"drop"` // chance to drop an entry with the default value
	Shuffle bool   `json:"shuffle,omitempty"`
	Alien   bool   `json:"alien,omitempty"`
	Middle  bool   `json:"middle,omitempty"`
}

func genSparse(t *rapid.T) sparseOpt {
	return sparseOpt{rapid.Uint64().Draw(t, "spseed"), oneOf(t, "drop", []int{100, 50, 0}), rapid.Bool().Draw(t, "shuffle"), rapid.Bool().Draw(t, "alien"), pct(t, "middle", 40)}
}

func (m *Model) sparseCSR(rows [][]float64, o sparseOpt) CSR {
	g := newRng(o.Seed)
	c := CSR{}
	junk := func() {
		for i, n := 0, 1+g.Intn(5); i < n; i++ {
			c.col = append(c.col, g.Intn(m.NF+3))
			c.val = append(c.val, []float64{777, -777, math.NaN(), math.Inf(1)}[g.Intn(4)])
		}
	}
	if o.Middle {
		junk()
	}
	c.ptr = []int{len(c.val)}
	for _, r := range rows {
		var es []ent
		for f, x := range r {
			def := x == 0
			if m.sparseNaN() {
				def = math.IsNaN(x)
			}
			if def && g.Intn(100) < o.Drop {
				continue
			}
			es = append(es, ent{f, x})
		}
		if o.Alien && g.Bool() {
			base := m.NF
			if len(r) > base {
				base = len(r)
			}
			for i, n := 0, 1+g.Intn(3); i < n; i++ {
				es = append(es, ent{base + i*[]int{1, 7, 65536}[g.Intn(3)] + i, 1e9})
			}
			if g.Intn(4) == 0 {
				es = append(es, ent{math.MaxInt32, 5}, ent{1<<40 + g.Intn(m.NF), -5})
			}
		}
		if o.Shuffle {
			for i := len(es) - 1; i > 0; i-- {
				j := g.Intn(i + 1)
				es[i], es[j] = es[j], es[i]
			}
		}
		for _, e := range es {
			c.col = append(c.col, e.c)
			c.val = append(c.val, e.v)
		}
		c.ptr = append(c.ptr, len(c.val))
	}
	if o.Middle {
		junk()
	}
	return c
}

type ent struct {
	c int
	v float64
}

func sortedKeys(m map[string]int) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
