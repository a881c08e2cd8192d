package main

import (
	"fmt"
	"math"
	"os"
	"sync"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/transformation"
	"pgregory.net/rapid"
)

// ---------- C16: writes ----------

// guarded is an output slice inside a larger array whose other elements must
// not change.
type guarded struct {
	all      []float64
	off, n   int
	snapshot []float64
}

func guard(n, pad int, fill func(i int) float64) *guarded {
	g := &guarded{all: make([]float64, n+pad+14), off: 7, n: n}
	for i := range g.all {
		g.all[i] = fill(i)
	}
	g.snapshot = append([]float64{}, g.all...)
	return g
}

// out is the slice given to the library: n needed elements and the padding.
func (g *guarded) out(pad int) []float64 { return g.all[g.off : g.off+g.n+pad] }

// checkOutside: nothing but the first n elements changed.
func (g *guarded) checkOutside() error {
	for i := range g.all {
		if i >= g.off && i < g.off+g.n {
			continue
		}
		if math.Float64bits(g.all[i]) != math.Float64bits(g.snapshot[i]) {
			return verr("element %d of an output slice with %d outputs was overwritten with %v", i-g.off, g.n, g.all[i])
		}
	}
	return nil
}

func fillA(i int) float64 { return 1e100 + float64(i) }
func fillB(i int) float64 { return math.NaN() }
func fillC(i int) float64 { return -float64(i) - 0.5 }

type inputCopy struct {
	f [][]float64
	i [][]int
	a []any
}

func freeze(parts ...any) *inputCopy {
	c := &inputCopy{a: parts}
	for _, p := range parts {
		switch x := p.(type) {
		case []float64:
			c.f = append(c.f, append([]float64{}, x[:cap(x)]...))
		case []int:
			c.i = append(c.i, append([]int{}, x[:cap(x)]...))
		}
	}
	return c
}

func (c *inputCopy) check() error {
	fi, ii := 0, 0
	for _, p := range c.a {
		switch x := p.(type) {
		case []float64:
			for j, v := range x[:cap(x)] {
				if math.Float64bits(v) != math.Float64bits(c.f[fi][j]) {
					return verr("input value %d was changed from %v to %v", j, c.f[fi][j], v)
				}
			}
			fi++
		case []int:
			for j, v := range x[:cap(x)] {
				if v != c.i[ii][j] {
					return verr("input index %d was changed from %v to %v", j, c.i[ii][j], v)
				}
			}
			ii++
		}
	}
	return nil
}

func writeCheck(c *PredCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.chain(c.Chain)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	c.labels(x, len(rows))
	k := e.NOutputGroups()
	g := newRng(c.Seed)
	pad := []int{0, 1, 3, k, 40}[g.Intn(5)]
	x.nontrivialIf(pad > 0)
	run := func(name string, n int, in []any, call func(out []float64) error) error {
		var first []float64
		for _, fill := range []func(int) float64{fillA, fillB, fillC} {
			gd := guard(n, pad, fill)
			fr := freeze(in...)
			if err := call(gd.out(pad)); err != nil {
				return verr("%s is refused: %v", name, err)
			}
			if err := gd.checkOutside(); err != nil {
				return verr("%s: %v", name, err)
			}
			if err := fr.check(); err != nil {
				return verr("%s: %v", name, err)
			}
			got := append([]float64{}, gd.out(pad)[:n]...)
			if first == nil {
				first = got
				for i, v := range got {
					if v == fillA(i+gd.off) && n > 0 {
						return verr("%s: output %d of %d was not written", name, i, n)
					}
				}
			} else if i := sameSlice(got, first); i >= 0 {
				return verr("%s: output %d is %v or %v, depending on the previous contents of the output slice", name, i, first[i], got[i])
			}
		}
		return nil
	}
	r0 := rows[g.Intn(len(rows))]
	if err := run("Predict", k, []any{r0}, func(o []float64) error { return e.Predict(r0, c.N, o) }); err != nil {
		return err
	}
	vals := flat(rows)
	cols := len(rows[0])
	csr := m.sparseCSR(rows, c.Sp)
	for _, thr := range c.Thr {
		if err := run("PredictDense", k*len(rows), []any{vals}, func(o []float64) error { return e.PredictDense(vals, len(rows), cols, o, c.N, thr) }); err != nil {
			return err
		}
		if err := run("PredictCSR", k*len(rows), []any{csr.ptr, csr.col, csr.val}, func(o []float64) error {
			return e.PredictCSR(csr.ptr, csr.col, csr.val, o, c.N, thr)
		}); err != nil {
			return err
		}
		if err := run("PredictDense of no rows", 0, []any{vals}, func(o []float64) error { return e.PredictDense(nil, 0, cols, o, c.N, thr) }); err != nil {
			return err
		}
		if err := run("PredictCSR of no rows", 0, []any{csr.col, csr.val}, func(o []float64) error {
			return e.PredictCSR([]int{0}, csr.col, csr.val, o, c.N, thr)
		}); err != nil {
			return err
		}
	}
	fr := freeze(r0)
	e.PredictSingle(r0, c.N)
	if err := fr.check(); err != nil {
		return verr("PredictSingle: %v", err)
	}
	return nil
}

// ---------- C17: refusals ----------

// RefuseCase is a prediction that has to be refused for the reasons in Why.
type RefuseCase struct {
	M     *Model `json:"m"`
	Chain string `json:"chain"`
	X     Mat    `json:"x"`
	Short int    `json:"short"` // missing output elements
	Feat  int    `json:"feat"`  // missing features
	LeafN int    `json:"leafn"` // leaf view: estimators asked for, 0 for all
	Thr   int    `json:"thr"`
	Wide  int    `json:"wide,omitempty"` // columns that the model does not have, when none is missing
	Tail  int    `json:"tail,omitempty"` // values behind the last row

	Sp *sparseOpt `json:"sp,omitempty"` // form of the sparse matrix
}

func genRefuse(t *rapid.T) *RefuseCase {
	m := genModel(t, GenOpt{Fams: append([]string{XGL}, allFams...), BigPct: 3, Obj: pct(t, "trans", 60), MaxBig: 40})
	c := &RefuseCase{M: m, Thr: oneOf(t, "threads", threads)}
	c.X = genMat(t, m, pct(t, "batch", 40))
	c.X.Extra = 0
	c.Chain = genChain(t, m)
	if m.Fam == XGL && pct(t, "linleaf", 40) {
		c.Chain = oneOf(t, "linleafchain", []string{"l", "rl"})
		if m.canTransform() && pct(t, "tl", 50) {
			c.Chain = "tl"
		}
	}
	if pct(t, "wider", 15) {
		c.Wide = oneOf(t, "wide", []int{1, 2, 40, 300, 1100, 5000})
		if c.Wide*(len(c.X.Rows)+c.X.More) > 3000000 {
			c.Wide = 40
		}
	}
	if pct(t, "tail", 15) {
		c.Tail = oneOf(t, "taillen", []int{1, 2, 17, 5000})
	}
	why := uni(t, "why", 8) // bits: short, features, leaves
	if why&1 != 0 {
		c.Short = 1 + ir(t, "short", 0, 5)
	}
	if why&2 != 0 {
		c.Feat = 1 + ir(t, "fewer", 0, m.NF-1)
	}
	if why&4 != 0 && chainKind(c.Chain) == 'l' && m.nEst() > 1 {
		c.LeafN = ir(t, "leafn", 1, m.nEst()-1)
	}
	if pct(t, "sparse", 50) {
		sp := genSparse(t)
		c.Sp = &sp
	}
	return c
}

func refuseCheck(c *RefuseCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.chain(c.Chain)
	if err != nil {
		return err
	}
	x.label("fam=%s", m.Fam)
	rows := m.matrix(&c.X)
	k := e.NOutputGroups()
	if k != m.chainOutputs(c.Chain) {
		return verr("%d outputs, expected %d", k, m.chainOutputs(c.Chain))
	}
	lin := m.Fam == XGL && chainKind(c.Chain) == 'l'
	cols := m.NF - c.Feat
	if cols < 0 {
		cols = 0
	}
	cut := make([][]float64, len(rows))
	for i := range rows {
		cut[i] = rows[i][:cols:cols]
	}
	wide := cut
	if c.Wide > 0 && c.Feat == 0 {
		x.label("columns that the model does not have")
		cols += c.Wide
		wide = make([][]float64, len(rows))
		for i := range rows {
			wide[i] = append(append(make([]float64, 0, cols), cut[i]...), make([]float64, c.Wide)...)
			wide[i][cols-1] = math.NaN()
		}
	}
	always := lin || c.LeafN > 0
	if lin {
		x.label("leaf indices of a linear model")
	}
	if c.LeafN > 0 {
		x.label("leaf indices of some estimators")
	}
	if c.Short > 0 {
		x.label("short output")
	}
	if c.Feat > 0 {
		x.label("missing features")
	}
	x.nontrivialIf(always || c.Short > 0 || c.Feat > 0)
	call := func(name string, n int, refuse bool, f func(o []float64) error) error {
		size := n - c.Short
		if size < 0 {
			size = 0
		}
		if n == 0 && c.Short > 0 {
			return nil
		}
		gd := guard(size, 0, fillA)
		if !refuse {
			if err := f(gd.out(0)); err != nil {
				return verr("%s is refused although nothing is missing: %v", name, err)
			}
			return gd.checkOutside()
		}
		gd.n = 0 // nothing may change
		o := gd.all[gd.off : gd.off+size : gd.off+size]
		if err := f(o); err == nil {
			return verr("%s is served with output %d of %d, %d of %d features, %d of %d estimators (leaf view: %v)", name, size, n, cols, m.NF, c.LeafN, m.nEst(), chainKind(c.Chain) == 'l')
		}
		if err := gd.checkOutside(); err != nil {
			return verr("refused %s: %v", name, err)
		}
		return nil
	}
	short := c.Short > 0
	few := c.Feat > 0
	if err := call("Predict", k, always || short || few, func(o []float64) error { return e.Predict(wide[0], c.LeafN, o) }); err != nil {
		return err
	}
	vals := append(flat(wide), make([]float64, c.Tail)...)
	if err := call("PredictDense", k*len(rows), always || short || few, func(o []float64) error {
		return e.PredictDense(vals, len(rows), cols, o, c.LeafN, c.Thr)
	}); err != nil {
		return err
	}
	csr := explicitCSR(cut)
	if c.Sp != nil {
		csr = m.sparseCSR(cut, *c.Sp)
	}
	if err := call("PredictCSR", k*len(rows), always || short, func(o []float64) error {
		return e.PredictCSR(csr.ptr, csr.col, csr.val, o, c.LeafN, c.Thr)
	}); err != nil {
		return err
	}
	s := e.PredictSingle(wide[0], c.LeafN)
	if always || few || k != 1 {
		x.label("scalar refused")
		if s != 0 {
			return verr("PredictSingle returns %v instead of 0 (%d outputs, %d of %d features)", s, k, cols, m.NF)
		}
	} else {
		o := make([]float64, 1)
		if err := e.Predict(cut[0], 0, o); err != nil {
			return err
		}
		if !same(s, o[0]) {
			return verr("PredictSingle returns %v, Predict %v", s, o[0])
		}
	}
	return nil
}

// ---------- C18: leaf indices ----------

func genLeafCase(t *rapid.T) *SemCase {
	m := genModel(t, GenOpt{Fams: append([]string{LGT}, treeFams...), BigPct: 8, NoWild: true, MaxBig: 300, Huge: 15})
	x := Mat{Rows: genRows(t, m, 1, 4), More: 40, Seed: rapid.Uint64().Draw(t, "seed")}
	if pct(t, "extracols", 15) {
		x.Extra = ir(t, "extra", 1, 3)
	}
	return &SemCase{m, x}
}

func leafCheck(c *SemCase, x *Ctx) error {
	m := c.M.prepare()
	classify(x, m)
	e, err := m.chain("l")
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	nEst := m.nEst()
	k := m.K * nEst
	if e.NOutputGroups() != k {
		return verr("leaf view has %d outputs, expected %d", e.NOutputGroups(), k)
	}
	nl := e.NLeaves()
	if len(nl) != k {
		return verr("%d leaf counts, expected %d", len(nl), k)
	}
	results := map[string][]float64{}
	if results["Predict"], err = single(e, rows, 0); err != nil {
		return err
	}
	if results["PredictDense"], err = dense(e, rows, nEst, 4); err != nil {
		return err
	}
	if results["PredictCSR"], err = sparse(e, explicitCSR(rows), nEst+3, 3); err != nil {
		return err
	}
	leafs := 0
	for _, name := range []string{"Predict", "PredictDense", "PredictCSR"} {
		got := results[name]
		for g := 0; g < m.K; g++ {
			for i := 0; i < nEst; i++ {
				t := &m.trees[i*m.K+g]
				pos := g*nEst + i
				to := map[int]float64{}
				from := map[float64]int{}
				for r, row := range rows {
					v := got[r*k+pos]
					ref := t.leaf(m.Fam, row)
					if v != math.Trunc(v) || !(v >= 0 && v < float64(nl[pos])) {
						return verr("%s: row %d, class %d, estimator %d: leaf index %v of %d leaves", name, r, g, i, v, nl[pos])
					}
					if m.Fam == LGT && v != float64(ref) {
						return verr("%s: row %d, class %d, estimator %d: leaf index %v, the model file's number is %d; row %s", name, r, g, i, v, ref, rowString(row))
					}
					if old, ok := to[ref]; ok && old != v {
						return verr("%s: class %d, estimator %d: leaf indices %v and %v for the same leaf", name, g, i, old, v)
					}
					if old, ok := from[v]; ok && old != ref {
						return verr("%s: class %d, estimator %d: leaf index %v for two different leaves", name, g, i, v)
					}
					to[ref], from[v] = v, ref
				}
				if len(to) > 1 {
					x.nontrivial()
				}
				leafs += len(to)
			}
		}
	}
	x.count("leaves reached", leafs/3)
	return nil
}

// ---------- C19: metadata ----------

// MetaCase is a model and the way it is loaded.
type MetaCase struct {
	M *Model `json:"m"`
	T bool   `json:"t"`
	L Layout `json:"l"`
}

func genMeta(t *rapid.T) *MetaCase {
	m := genModel(t, GenOpt{NoLay: true, Huge: 15, Fams: allFams, BigPct: 6, Obj: pct(t, "trans", 70), MaxBig: 100})
	return &MetaCase{m, m.canTransform() && pct(t, "t", 60), genLayout(t)}
}

func eqInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var typeNames = map[string]transformation.TransformType{"raw": transformation.Raw, "logistic": transformation.Logistic,
	"softmax": transformation.Softmax, "leaf_index": transformation.LeafIndex, "exponential": transformation.Exponential}

// checkMeta compares everything a model reports.
func checkMeta(m *Model, e *leaves.Ensemble, transform string, outputs int) error {
	m.prepare()
	switch {
	case e.NEstimators() != m.nEst():
		return verr("NEstimators %d, expected %d", e.NEstimators(), m.nEst())
	case e.NFeatures() != m.NF:
		return verr("NFeatures %d, expected %d", e.NFeatures(), m.NF)
	case e.NRawOutputGroups() != m.K:
		return verr("NRawOutputGroups %d, expected %d", e.NRawOutputGroups(), m.K)
	case e.NOutputGroups() != outputs:
		return verr("NOutputGroups %d, expected %d", e.NOutputGroups(), outputs)
	case e.Name() != m.name():
		return verr("Name %q, expected %q", e.Name(), m.name())
	case !eqInts(e.NLeaves(), m.nLeaves()):
		return verr("NLeaves %v, expected %v", e.NLeaves(), m.nLeaves())
	}
	tr := e.Transformation()
	switch {
	case tr.Type() != typeNames[transform]:
		return verr("transformation type %v, expected %v (%s)", tr.Type(), typeNames[transform], transform)
	case tr.Name() != transform || tr.Type().Name() != transform:
		return verr("transformation name %q, %q, expected %q", tr.Name(), tr.Type().Name(), transform)
	case tr.NOutputGroups() != outputs:
		return verr("outputs of the transformation %d, expected %d", tr.NOutputGroups(), outputs)
	}
	return nil
}

func metaCheck(c *MetaCase, x *Ctx) error {
	m := c.M.prepare()
	classify(x, m)
	e, err := loadBytes(m.Fam, m.bytesLay(&c.L), c.T)
	if err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	tr := "raw"
	if c.T {
		tr = m.wantTransform()
	}
	x.label("transformation=%s", tr)
	l := m.nLeaves()
	for i := range l {
		if l[i] != l[0] {
			x.nontrivial()
		}
	}
	x.nontrivialIf(m.Fam == XGL && m.K > 1)
	return checkMeta(m, e, tr, m.K)
}

// ---------- C20: views ----------

// ViewCase is a model, chains of views, and the order of their use.
type ViewCase struct {
	M      *Model   `json:"m"`
	X      Mat      `json:"x"`
	T      bool     `json:"t"`
	Chains []string `json:"chains"`
	Use    []int    `json:"use"`
	N      int      `json:"n"`
}

func genViews(t *rapid.T) *ViewCase {
	m := genModel(t, GenOpt{Fams: allFams, BigPct: 3, Obj: pct(t, "trans", 70), MaxBig: 60, NoHugeNF: true})
	c := &ViewCase{M: m, X: genMat(t, m, pct(t, "batch", 15)), T: m.canTransform() && pct(t, "t", 70)}
	c.N = ir(t, "n", 0, m.nEst())
	for i, n := 0, ir(t, "chains", 1, 4); i < n; i++ {
		s := ""
		depth := ir(t, "depth", 0, 5)
		if uni(t, "deepview", 64) == 33 {
			depth = oneOf(t, "depthdeep", []int{7, 9, 12, 18, 40, 300})
		}
		for j := 0; j < depth; j++ {
			s += oneOf(t, "view", []string{"r", "l"})
		}
		c.Chains = append(c.Chains, s)
	}
	for i, n := 0, ir(t, "uses", 1, 8); i < n; i++ {
		c.Use = append(c.Use, ir(t, "use", 0, len(c.Chains)))
	}
	return c
}

func applyChain(e *leaves.Ensemble, s string) *leaves.Ensemble {
	for _, v := range s {
		if v == 'r' {
			e = e.EnsembleWithRawPredictions()
		} else {
			e = e.EnsembleWithLeafPredictions()
		}
	}
	return e
}

func viewCheck(c *ViewCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("fam=%s", m.Fam)
	rows := m.matrix(&c.X)
	// expectations from separately loaded models
	type expect struct {
		tr   string
		outs int
		vals []float64
		n    int
	}
	exp := map[byte]expect{}
	raw, err := m.load(false)
	if err != nil {
		return err
	}
	v, err := single(raw, rows, c.N)
	if err != nil {
		return err
	}
	exp['r'] = expect{"raw", m.K, v, c.N}
	for i, r := range rows {
		w, mag := m.raw(r, c.N)
		for k := range w {
			if !closeTo(v[i*m.K+k], w[k], mag[k]) {
				return verr("raw prediction %v, reference %v", v[i*m.K+k], w[k])
			}
		}
	}
	if c.T {
		e, err := m.load(true)
		if err != nil {
			return err
		}
		v, err := single(e, rows, c.N)
		if err != nil {
			return err
		}
		exp['t'] = expect{m.wantTransform(), m.K, v, c.N}
	}
	if m.Fam != XGL {
		e := expect{"leaf_index", m.K * m.nEst(), nil, 0}
		lv, err := m.load(false)
		if err != nil {
			return err
		}
		if e.vals, err = single(lv.EnsembleWithLeafPredictions(), rows, 0); err != nil {
			return err
		}
		exp['l'] = e
	}
	orig, err := m.load(c.T)
	if err != nil {
		return err
	}
	kindOf := func(s string) byte {
		if s == "" {
			if c.T {
				return 't'
			}
			return 'r'
		}
		return s[len(s)-1]
	}
	views := []*leaves.Ensemble{orig}
	chains := append([]string{""}, c.Chains...)
	for _, s := range c.Chains {
		views = append(views, applyChain(orig, s))
		if len(s) > 1 {
			x.label("nested view")
		}
	}
	x.nontrivialIf(len(c.Use) > 1 && len(chains) > 1)
	uses := append(append([]int{}, c.Use...), 0)
	for u, i := range uses {
		kind := kindOf(chains[i])
		e := views[i]
		what := fmt.Sprintf("use %d: view %q of the %s model", u, chains[i], m.Fam)
		if m.Fam == XGL && kind == 'l' {
			out := []float64{1e99, 1e99, 1e99, 1e99}
			for len(out) < m.K {
				out = append(out, 1e99)
			}
			if err := e.Predict(rows[0], 0, out); err == nil {
				return verr("%s: leaf indices of a linear model are served", what)
			}
			continue
		}
		w := exp[kind]
		if err := checkMeta(m, e, w.tr, w.outs); err != nil {
			return verr("%s: %v", what, err)
		}
		var got []float64
		var err error
		switch (u + i) % 3 {
		case 0:
			got, err = single(e, rows, w.n)
		case 1:
			got, err = dense(e, rows, w.n, 3)
		default:
			got, err = sparse(e, explicitCSR(rows), w.n, 2)
		}
		if err != nil {
			return verr("%s: %v", what, err)
		}
		if err := differ(what, w.outs, got, w.vals); err != nil {
			return err
		}
		if w.outs == 1 {
			if s := e.PredictSingle(rows[0], w.n); !same(s, w.vals[0]) {
				return verr("%s: PredictSingle gives %v, expected %v", what, s, w.vals[0])
			}
		}
	}
	return nil
}

// ---------- C14: history ----------

// Op is a step of a history.
type Op struct {
	K string `json:"k"`
	A int    `json:"a"` // handle
	B int    `json:"b"`
	C int    `json:"c"`
	R int    `json:"r,omitempty"` // further times, with changing B and C
}

// HistCase is a history over several models.
type HistCase struct {
	Ms  []*Model `json:"ms"`
	X   []Mat    `json:"x"`
	T   []bool   `json:"t"`
	Ops []Op     `json:"ops"`
}

var opKinds = []string{"predict", "dense", "csr", "single", "short", "few", "leafsome", "raw", "leaf", "leaves", "load", "badload", "meta", "transform", "load2", "file", "file"}

func genHist(t *rapid.T) *HistCase {
	c := &HistCase{}
	for i, n := 0, ir(t, "models", 1, 3); i < n; i++ {
		var m *Model
		if i > 0 && pct(t, "sibling", 35) {
			m = c.Ms[0].sibling()
		} else {
			m = genModel(t, GenOpt{Fams: allFams, BigPct: 2, Obj: pct(t, "trans", 60), MaxBig: 40, NoHugeNF: true})
		}
		c.Ms = append(c.Ms, m)
		c.X = append(c.X, genMat(t, m, pct(t, "batch", 20)))
		c.T = append(c.T, m.canTransform() && pct(t, "t", 60))
	}
	for i, n := 0, ir(t, "ops", 1, 25); i < n; i++ {
		c.Ops = append(c.Ops, Op{oneOf(t, "op", opKinds), ir(t, "a", 0, 7), ir(t, "b", 0, 7), ir(t, "c", 0, 7), 0})
	}
	// many steps of one kind
	short := true
	for i := range c.X {
		short = short && c.X[i].More < 60
	}
	if short && uni(t, "long", 100) >= 97 {
		i := uni(t, "longop", len(c.Ops))
		c.Ops[i].R = oneOf(t, "more", []int{40, 140, 300, 1100})
		if uni(t, "verylong", 100) >= 97 {
			c.Ops[i].R = 70000
		}
	}
	return c
}

// handle is a loaded model or view and what it has to be.
type handle struct {
	m    *Model
	mi   int
	kind byte // r, t or l
	e    *leaves.Ensemble
	tr   string
	k    int
}

func histCheck(c *HistCase, x *Ctx) error {
	rows := make([][][]float64, len(c.Ms))
	data := make([][]byte, len(c.Ms))
	for i, m := range c.Ms {
		m.prepare()
		rows[i] = m.matrix(&c.X[i])
		data[i] = m.bytes()
	}
	// expectations of a fresh load, computed when first needed
	base := map[string][]float64{}
	want := func(h *handle, n int) ([]float64, error) {
		key := fmt.Sprint(h.mi, string(h.kind), n)
		if v, ok := base[key]; ok {
			return v, nil
		}
		e, err := loadBytes(h.m.Fam, append([]byte{}, data[h.mi]...), h.kind == 't')
		if err != nil {
			return nil, verr("well-formed model is refused: %v", err)
		}
		if h.kind == 'l' {
			e = e.EnsembleWithLeafPredictions()
		}
		v, err := single(e, rows[h.mi], n)
		if err != nil {
			return nil, err
		}
		if h.kind == 'r' {
			for i, r := range rows[h.mi] {
				w, mag := h.m.raw(r, n)
				for k := range w {
					if !closeTo(v[i*h.k+k], w[k], mag[k]) {
						return nil, verr("fresh model of family %s predicts %v, reference %v", h.m.Fam, v[i*h.k+k], w[k])
					}
				}
			}
		}
		base[key] = v
		return v, nil
	}
	var hs []*handle
	load := func(mi int, tr bool) error {
		m := c.Ms[mi]
		buf := append([]byte{}, data[mi]...)
		e, err := loadBytes(m.Fam, buf, tr)
		if err != nil {
			return verr("well-formed model is refused: %v", err)
		}
		for i := range buf {
			buf[i] = 'x' // the caller's buffer is free again
		}
		h := &handle{m, mi, 'r', e, "raw", m.K}
		if tr {
			h.kind, h.tr = 't', m.wantTransform()
		}
		hs = append(hs, h)
		return nil
	}
	// all files are written to one path
	var dir string
	loadPath := func(mi, cut int, tr bool) (*leaves.Ensemble, error) {
		if dir == "" {
			d, err := os.MkdirTemp(x.dir, "c14")
			if err != nil {
				harnessFail("no scratch folder: %v", err)
			}
			dir = d
		}
		p := dir + "/model"
		b := data[mi]
		if cut > 0 {
			b = b[:len(b)*cut/10]
		}
		if err := os.WriteFile(p, b, 0600); err != nil {
			harnessFail("no scratch file: %v", err)
		}
		return loadFile(c.Ms[mi].Fam, p, tr)
	}
	defer func() {
		if dir != "" {
			os.RemoveAll(dir)
		}
	}()
	for i := range c.Ms {
		if err := load(i, c.T[i]); err != nil {
			return err
		}
	}
	kinds := map[string]bool{}
	pickN := func(h *handle, b int) int {
		if h.kind == 'l' {
			return 0
		}
		return b % (h.m.nEst() + 1)
	}
	do := func(step int, op Op) error {
		h := hs[op.A%len(hs)]
		rs := rows[h.mi]
		n := pickN(h, op.B)
		lin := h.kind == 'l' && h.m.Fam == XGL
		kinds[op.K] = true
		cmp := func(got, w []float64, err error) error {
			if err != nil {
				return err
			}
			return differ(op.K, h.k, got, w)
		}
		switch op.K {
		case "predict", "dense", "csr", "single":
			if lin {
				return nil
			}
			w, err := want(h, n)
			if err != nil {
				return err
			}
			in := make([][]float64, len(rs))
			for i := range rs {
				in[i] = append([]float64{}, rs[i]...)
			}
			var got []float64
			switch op.K {
			case "predict":
				got, err = single(h.e, in, n)
			case "dense":
				got, err = dense(h.e, in, n, op.C)
			case "csr":
				got, err = sparse(h.e, h.m.sparseCSR(in, sparseOpt{Seed: uint64(step), Drop: 50, Shuffle: true, Alien: op.C&1 != 0}), n, op.C)
			case "single":
				s := h.e.PredictSingle(in[0], n)
				if h.k != 1 {
					if s != 0 {
						return verr("PredictSingle of a multi-output model gives %v", s)
					}
					return nil
				}
				if !same(s, w[0]) {
					return verr("PredictSingle gives %v, expected %v", s, w[0])
				}
				return nil
			}
			if err := cmp(got, w, err); err != nil {
				return err
			}
			// the buffers belong to the caller again
			for i := range got {
				got[i] = math.NaN()
			}
			for i := range in {
				for j := range in[i] {
					in[i][j] = 1e200
				}
			}
		case "short":
			out := make([]float64, h.k-1)
			if err := h.e.Predict(rs[0], n, out); err == nil {
				return verr("short output is accepted")
			}
			if len(rs) > 1 {
				out = make([]float64, h.k*len(rs)-1)
				if err := h.e.PredictDense(flat(rs), len(rs), len(rs[0]), out, n, op.C); err == nil {
					return verr("short output is accepted")
				}
				cs := explicitCSR(rs)
				if err := h.e.PredictCSR(cs.ptr, cs.col, cs.val, out, n, op.C); err == nil {
					return verr("short output is accepted")
				}
			}
		case "few":
			out := make([]float64, h.k)
			if err := h.e.Predict(rs[0][:h.m.NF-1], n, out); err == nil {
				return verr("too few features are accepted")
			}
		case "leafsome":
			if h.kind == 'l' && h.m.nEst() > 1 && !lin {
				out := make([]float64, h.k)
				if err := h.e.Predict(rs[0], 1+op.B%(h.m.nEst()-1), out); err == nil {
					return verr("leaf indices of some estimators are served")
				}
			}
		case "raw":
			if len(hs) < 12 {
				hs = append(hs, &handle{h.m, h.mi, 'r', h.e.EnsembleWithRawPredictions(), "raw", h.m.K})
			}
		case "leaf":
			if len(hs) < 12 && h.m.Fam != XGL {
				hs = append(hs, &handle{h.m, h.mi, 'l', h.e.EnsembleWithLeafPredictions(), "leaf_index", h.m.K * h.m.nEst()})
			}
		case "leaves":
			l := h.e.NLeaves()
			for i := range l {
				l[i] = -7
			}
			_ = append(l, 5)
		case "load":
			if len(hs) < 12 {
				return load(op.B%len(c.Ms), c.T[op.B%len(c.Ms)])
			}
		case "load2":
			if len(hs) < 12 {
				return load(op.B%len(c.Ms), false)
			}
		case "file":
			mi := op.B % len(c.Ms)
			if op.C == 7 {
				loadPath(mi, 7, false)
				return nil
			}
			if len(hs) < 12 {
				m := c.Ms[mi]
				tr := c.T[mi] && op.C&1 == 0
				e, err := loadPath(mi, 0, tr)
				if err != nil {
					return verr("well-formed model is refused: %v", err)
				}
				h := &handle{m, mi, 'r', e, "raw", m.K}
				if tr {
					h.kind, h.tr = 't', m.wantTransform()
				}
				hs = append(hs, h)
				return nil
			}
		case "badload":
			mi := op.B % len(c.Ms)
			b := data[mi]
			loadBytes(c.Ms[mi].Fam, append([]byte{}, b[:len(b)*(op.C+1)/10]...), false)
		case "meta":
			return checkMeta(h.m, h.e, h.tr, h.k)
		case "transform":
			// the transformation object called with the caller's own slices
			in, out := make([]float64, h.m.K), make([]float64, h.k+3)
			for i := range in {
				in[i] = float64(op.B) - float64(i)
			}
			if h.kind != 'l' {
				h.e.Transformation().Transform(in, out, op.C%4)
				h.e.Transformation().Transform(in[:len(in)-1], out, 0)
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		if op.R > 0 {
			x.label("a step repeated 40-70000 times")
		}
		for r := 0; r <= op.R; r++ {
			if r == 1101 && op.K != "single" && op.K != "few" && op.K != "leaves" {
				break
			}
			if err := do(i, Op{op.K, op.A, op.B + r, (op.C + r/3) % 8, 0}); err != nil {
				return verr("step %d (%s, time %d): %v", i, op.K, r+1, err)
			}
		}
	}
	for i := range hs {
		for _, op := range []Op{{"meta", i, 0, 0, 0}, {"predict", i, 0, 0, 0}, {"predict", i, 1, 0, 0}, {"csr", i, 0, 3, 0}, {"dense", i, 0, 2, 0}} {
			if err := do(1000+i, op); err != nil {
				return verr("after the history, model or view %d (%s, %c): %v", i, hs[i].m.Fam, hs[i].kind, err)
			}
		}
	}
	for k := range kinds {
		x.label("op=%s", k)
	}
	x.label("models=%d", len(c.Ms))
	x.count("steps", len(c.Ops))
	x.nontrivialIf(len(kinds) >= 3 && len(c.Ops) >= 5)
	return nil
}

// ---------- C15: concurrency ----------

// ConcCase is a shared model and the calls of concurrent goroutines.
type ConcCase struct {
	M   *Model `json:"m"`
	X   Mat    `json:"x"`
	T   bool   `json:"t"`
	Gos [][]Op `json:"gos"`
	M2  *Model `json:"m2,omitempty"` // loaded by some calls
	X2  Mat    `json:"x2"`
}

var concKinds = []string{"predict", "dense", "csr", "single", "rawview", "leafview", "meta", "leaves", "refused", "load", "other"}

func genConc(t *rapid.T) *ConcCase {
	m := genModel(t, GenOpt{Fams: allFams, BigPct: 3, Obj: true, MaxBig: 60, NoHugeNF: true})
	c := &ConcCase{M: m, X: genMat(t, m, true), T: m.canTransform() && pct(t, "t", 70)}
	c.M2 = genModel(t, GenOpt{Fams: allFams, MaxBig: 30, NoHugeNF: true, MaxEst: 3})
	c.X2 = genMat(t, c.M2, false)
	for i, n := 0, ir(t, "goroutines", 2, 8); i < n; i++ {
		var ops []Op
		for j, l := 0, ir(t, "calls", 1, 6); j < l; j++ {
			ops = append(ops, Op{oneOf(t, "op", concKinds), 0, ir(t, "b", 0, 7), ir(t, "c", 0, 7), 0})
		}
		c.Gos = append(c.Gos, ops)
	}
	return c
}

func concCheck(c *ConcCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("fam=%s", m.Fam)
	x.label("goroutines=%d", len(c.Gos))
	e, err := m.load(c.T)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	b := m.bytes()
	var rows2 [][]float64
	var want2 *facts
	var b2 []byte
	var m2 *Model
	if c.M2 != nil {
		m2 = c.M2.prepare()
		b2 = m2.bytes()
		rows2 = m2.matrix(&c.X2)
		e2, err := loadBytes(m2.Fam, b2, false)
		if err != nil {
			return err
		}
		if want2, err = observe(e2, rows2, m2.Fam == XGL); err != nil {
			return err
		}
	}
	// expectations from another instance of the model
	ref, err := m.load(c.T)
	if err != nil {
		return err
	}
	wants := map[string][]float64{}
	need := func(kind string, n int) error {
		key := fmt.Sprint(kind, n)
		if wants[key] != nil {
			return nil
		}
		v := ref
		switch kind {
		case "raw":
			v = v.EnsembleWithRawPredictions()
		case "leaf":
			v = v.EnsembleWithLeafPredictions()
		}
		w, err := single(v, rows, n)
		wants[key] = w
		return err
	}
	view := func(k string) string {
		switch k {
		case "rawview":
			return "raw"
		case "leafview":
			return "leaf"
		}
		return "own"
	}
	nOf := func(op Op) int {
		if op.K == "leafview" {
			return 0
		}
		return op.B % (m.nEst() + 1)
	}
	total := 0
	for _, ops := range c.Gos {
		total += len(ops)
		for _, op := range ops {
			if op.K == "leafview" && m.Fam == XGL {
				continue
			}
			if err := need(view(op.K), nOf(op)); err != nil {
				return err
			}
		}
	}
	x.count("calls", total)
	x.nontrivialIf(len(c.Gos) > 1 && total > 3)
	tr := "raw"
	if c.T {
		tr = m.wantTransform()
	}
	reps := 1
	if x.replay {
		reps = 10
	}
	for rep := 0; rep < reps; rep++ {
		errs := make([]error, len(c.Gos))
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := range c.Gos {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for i, op := range c.Gos[g] {
					e := e
					var err error
					if op.K == "other" && m2 != nil {
						var o *facts
						e2, err := loadBytes(m2.Fam, b2, false)
						if err == nil {
							o, err = observe(e2, rows2, m2.Fam == XGL)
						}
						if err == nil {
							err = want2.differs(o, true)
						}
						if err != nil {
							errs[g] = verr("goroutine %d, call %d, another model loaded and used meanwhile: %v", g, i, err)
							return
						}
						continue
					}
					if op.K == "load" {
						if e, err = loadBytes(m.Fam, b, c.T); err != nil {
							errs[g] = verr("goroutine %d, call %d, load: %v", g, i, err)
							return
						}
					}
					if err := concOp(m, e, op, rows, wants, view(op.K), nOf(op), tr); err != nil {
						errs[g] = verr("goroutine %d, call %d (%s): %v", g, i, op.K, err)
						return
					}
				}
			}(g)
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func concOp(m *Model, e *leaves.Ensemble, op Op, rows [][]float64, wants map[string][]float64, kind string, n int, tr string) error {
	w := wants[fmt.Sprint(kind, n)]
	switch op.K {
	case "rawview":
		e = e.EnsembleWithRawPredictions()
	case "leafview":
		if m.Fam == XGL {
			return nil
		}
		e = e.EnsembleWithLeafPredictions()
	case "meta":
		return checkMeta(m, e, tr, m.K)
	case "leaves":
		if l := e.NLeaves(); !eqInts(l, m.nLeaves()) {
			return verr("NLeaves %v", l)
		} else {
			for i := range l {
				l[i] = -1
			}
		}
		return nil
	case "refused":
		if e.Predict(rows[0], n, nil) == nil {
			return verr("missing output slice is accepted")
		}
		return nil
	case "single":
		s := e.PredictSingle(rows[0], n)
		if m.K == 1 && !same(s, w[0]) {
			return verr("PredictSingle gives %v, expected %v", s, w[0])
		}
		return nil
	}
	k := e.NOutputGroups()
	var got []float64
	var err error
	mode := op.K
	if kind != "own" {
		mode = []string{"predict", "dense", "csr"}[op.C%3]
	}
	switch mode {
	case "predict":
		got, err = single(e, rows, n)
	case "dense":
		got, err = dense(e, rows, n, op.C)
	default:
		got, err = sparse(e, explicitCSR(rows), n, op.C)
	}
	if err != nil {
		return err
	}
	return differ(mode, k, got, w)
}

func init() {
	const rule = "rapid draws a model of any family and a view, rows and estimator counts; "
	register(Prop{ID: "C16", Quick: 72000, Thorough: 400000, Procs: 4, Rule: rule + "every entry point predicts into a slice inside a larger array, three times with different previous contents; the first rows x outputs elements must be written and equal each time, all others, and all input slices, keep their bits; also with no rows. Non-trivial: the output slice is longer than needed."},
		genPred(GenOpt{Fams: allFams, BigPct: 3, MaxBig: 60, NoHugeNF: true}, true), writeCheck)
	register(Prop{ID: "C17", Quick: 120000, Thorough: 2000000, Procs: 4, Rule: rule + "and any combination of a short output slice, missing features and leaf indices of some estimators or of a linear model; the calls that lack something must return an error and leave the guarded output untouched, PredictSingle must return 0, the others must be served. Non-trivial: something is missing."},
		genRefuse, refuseCheck)
	register(Prop{ID: "C18", Quick: 48000, Thorough: 500000, Procs: 4, Rule: "rapid draws tree models of every family and 41-44 rows led to drawn leaves; leaf indices of all entry points are compared with the leaves reached in the reference: the file's number for LightGBM text, a one-to-one relation below the reported leaf count for the others. Non-trivial: some tree is left by more than one leaf."},
		genLeafCase, leafCheck)
	register(Prop{ID: "C19", Quick: 96000, Thorough: 2000000, Rule: "rapid draws models of every family (one feature, single-leaf trees, many classes, huge feature counts among them) with a drawn file layout, loaded raw or transformed; all reported metadata are compared with the model. Non-trivial: the trees have different leaf counts, or a linear model has several classes."},
		genMeta, metaCheck)
	register(Prop{ID: "C20", Quick: 80000, Thorough: 600000, Rule: "rapid draws a model, up to four nested chains of raw and leaf views of it and an order of use; predictions (all entry points) and metadata of every view and of the original are compared with separately loaded models. Non-trivial: several uses of several views."},
		genViews, viewCheck)
	register(Prop{ID: "C14", Quick: 40000, Thorough: 400000, Procs: 4, Rule: "rapid draws one to three models and a history of up to 25 steps (predictions by every entry point, refused calls, views, loads of the same and other models, failing loads, caller changes of returned and passed slices, direct transformation calls); after each prediction and at the end all results and metadata are compared with those of a freshly loaded model and the reference. Non-trivial: at least five steps of three kinds."},
		genHist, histCheck)
	register(Prop{ID: "C15", Quick: 5000, Thorough: 60000, Procs: 8, Race: true, Rule: "built with the race detector: rapid draws a shared model and the calls (predictions of every kind, views, metadata, refused calls, batch sizes and thread counts) of 2-8 concurrent goroutines; every result is compared with that of another instance used alone. Non-trivial: more than three calls by at least two goroutines. The schedules are those of the Go runtime, not enumerated."},
		genConc, concCheck)
}
