package main

import (
	"math"
	"runtime"

	"github.com/dmitryikh/leaves"
	"pgregory.net/rapid"
)

// Properties of prediction calls.

// chain applies a chain of views to a freshly loaded model: 't' first loads
// the transformation, 'r' takes the raw view, 'l' the leaf view.
func (m *Model) chain(c string) (*leaves.Ensemble, error) {
	tr := len(c) > 0 && c[0] == 't'
	e, err := m.load(tr)
	if err != nil {
		return nil, err
	}
	for i := 0; i < len(c); i++ {
		switch c[i] {
		case 'r':
			e = e.EnsembleWithRawPredictions()
		case 'l':
			e = e.EnsembleWithLeafPredictions()
		}
	}
	return e, nil
}

// kind of the chain's outputs: 't', 'r' or 'l'.
func chainKind(c string) byte {
	if c == "" {
		return 'r'
	}
	return c[len(c)-1]
}

func (m *Model) chainOutputs(c string) int {
	if chainKind(c) == 'l' {
		return m.K * m.nEst()
	}
	return m.K
}

// genChain draws a chain that fits the model.
func genChain(t *rapid.T, m *Model) string {
	opts := []string{""}
	if m.canTransform() {
		opts = append(opts, "t", "t", "tr")
	}
	if m.Fam != XGL {
		opts = append(opts, "l")
		if m.canTransform() {
			opts = append(opts, "tl")
		}
	}
	return oneOf(t, "chain", opts)
}

func genN(t *rapid.T, m *Model, chain string) int {
	n := m.nEst()
	if chainKind(chain) == 'l' {
		return oneOf(t, "nest", []int{0, -1, n, n + 1, math.MaxInt32, 1<<32 + 1, math.MaxInt, math.MinInt + 1})
	}
	if pct(t, "fulln", 50) {
		return oneOf(t, "nfull", []int{0, n, n + 5, -3, 0, n, 1<<32 + 1, math.MinInt + 1})
	}
	return ir(t, "n", 1, n)
}

// PredCase is a model, a chain of views, and an input matrix.
type PredCase struct {
	M     *Model    `json:"m"`
	Chain string    `json:"chain"`
	N     int       `json:"n"`
	X     Mat       `json:"x"`
	Thr   []int     `json:"thr,omitempty"`
	Procs int       `json:"procs,omitempty"`
	Sp    sparseOpt `json:"sp"`
	Seed  uint64    `json:"seed"`
	Huge  int       `json:"huge,omitempty"` // rows of a matrix which repeats X
}

var threads = []int{0, 1, 2, 3, 4, 7, 8, 16, 1000, -1, -5, 100, 1 << 40}

func genPred(o GenOpt, batch bool) func(t *rapid.T) *PredCase {
	return func(t *rapid.T) *PredCase {
		o := o
		o.Obj = pct(t, "trans", 60)
		m := genModel(t, o)
		c := &PredCase{M: m, Chain: genChain(t, m)}
		c.N = genN(t, m, c.Chain)
		c.X = genMat(t, m, batch)
		for i := 0; i < 2; i++ {
			c.Thr = append(c.Thr, oneOf(t, "threads", threads))
		}
		c.Procs = oneOf(t, "procs", []int{4, 4, 1, 2, 3, 8, 16, 130})
		c.Sp = genSparse(t)
		c.Seed = rapid.Uint64().Draw(t, "seed")
		return c
	}
}

// genThreads sometimes adds a matrix of very many rows.
func genThreads(o GenOpt) func(t *rapid.T) *PredCase {
	f := genPred(o, true)
	return func(t *rapid.T) *PredCase {
		c := f(t)
		if c.M.NF <= 4 && len(c.M.trees) <= 4 && c.X.Extra <= 2 && uni(t, "huge", 1<<11) >= 1<<11-3 {
			c.Huge = oneOf(t, "hugerows", []int{140000, 560000, 1100000, 1200007})
			if c.M.NF+c.X.Extra <= 2 && c.M.K == 1 && c.Chain != "l" && pct(t, "huger", 4) {
				c.Huge = 1<<24 + 33
			}
		}
		return c
	}
}

// hugeCheck compares a batch of c.Huge rows, which repeats `rows`, with `want`.
func hugeCheck(c *PredCase, x *Ctx, e *leaves.Ensemble, rows [][]float64, want []float64) error {
	k, p := e.NOutputGroups(), len(rows)
	if p > 251 {
		p = 251
	}
	nc := len(rows[0])
	thr := c.Thr[0]
	x.label("rows>130000")
	out := make([]float64, c.Huge*k)
	check := func(what string) error {
		for i := 0; i < c.Huge; i++ {
			j := i % p
			for l := 0; l < k; l++ {
				if !same(out[i*k+l], want[j*k+l]) {
					return verr("%s batch of %d rows: row %d output %d is %v, expected %v (%d threads)", what, c.Huge, i, l, out[i*k+l], want[j*k+l], thr)
				}
				out[i*k+l] = -1e77
			}
		}
		return nil
	}
	vals := make([]float64, 0, c.Huge*nc)
	for i := 0; i < c.Huge; i++ {
		vals = append(vals, rows[i%p]...)
	}
	if err := e.PredictDense(vals, c.Huge, nc, out, c.N, thr); err != nil {
		return verr("dense batch of %d rows is refused: %v", c.Huge, err)
	}
	if err := check("dense"); err != nil {
		return err
	}
	ptr, col := make([]int, c.Huge+1), make([]int, len(vals))
	for i := range ptr {
		ptr[i] = i * nc
	}
	for i := range col {
		col[i] = i % nc
	}
	if err := e.PredictCSR(ptr, col, vals, out, c.N, thr); err != nil {
		return verr("sparse batch of %d rows is refused: %v", c.Huge, err)
	}
	return check("sparse")
}

// single predicts every row on its own.
func single(e *leaves.Ensemble, rows [][]float64, n int) ([]float64, error) {
	k := e.NOutputGroups()
	out := make([]float64, len(rows)*k)
	for i, r := range rows {
		o := make([]float64, k)
		if err := e.Predict(r, n, o); err != nil {
			return nil, verr("Predict of row %d is refused: %v", i, err)
		}
		copy(out[i*k:], o)
	}
	return out, nil
}

func dense(e *leaves.Ensemble, rows [][]float64, n, thr int) ([]float64, error) {
	out := make([]float64, len(rows)*e.NOutputGroups())
	for i := range out {
		out[i] = 4.25e77
	}
	cols := 0
	if len(rows) > 0 {
		cols = len(rows[0])
	}
	if err := e.PredictDense(flat(rows), len(rows), cols, out, n, thr); err != nil {
		return nil, verr("PredictDense is refused: %v", err)
	}
	return out, nil
}

func sparse(e *leaves.Ensemble, c CSR, n, thr int) ([]float64, error) {
	out := make([]float64, (len(c.ptr)-1)*e.NOutputGroups())
	for i := range out {
		out[i] = 4.25e77
	}
	if err := e.PredictCSR(c.ptr, c.col, c.val, out, n, thr); err != nil {
		return nil, verr("PredictCSR is refused: %v", err)
	}
	return out, nil
}

func differ(what string, k int, got, want []float64) error {
	if i := sameSlice(got, want); i >= 0 {
		if len(got) != len(want) {
			return verr("%s: %d results, expected %d", what, len(got), len(want))
		}
		return verr("%s: row %d, output %d: %v, expected %v", what, i/k, i%k, got[i], want[i])
	}
	return nil
}

func distinctRows(v []float64, k int) int {
	seen := map[string]bool{}
	for i := 0; i+k <= len(v); i += k {
		b := make([]byte, 0, 8*k)
		for _, x := range v[i : i+k] {
			u := math.Float64bits(x)
			for s := 0; s < 64; s += 8 {
				b = append(b, byte(u>>s))
			}
		}
		seen[string(b)] = true
	}
	return len(seen)
}

func (c *PredCase) labels(x *Ctx, nrows int) {
	if c.Procs > 0 {
		runtime.GOMAXPROCS(c.Procs) // limits the number of threads
	}
	classify(x, c.M)
	x.label("view=%s", map[string]string{"": "raw", "t": "transformed", "tr": "raw of transformed", "l": "leaf", "tl": "leaf of transformed"}[c.Chain])
	switch {
	case nrows <= 16:
		x.label("rows<=16")
	case nrows <= 32:
		x.label("rows 17-32")
	default:
		x.label("rows>32")
	}
	x.count("rows", nrows)
}

// ---------- C11 ----------

func entryCheck(c *PredCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.chain(c.Chain)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	c.labels(x, len(rows))
	if c.X.Extra > 0 {
		x.label("extra columns")
	}
	k := e.NOutputGroups()
	want, err := single(e, rows, c.N)
	if err != nil {
		return err
	}
	x.nontrivialIf(distinctRows(want, k) > 1)
	for _, thr := range c.Thr {
		got, err := dense(e, rows, c.N, thr)
		if err != nil {
			return err
		}
		if err := differ("dense batch against row by row", k, got, want); err != nil {
			return err
		}
		got, err = sparse(e, explicitCSR(rows), c.N, thr)
		if err != nil {
			return err
		}
		if err := differ("sparse batch against row by row", k, got, want); err != nil {
			return err
		}
	}
	cut := make([][]float64, len(rows))
	for i, r := range rows {
		cut[i] = r[:m.NF:m.NF]
	}
	got, err := single(e, cut, c.N)
	if err != nil {
		return err
	}
	if err := differ("without extra columns", k, got, want); err != nil {
		return err
	}
	if k == 1 {
		x.label("scalar entry point")
		for i, r := range rows {
			if s := e.PredictSingle(r, c.N); !same(s, want[i]) {
				return verr("PredictSingle: row %d: %v, Predict gives %v; row %s", i, s, want[i], rowString(r))
			}
		}
	}
	return nil
}

// ---------- C12 ----------

func threadCheck(c *PredCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.chain(c.Chain)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	c.labels(x, len(rows))
	k := e.NOutputGroups()
	want, err := single(e, rows, c.N)
	if err != nil {
		return err
	}
	x.nontrivialIf(len(rows) > 16 && distinctRows(want, k) > 2)
	g := newRng(c.Seed)
	// a permutation with repetitions, a split and an appended part
	idx := g.Perm(len(rows))
	for i := 0; i < len(rows)/3; i++ {
		idx = append(idx, g.Intn(len(rows)))
	}
	cutAt := g.Intn(len(idx) + 1)
	pick := func(idx []int) (r [][]float64, w []float64) {
		for _, i := range idx {
			r = append(r, rows[i])
			w = append(w, want[i*k:(i+1)*k]...)
		}
		return
	}
	all := make([]int, len(rows))
	for i := range all {
		all[i] = i
	}
	parts := []struct {
		name string
		idx  []int
	}{{"the matrix", all}, {"the permuted and extended matrix", idx}, {"the first part", idx[:cutAt]}, {"the last part", idx[cutAt:]}}
	for _, thr := range c.Thr {
		x.label("threads=%d", thr)
		for _, p := range parts {
			r, w := pick(p.idx)
			if len(r) > 0 {
				got, err := dense(e, r, c.N, thr)
				if err != nil {
					return err
				}
				if err := differ("dense batch of "+p.name, k, got, w); err != nil {
					return verr("%v (%d threads, %d rows)", err, thr, len(r))
				}
			}
			got, err := sparse(e, m.sparseCSR(r, c.Sp), c.N, thr)
			if err != nil {
				return err
			}
			if err := differ("sparse batch of "+p.name, k, got, w); err != nil {
				return verr("%v (%d threads, %d rows)", err, thr, len(r))
			}
		}
	}
	if c.Huge > 0 {
		return hugeCheck(c, x, e, rows, want)
	}
	return nil
}

// ---------- C13 ----------

// sparseCheck compares sparse prediction with the meaning of the rows.
func sparseCheck(c *PredCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.chain(c.Chain)
	if err != nil {
		return err
	}
	rows := m.matrix(&c.X)
	c.labels(x, len(rows))
	k := e.NOutputGroups()
	want, err := single(e, rows, c.N)
	if err != nil {
		return err
	}
	csr := m.sparseCSR(rows, c.Sp)
	stored, absent := len(csr.val), 0
	for _, r := range rows {
		for _, v := range r[:m.NF] {
			if v == 0 && !m.sparseNaN() || math.IsNaN(v) && m.sparseNaN() {
				absent++
			}
		}
	}
	if c.Sp.Alien {
		x.label("alien columns")
	}
	if c.Sp.Middle {
		x.label("row pointers into the middle")
	}
	if c.Sp.Shuffle {
		x.label("entries in any order")
	}
	x.count("stored entries", stored)
	x.count("absent-valued features", absent)
	x.nontrivialIf(absent > 0 && len(rows) > 1 && c.Sp.Drop > 0)
	for _, thr := range c.Thr {
		got, err := sparse(e, csr, c.N, thr)
		if err != nil {
			return err
		}
		if err := differ("sparse batch", k, got, want); err != nil {
			return verr("%v (%d threads, %d rows, %s)", err, thr, len(rows), m.Fam)
		}
	}
	if chainKind(c.Chain) == 'r' {
		// and against the reference
		got, err := sparse(e, csr, c.N, 1)
		if err != nil {
			return err
		}
		for i, r := range rows {
			w, mag := m.raw(r, c.N)
			for j := range w {
				if !closeTo(got[i*k+j], w[j], mag[j]) {
					return verr("sparse row %d, class %d: %v, reference %v", i, j, got[i*k+j], w[j])
				}
			}
		}
	}
	return nil
}

// ---------- C08 ----------

// PrefixCase is a model and rows; every estimator count is tried.
type PrefixCase struct {
	M *Model `json:"m"`
	X Mat    `json:"x"`
	T bool   `json:"t"`
	V string `json:"v,omitempty"` // raw views taken before predicting
}

func genPrefix(t *rapid.T) *PrefixCase {
	m := genModel(t, GenOpt{Fams: append([]string{LGT, XGD}, allFams...), BigPct: 4, MaxEst: 6, Obj: true, MaxBig: 60, Huge: 4})
	if m.Many != nil && m.K < 5 && m.Many.NEst <= 130 && pct(t, "hundreds", 50) {
		m.Many.NEst = ir(t, "manyest", 130, 700)
		m.Many.Leaves = min(m.Many.Leaves, 3)
		m.trees, m.w, m.pools = nil, nil, nil
		m.prepare()
	}
	c := &PrefixCase{M: m, X: Mat{Rows: genRows(t, m, 1, 3), More: 4, Seed: rapid.Uint64().Draw(t, "seed")}}
	c.T = m.canTransform() && pct(t, "transformed", 40)
	c.V = oneOf(t, "views", []string{"", "", "", "r", "rr", "lr"})
	return c
}

// oddCount picks the counts near powers of two, for models of fewer than 1100
// estimators also multiples of 128, 100 and 97.
func oddCount(n, total int) bool {
	return n&(n-1) == 0 || n&(n+1) == 0 || (n-1)&(n-2) == 0 || total < 1100 && (n%128 == 0 || n%100 == 0 || n%97 == 0)
}

func prefixCheck(c *PrefixCase, x *Ctx) error {
	m := c.M.prepare()
	classify(x, m)
	load := func(m *Model) (*leaves.Ensemble, error) {
		e, err := m.load(c.T)
		if err != nil {
			return nil, err
		}
		return applyChain(e, c.V), nil
	}
	e, err := load(m)
	if err != nil {
		return err
	}
	if c.V != "" {
		x.label("raw view")
	}
	rows := m.matrix(&c.X)
	total := m.nEst()
	k := e.NOutputGroups()
	full, err := single(e, rows, 0)
	if err != nil {
		return err
	}
	check := func(n int, want []float64, what string) error {
		got, err := single(e, rows, n)
		if err != nil {
			return err
		}
		if err := differ("Predict", k, got, want); err != nil {
			return verr("nEstimators=%d of %d: %v (%s)", n, total, err, what)
		}
		got, err = dense(e, rows, n, 2)
		if err != nil {
			return err
		}
		if err := differ("PredictDense", k, got, want); err != nil {
			return verr("nEstimators=%d of %d: %v (%s)", n, total, err, what)
		}
		got, err = sparse(e, explicitCSR(rows), n, 2)
		if err != nil {
			return err
		}
		if err := differ("PredictCSR", k, got, want); err != nil {
			return verr("nEstimators=%d of %d: %v (%s)", n, total, err, what)
		}
		if k == 1 {
			for i, r := range rows {
				if s := e.PredictSingle(r, n); !same(s, want[i]) {
					return verr("nEstimators=%d of %d: PredictSingle gives %v, expected %v (%s)", n, total, s, want[i], what)
				}
			}
		}
		return nil
	}
	for _, n := range []int{-1, math.MinInt32, total, total + 1, total * 100, math.MaxInt32, 1<<8 + 1, 1<<16 + 1, 1<<32 + 1, 1<<32 + total, 1 - 1<<32, 1<<62 + 1, math.MaxInt/2 + 2, math.MaxInt, math.MinInt, math.MinInt + 1} {
		if n > 0 && n < total {
			continue
		}
		if err := check(n, full, "full model"); err != nil {
			return err
		}
	}
	if m.Fam == XGL {
		for _, n := range []int{1, 2, 7} {
			if err := check(n, full, "linear model"); err != nil {
				return err
			}
		}
		x.nontrivial()
		return nil
	}
	for n := 1; n < total; n++ {
		if total > 12 && n > 4 && n < total-3 && (n%9 != 0 || total > 130) && !(total > 130 && oddCount(n, total)) {
			continue
		}
		te, err := load(m.truncated(n))
		if err != nil {
			return err
		}
		if te.NEstimators() != n {
			return verr("model of %d estimators reports %d", n, te.NEstimators())
		}
		want, err := single(te, rows, 0)
		if err != nil {
			return err
		}
		if differ("", k, want, full) != nil {
			x.nontrivial()
		}
		x.count("prefixes", 1)
		if err := check(n, want, "model truncated to its first estimators"); err != nil {
			return err
		}
		if !c.T || c.V != "" {
			for i, r := range rows {
				w, mag := m.raw(r, n)
				for j := range w {
					if !closeTo(want[i*k+j], w[j], mag[j]) {
						return verr("truncated model, row %d, class %d: %v, reference %v", i, j, want[i*k+j], w[j])
					}
				}
			}
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C08", Quick: 40000, Thorough: 600000, Rule: "rapid draws models of every family with up to 6 (some up to 130, 700 or 66000) estimators and rows; for n from 1 to the number of estimators (and beyond, zero, negative) every entry point's prediction is compared with that of a file holding the first n estimators only, loaded on its own, and with the reference. Non-trivial: some prefix predicts differently from the full model, or the model is linear."},
		genPrefix, prefixCheck)
	const predRule = "rapid draws a model of any family, a view of it (raw, transformed, leaf), an estimator count, and a matrix (1-200 rows around the batch size of 16, values at and around thresholds, NaN, infinities, extra columns); "
	register(Prop{ID: "C11", Quick: 40000, Thorough: 800000, Procs: 4, Rule: predRule + "row-by-row, dense, explicit sparse and scalar results are compared number by number. Non-trivial: the rows give at least two distinct results."},
		genPred(GenOpt{Fams: allFams, BigPct: 4, MaxBig: 100, Huge: 15}, true), entryCheck)
	register(Prop{ID: "C12", Quick: 64000, Thorough: 300000, Procs: 4, Rule: predRule + "for drawn thread counts the dense and sparse results of the matrix, of a permutation with repeated rows, and of both parts of a split are compared with each row's own result; some cases repeat the rows up to 140000 - 16777249 times over. Non-trivial: more than 16 rows (so several batches) with more than two distinct results."},
		genThreads(GenOpt{Fams: allFams, BigPct: 3, MaxBig: 60, NoHugeNF: true}), threadCheck)
	register(Prop{ID: "C13", Quick: 112000, Thorough: 900000, Procs: 4, Rule: predRule + "the matrix is stored sparsely - entries equal to the framework's absent value dropped or kept, in any order, with columns the model does not have, with row pointers into the middle of larger arrays - and each row's result compared with its dense result and the reference. Non-trivial: several rows, and absent-valued features that are dropped."},
		genPred(GenOpt{Fams: allFams, BigPct: 3, MaxBig: 60}, true), sparseCheck)
}
