package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/dmitryikh/leaves/transformation"
	"github.com/dmitryikh/leaves/util"
	"pgregory.net/rapid"
)

// ---------- C09 ----------

// TransCase is a model with a drawn objective, loaded with its transformation.
type TransCase struct {
	M   *Model `json:"m"`
	X   Mat    `json:"x"`
	N   int    `json:"n"`
	Thr int    `json:"thr"`
	Off int    `json:"off"`
}

var badLG = []string{"huber", "fair", "quantile", "mape", "cross_entropy", "cross_entropy_lambda", "lambdarank", "rank_xendcg", "binary sigmoid:2", "binary sigmoid:0.7", "binary sigmoid:10", "binary", "binary sigmoid:1.5", "binary sigmoid:0.9", "binary sigmoid",
	"regression sqrt", "regression_l1 sqrt", "custom", "", "none", "multiclass", "softmax", "multiclassova num_class:1 sigmoid:1", "multiclass sigmoid:1", "binary num_class:1"}
var badXG = []string{"reg:linear", "reg:squarederror", "reg:logistic", "multi:softprob", "multi:softmax", "count:poisson", "rank:pairwise", "binary:logitraw", "binary:hinge", "reg:gamma", "reg:tweedie", "survival:cox", "", "binary:logistic2", "custom"}

func genTrans(t *rapid.T) *TransCase {
	m := genModel(t, GenOpt{Fams: []string{LGT, LGT, LGT, LGT, XGT, XGD, XGL, LGJ, SKL}, BigPct: 2, Obj: true, MaxBig: 40, NoHugeNF: true})
	c := &TransCase{M: m}
	switch {
	case m.Fam == LGT && pct(t, "badobj", 40):
		if m.K > 1 {
			m.Obj = oneOf(t, "misfit", []string{"binary sigmoid:1", "poisson", "gamma", "tweedie", "multiclass num_class:1",
				fmt.Sprintf("multiclass num_class:%d", m.K+1), fmt.Sprintf("multiclass num_class:%d", m.K-1), fmt.Sprintf("multiclassova num_class:%d sigmoid:1", m.K), "lambdarank", "custom", ""})
		} else {
			m.Obj = oneOf(t, "unsupported", badLG)
			if pct(t, "oneclass", 10) {
				m.Obj = "multiclass num_class:2"
			}
		}
	case m.xg() && pct(t, "badobj", 40):
		m.Obj = oneOf(t, "unsupported", badXG)
	case m.xg() && m.K > 1 && pct(t, "misfit", 50):
		m.Obj = "binary:logistic"
	}
	c.X = genMat(t, m, pct(t, "batch", 50))
	c.N = genN(t, m, "t")
	c.Thr = oneOf(t, "threads", threads)
	c.Off = ir(t, "off", 0, 5)
	return c
}

// fit is the transformation the objective of the model asks for, "" if there
// is none or it does not fit the number of outputs.
func (m *Model) fit() string {
	w := m.wantTransform()
	if (w == "logistic" || w == "exponential") && m.K != 1 {
		return ""
	}
	return w
}

func sigmoidRef(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

// transformRef is the reference of the transformations.
func transformRef(name string, raw []float64) []float64 {
	out := append([]float64{}, raw...)
	switch name {
	case "logistic":
		out[0] = sigmoidRef(raw[0])
	case "exponential":
		out[0] = math.Exp(raw[0])
	case "softmax":
		mx := math.Inf(-1)
		for _, v := range raw {
			mx = math.Max(mx, v)
		}
		sum := 0.0
		for i, v := range raw {
			out[i] = math.Exp(v - mx)
			sum += out[i]
		}
		for i := range out {
			out[i] /= sum
		}
	}
	return out
}

// near compares values of transformations: 1e-11 relative.
func near(a, b float64) bool {
	return same(a, b) || math.Abs(a-b) <= 1e-11*math.Abs(b)+1e-307
}

func transCheck(c *TransCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("fam=%s", m.Fam)
	name := m.fit()
	if m.RF {
		name = "raw"
	}
	e, err := loadBytes(m.Fam, m.bytes(), true)
	switch {
	case m.Fam == LGJ || (name == "" && m.Fam != SKL):
		x.label("refused")
		x.nontrivial()
		if err == nil {
			return verr("a %s model with %d outputs and objective %q is loaded with transformation %q", m.Fam, m.K, m.Obj, e.Transformation().Name())
		}
		return nil
	case m.Fam == SKL:
		if err != nil {
			return nil
		}
		name = "raw"
	case err != nil:
		return verr("a %s model with %d outputs and objective %q is refused: %v", m.Fam, m.K, m.Obj, err)
	}
	if m.RF {
		x.label("random forest")
	}
	x.label("transformation=%s", name)
	if err := checkMeta(m, e, name, m.K); err != nil {
		return err
	}
	re, err := loadBytes(m.Fam, m.bytes(), false)
	if err != nil {
		return verr("the model is loaded with its transformation, but refused without: %v", err)
	}
	rows := m.matrix(&c.X)
	x.count("rows", len(rows))
	raw, err := single(re, rows, c.N)
	if err != nil {
		return err
	}
	want := make([]float64, 0, len(raw))
	for i := 0; i < len(raw); i += m.K {
		want = append(want, transformRef(name, raw[i:i+m.K])...)
	}
	finite := true
	for _, v := range raw {
		if math.IsNaN(v) || math.IsInf(v, 0) {
			finite = false // XGBoost linear models of infinite features
		}
	}
	if !finite {
		x.label("scores not finite")
		if name == "softmax" {
			return nil
		}
	}
	x.nontrivialIf(name != "raw" && distinctRows(want, m.K) > 1)
	cmp := func(what string, got []float64) error {
		for i := range want {
			if !near(got[i], want[i]) {
				return verr("%s: row %d, output %d: %v, but %s of %v is %v (objective %q)", what, i/m.K, i%m.K, got[i], name, raw[i/m.K*m.K:i/m.K*m.K+m.K], want[i], m.Obj)
			}
		}
		return nil
	}
	var got []float64
	if got, err = single(e, rows, c.N); err != nil {
		return err
	}
	if err := cmp("Predict", got); err != nil {
		return err
	}
	if got, err = dense(e, rows, c.N, c.Thr); err != nil {
		return err
	}
	if err := cmp("PredictDense", got); err != nil {
		return err
	}
	if got, err = sparse(e, explicitCSR(rows), c.N, c.Thr); err != nil {
		return err
	}
	if err := cmp("PredictCSR", got); err != nil {
		return err
	}
	if m.K == 1 {
		got = got[:0]
		for _, r := range rows {
			got = append(got, e.PredictSingle(r, c.N))
		}
		if err := cmp("PredictSingle", got); err != nil {
			return err
		}
	}
	// the raw view and the raw load agree
	got, err = single(e.EnsembleWithRawPredictions(), rows, c.N)
	if err != nil {
		return err
	}
	if err := differ("raw view", m.K, got, raw); err != nil {
		return err
	}
	// the reported transformation maps the one to the other, at any offset
	out := make([]float64, c.Off+m.K)
	for i := 0; i < len(rows); i++ {
		if err := e.Transformation().Transform(raw[i*m.K:(i+1)*m.K], out, c.Off); err != nil {
			return verr("the model's transformation refuses its raw scores: %v", err)
		}
		for k, v := range out[c.Off:] {
			if !near(v, want[i*m.K+k]) {
				return verr("the model's transformation gives %v at offset %d, expected %v", v, c.Off+k, want[i*m.K+k])
			}
		}
	}
	return nil
}

// ---------- C10 ----------

// FuncCase is a direct call of a transformation.
type FuncCase struct {
	Kind  string `json:"kind"`
	S     []F    `json:"s"`
	Off   int    `json:"off"`
	Pad   int    `json:"pad"`
	Wrong int    `json:"wrong"` // scores too many (or too few)
	Shift F      `json:"shift"`
	Fill  int    `json:"fill,omitempty"` // so many scores, made from those of S
}

func genScore(t *rapid.T) F {
	switch uni(t, "scorekind", 6) {
	case 0:
		return F(float64(ir(t, "eighth", -400, 400)) / 8)
	case 1:
		return F(rapid.Float64Range(-40, 40).Draw(t, "small"))
	case 2:
		return F(rapid.Float64Range(-800, 800).Draw(t, "mid"))
	case 3:
		return F(rapid.Float64Range(-1e300, 1e300).Draw(t, "huge"))
	case 4:
		return F(oneOf(t, "edge", []float64{0, 709, 710, -709, -745, -746, 709.782712893384, 745.2, 36.7, 37, -36.8, 1e-300, 1e300, -1e300, 1e4, -1e4, 88.8, 5e-324}))
	}
	return F(rapid.Float64Range(-1e5, 1e5).Draw(t, "wide"))
}

func genFunc(t *rapid.T) *FuncCase {
	c := &FuncCase{Kind: oneOf(t, "kind", []string{"softmax", "softmax", "softmax", "logistic", "exponential", "raw", "leaf"})}
	n := ir(t, "n", 1, 8)
	if pct(t, "long", 10) {
		n = ir(t, "nlong", 9, 300)
	}
	if pct(t, "exact", 40) {
		for i := 0; i < n; i++ {
			c.S = append(c.S, F(float64(ir(t, "exact8", -32000, 32000))/8))
		}
	} else {
		for i := 0; i < n; i++ {
			c.S = append(c.S, genScore(t))
		}
	}
	c.Shift = F(oneOf(t, "shift", []float64{0, 1, -1, 700, -700, 800, -800, 0.125, 1 << 20, -(1 << 20), 1 << 40, -(1 << 40), 12345.625}))
	c.Off, c.Pad = ir(t, "off", 0, 20), ir(t, "pad", 0, 9)
	c.Wrong = oneOf(t, "wrong", []int{1, -1, 2, 5, -100})
	if uni(t, "verymany", 1<<13) == 1<<12 {
		c.Fill = oneOf(t, "fill", []int{257, 1024, 1025, 4097, 33000, 65535, 65536, 65537, 70000})
	}
	return c
}

func newTransform(kind string, n int) transformation.Transform {
	switch kind {
	case "softmax":
		return &transformation.TransformSoftmax{NClasses: n}
	case "logistic":
		return &transformation.TransformLogistic{}
	case "exponential":
		return &transformation.TransformExponential{}
	case "leaf":
		return &transformation.TransformLeafIndex{NumOutputGroups: n}
	}
	return &transformation.TransformRaw{NumOutputGroups: n}
}

func funcCheck(c *FuncCase, x *Ctx) error {
	x.label("kind=%s", c.Kind)
	if c.Fill > 0 && len(c.S) > 0 {
		cc := *c
		cc.Fill, cc.S = 0, make([]F, c.Fill)
		for i := range cc.S {
			cc.S[i] = c.S[i%len(c.S)] + F(float64(i/len(c.S)%7)/8)
		}
		x.label("more than 256 scores")
		return funcCheck(&cc, x)
	}
	scores := fs(c.S)
	big, distinct := false, map[float64]bool{}
	for _, s := range scores {
		distinct[s] = true
		if math.Abs(s) > 700 {
			big = true
		}
	}
	if big {
		x.label("scores beyond +-700")
	}
	x.nontrivialIf(big || len(distinct) > 1)
	multi := c.Kind == "softmax" || c.Kind == "raw" || c.Kind == "leaf"
	n := 1
	if multi {
		n = len(scores)
	}
	tr := newTransform(c.Kind, n)
	typ := map[string]string{"leaf": "leaf_index"}[c.Kind]
	if typ == "" {
		typ = c.Kind
	}
	if tr.NOutputGroups() != n || tr.Name() != typ || tr.Type() != typeNames[typ] {
		return verr("%s of %d scores: %d outputs, name %q, type %v", typ, n, tr.NOutputGroups(), tr.Name(), tr.Type())
	}
	call := func(in []float64) ([]float64, error) {
		g := guard(c.Off+len(in)+c.Pad, 0, fillA)
		fr := freeze(in)
		o := g.all[g.off : g.off+g.n]
		if err := tr.Transform(in, o, c.Off); err != nil {
			return nil, verr("%s refuses %d scores: %v", typ, len(in), err)
		}
		if err := fr.check(); err != nil {
			return nil, verr("%s: %v", typ, err)
		}
		res := append([]float64{}, o[c.Off:c.Off+len(in)]...)
		g.off, g.n = g.off+c.Off, len(in)
		if err := g.checkOutside(); err != nil {
			return nil, verr("%s at offset %d: %v", typ, c.Off, err)
		}
		return res, nil
	}
	// a wrong number of scores
	if c.Kind != "raw" && c.Kind != "leaf" {
		wn := n + c.Wrong
		if wn < 0 {
			wn = 0
		}
		in := make([]float64, wn)
		g := guard(c.Off+wn+n+c.Pad, 0, fillA)
		o := g.all[g.off : g.off+g.n]
		g.n = 0
		if err := tr.Transform(in, o, c.Off); err == nil {
			return verr("%s of %d scores accepts %d", typ, n, wn)
		}
		if err := g.checkOutside(); err != nil {
			return verr("refused %s: %v", typ, err)
		}
	}
	if !multi {
		var out []float64
		for _, s := range scores {
			r, err := call([]float64{s})
			if err != nil {
				return err
			}
			out = append(out, r[0])
			if w := transformRef(typ, []float64{s})[0]; !near(r[0], w) {
				return verr("%s of %v is %v, expected %v", typ, s, r[0], w)
			}
			if c.Kind == "logistic" {
				if !(r[0] >= 0 && r[0] <= 1) {
					return verr("logistic of %v is %v", s, r[0])
				}
				if u := util.Sigmoid(s); !near(u, sigmoidRef(s)) || !(u >= 0 && u <= 1) {
					return verr("Sigmoid(%v) is %v", s, u)
				}
			}
		}
		// the exponential function itself is rounded: 4 ulps
		if i, j := falls(scores, out); i != j {
			return verr("%s falls from %v at %v to %v at %v", typ, out[i], scores[i], out[j], scores[j])
		}
		if c.Kind == "logistic" {
			v := append([]float64{}, scores...)
			util.SigmoidFloat64SliceInplace(v)
			for i := range v {
				if !near(v[i], sigmoidRef(scores[i])) {
					return verr("SigmoidFloat64SliceInplace: element %d (%v) is %v", i, scores[i], v[i])
				}
			}
		}
		return nil
	}
	out, err := call(scores)
	if err != nil {
		return err
	}
	if c.Kind != "softmax" {
		for i := range out {
			if !bitSame(out[i], scores[i]) {
				return verr("%s changes score %d from %v to %v", typ, i, scores[i], out[i])
			}
		}
		return nil
	}
	if err := softmaxCheck(scores, out); err != nil {
		return err
	}
	u := make([]float64, c.Off+len(scores)+c.Pad)
	util.SoftmaxFloat64Slice(scores, u, c.Off)
	if err := softmaxCheck(scores, u[c.Off:c.Off+len(scores)]); err != nil {
		return verr("SoftmaxFloat64Slice: %v", err)
	}
	shifted := make([]float64, len(scores))
	exact := true
	for i, s := range scores {
		shifted[i] = s + float64(c.Shift)
		exact = exact && shifted[i]-float64(c.Shift) == s && math.Abs(s) < 1<<40 && s*8 == math.Trunc(s*8)
	}
	if exact {
		x.label("shifted")
		o2, err := call(shifted)
		if err != nil {
			return err
		}
		for i := range out {
			if math.Abs(out[i]-o2[i]) > 1e-12 {
				return verr("adding %v to all scores %s changes output %d from %v to %v", float64(c.Shift), rowString(scores), i, out[i], o2[i])
			}
		}
	}
	return nil
}

func softmaxCheck(scores, out []float64) error {
	want := transformRef("softmax", scores)
	sum := 0.0
	for i, v := range out {
		if !(v >= 0 && v <= 1) {
			return verr("softmax of %s: output %d is %v", rowString(scores), i, v)
		}
		if math.Abs(v-want[i]) > 1e-12 && !near(v, want[i]) {
			return verr("softmax of %s: output %d is %v, expected %v", rowString(scores), i, v, want[i])
		}
		sum += v
	}
	if math.Abs(sum-1) > 1e-11+4e-16*float64(len(scores)) {
		return verr("softmax of %s: outputs sum to %v", rowString(scores), sum)
	}
	if i, j := falls(scores, out); i != j {
		return verr("softmax does not keep the order: %v -> %v, %v -> %v", scores[i], out[i], scores[j], out[j])
	}
	return nil
}

// falls gives i and j with a lower score and a higher output for i than for j,
// or equal numbers if there are none.
func falls(scores, out []float64) (int, int) {
	idx := make([]int, len(scores))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return scores[idx[a]] < scores[idx[b]] })
	top := -1 // of the lower scores, the one with the highest output
	for a := 0; a < len(idx); {
		b := a
		for ; b < len(idx) && scores[idx[b]] == scores[idx[a]]; b++ {
			if top >= 0 && out[top] > out[idx[b]]*(1+1e-15) {
				return top, idx[b]
			}
		}
		for ; a < b; a++ {
			if top < 0 || out[idx[a]] > out[top] {
				top = idx[a]
			}
		}
	}
	return 0, 0
}

func init() {
	register(Prop{ID: "C09", Quick: 160000, Thorough: 1200000, Procs: 4, Rule: "rapid draws a model of any family, an objective (supported, unsupported, malformed, missing, or not fitting the number of outputs), rows, an estimator count and a thread count; the model is loaded with its transformation. Unsupported ones must be refused, the others must report the objective's transformation, and every entry point must give the independently computed function of the raw predictions of a separate raw load. Non-trivial: the load must be refused, or the transformation is not the identity and the rows give different results."},
		genTrans, transCheck)
	register(Prop{ID: "C10", Quick: 1600000, Thorough: 5000000, Rule: "rapid draws a transformation, 1-300 and rarely up to 70000 finite scores (multiples of 1/8, edges of exp's range, up to 1e300), an offset, padding, a shift and a wrong number of scores; results are compared with an independent formula, ranges, sums, order and shift invariance are checked, and everything outside the outputs must keep its bits. Non-trivial: different scores, or scores beyond +-700."},
		genFunc, funcCheck)
}
