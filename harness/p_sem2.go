package main

import (
	"math"

	"pgregory.net/rapid"
)

// ---------- C02: JSON ----------

func jsonCheck(c *SemCase, x *Ctx) error {
	c.M.prepare()
	classify(x, c.M)
	rows := c.M.matrix(&c.X)
	x.count("rows predicted", len(rows))
	x.nontrivialIf(reached(c.M, rows) > len(c.M.trees))
	if err := checkRaw(c.M, rows, 0); err != nil {
		return err
	}
	// the same trees as text
	tm := *c.M
	tm.Fam = LGT
	tm.Ver = 3
	ej, err := c.M.load(false)
	if err != nil {
		return err
	}
	et, err := tm.load(false)
	if err != nil {
		return err
	}
	a, b := make([]float64, c.M.K), make([]float64, c.M.K)
	for i, r := range rows {
		if err := ej.Predict(r, 0, a); err != nil {
			return verr("JSON form: %v", err)
		}
		if err := et.Predict(r, 0, b); err != nil {
			return verr("text form: %v", err)
		}
		if k := sameSlice(a, b); k >= 0 {
			return verr("row %d, class %d: JSON form predicts %v, text form %v; row %s", i, k, a[k], b[k], rowString(r))
		}
	}
	return nil
}

// ---------- C03: categorical splits ----------

// CatCase is a model with categorical splits and a base row; every category
// around the used ones is tried on every categorical feature.
type CatCase struct {
	M *Model `json:"m"`
	X Mat    `json:"x"`
}

func genCat(t *rapid.T) *CatCase {
	m := genModel(t, GenOpt{Fams: []string{LGT, LGJ}, CatPct: 90, BigPct: 3, MaxEst: 2, MinLeaf: 2, NoWild: true, NoHugeNF: true, MaxBig: 80, MaxK: 2, HugeCat: true, Huge: 4})
	return &CatCase{m, Mat{Rows: genRows(t, m, 1, 2), More: 1, Seed: rapid.Uint64().Draw(t, "seed")}}
}

func catCheck(c *CatCase, x *Ctx) error {
	m := c.M.prepare()
	e, err := m.load(false)
	if err != nil {
		return err
	}
	x.label("fam=%s", m.Fam)
	multi := 0
	for i := range m.trees {
		n := 0
		for j := range m.trees[i].S {
			s := &m.trees[i].S[j]
			if !s.cat() {
				continue
			}
			n++
			x.nontrivial()
			switch {
			case len(s.C) == 1:
				x.label("set of one category")
			case s.C[len(s.C)-1] < 32:
				x.label("set in one word")
			default:
				x.label("set in several words")
			}
		}
		if n > 1 {
			multi++
		}
	}
	if multi > 0 {
		x.label("several categorical splits in a tree")
	}
	out := make([]float64, m.K)
	p := m.getPools()
	n := 0
	for _, base := range m.matrix(&c.X) {
		for _, f := range m.CatF {
			old := base[f]
			vals := append([]float64{}, p.v[f]...)
			top := 0
			for i := range m.trees {
				for j := range m.trees[i].S {
					if s := &m.trees[i].S[j]; s.F == f && s.cat() {
						if l := s.C[len(s.C)-1]; l > top && l < 260 {
							top = l
						}
					}
				}
			}
			for v := -2; v <= top+34; v++ {
				vals = append(vals, float64(v))
			}
			for _, v := range vals {
				base[f] = v
				n++
				if err := e.Predict(base, 0, out); err != nil {
					return verr("prediction is refused: %v", err)
				}
				want, mag := m.raw(base, 0)
				for k := range want {
					if !closeTo(out[k], want[k], mag[k]) {
						return verr("feature %d = %v, class %d: prediction %v, reference %v; row %s", f, v, k, out[k], want[k], rowString(base))
					}
				}
			}
			base[f] = old
		}
	}
	x.count("category values predicted", n)
	return nil
}

// ---------- C04: missing values ----------

func genMissing(t *rapid.T) *SemCase {
	m := genModel(t, GenOpt{Fams: []string{LGT, LGT, LGJ, XGT, XGD}, CatPct: 15, BigPct: 4, MinLeaf: 2, NoWild: true, MaxBig: 100})
	x := Mat{}
	for i, n := 0, ir(t, "rows", 1, 6); i < n; i++ {
		r := Row{}
		if m.NF > 7 {
			r = genRow(t, m)
			x.Rows = append(x.Rows, r)
			continue
		}
		for f := 0; f < m.NF; f++ {
			v := oneOf(t, "mval", []float64{0, math.NaN(), math.Copysign(0, -1), 9.9e-36, -9.9e-36, 1.1e-35, -1.1e-35, 1e-37, 5e-324, 1, -1, math.Inf(1), math.Inf(-1), 1e-20, -1e-20})
			if m.single() {
				v = to32(v)
			}
			if !m.domain(f, v) {
				v = 0
			}
			if pct(t, "pool", 15) {
				v = float64(genVal(t, m, f))
			}
			r.V = append(r.V, F(v))
		}
		x.Rows = append(x.Rows, r)
	}
	if pct(t, "extracols", 10) {
		x.Extra = ir(t, "extra", 1, 3)
	}
	return &SemCase{m, x}
}

func missingCheck(c *SemCase, x *Ctx) error {
	m := c.M.prepare()
	rows := m.matrix(&c.X)
	x.label("fam=%s", m.Fam)
	x.count("rows predicted", len(rows))
	// non-trivial: the default side of some met split decides a prediction
	flip := *m
	flip.trees = nil
	for _, t := range m.trees {
		n := Tree{V: t.V}
		for _, s := range t.S {
			s.D = !s.D
			n.S = append(n.S, s)
		}
		flip.trees = append(flip.trees, n)
	}
	for _, r := range rows {
		for i := range m.trees {
			if m.trees[i].leaf(m.Fam, r) != flip.trees[i].leaf(m.Fam, r) {
				x.nontrivial()
			}
		}
		for _, s := range m.trees[0].S {
			v := r[s.F]
			switch {
			case s.cat() && math.IsNaN(v):
				x.label("NaN at categorical split")
			case s.cat():
			case math.IsNaN(v):
				x.label("NaN at split with missing type %d", s.M)
			case v == 0:
				x.label("zero at split with missing type %d", s.M)
			case math.Abs(v) < 1e-35:
				x.label("near-zero at split with missing type %d", s.M)
			}
		}
	}
	return checkRaw(m, rows, 0)
}

func init() {
	nt := "the rows reach more than one leaf of some tree."
	register(Prop{ID: "C02", Quick: 64000, Thorough: 1200000, Rule: semRule + nt + " Every case is also written as LightGBM text and both forms' predictions compared."},
		genSem(GenOpt{Fams: []string{LGJ}, BigPct: 6, MaxBig: 300, Huge: 4}), jsonCheck)
	register(Prop{ID: "C03", Quick: 100000, Thorough: 900000, Rule: "rapid draws LightGBM models (text or JSON) with mostly categorical splits - one category, one word, several words, word edges, words with one hole, several such splits per tree - and base rows; on every categorical feature every category from -2 to beyond the greatest used one, fractional, huge and non-finite values are predicted and compared with set membership by the reference. Non-trivial: the model has a categorical split."},
		genCat, catCheck)
	register(Prop{ID: "C04", Quick: 320000, Thorough: 2000000, Rule: "rapid draws LightGBM text/JSON and XGBoost gbtree/dart models with all missing types and default sides, and rows mostly of NaN, signed zeros, near-zero values on both sides of 1e-35, infinities and a few others; each raw prediction is compared with the reference. Non-trivial: inverting the default sides would lead some row to another leaf."},
		genMissing, missingCheck)
}
