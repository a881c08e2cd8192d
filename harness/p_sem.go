package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Semantics of each model family against the reference evaluation.

// SemCase is a model and rows to predict.
type SemCase struct {
	M *Model `json:"m"`
	X Mat    `json:"x"`
}

func genSem(o GenOpt) func(t *rapid.T) *SemCase {
	return func(t *rapid.T) *SemCase {
		m := genModel(t, o)
		x := Mat{Rows: genRows(t, m, 1, 4), More: 12, Seed: rapid.Uint64().Draw(t, "matseed")}
		if pct(t, "extracols", 15) {
			x.Extra = ir(t, "extra", 1, 3)
		}
		return &SemCase{m, x}
	}
}

// classify records what kind of model the case has.
func classify(x *Ctx, m *Model) {
	x.label("fam=%s", m.Fam)
	switch {
	case m.K == 1:
		x.label("outputs=1")
	case m.K <= 4:
		x.label("outputs=2-4")
	default:
		x.label("outputs>4")
	}
	maxL, single, cat := 0, false, 0
	for i := range m.trees {
		n := len(m.trees[i].V)
		if n > maxL {
			maxL = n
		}
		if n == 1 {
			single = true
		}
		for j := range m.trees[i].S {
			if m.trees[i].S[j].cat() {
				cat++
			}
		}
	}
	if m.Fam != XGL {
		switch {
		case maxL == 1:
			x.label("only single-leaf trees")
		case maxL <= 8:
			x.label("small trees")
		case maxL <= 100:
			x.label("trees of 9-100 leaves")
		default:
			x.label("trees of >100 leaves")
		}
		if single {
			x.label("has single-leaf tree")
		}
		if cat > 0 {
			x.label("categorical splits")
		}
	}
	if m.RF {
		x.label("random forest")
	}
	if m.NF == 1 {
		x.label("one feature")
	}
	if m.NF > 1000 {
		x.label("features>1000")
	}
	if m.nEst() > 8 {
		x.label("many estimators")
	}
}

// reached counts distinct leaves reached by the rows.
func reached(m *Model, rows [][]float64) int {
	seen := map[[2]int]bool{}
	for i := range m.trees {
		if i > 20 {
			break
		}
		for _, r := range rows {
			seen[[2]int{i, m.trees[i].leaf(m.Fam, r)}] = true
		}
	}
	return len(seen)
}

func rowString(r []float64) string {
	if len(r) > 20 {
		return fmt.Sprintf("%v… (%d values)", r[:20], len(r))
	}
	return fmt.Sprint(r)
}

// checkRaw compares raw predictions of the rows with the reference.
func checkRaw(m *Model, rows [][]float64, nEst int) error {
	e, err := m.load(false)
	if err != nil {
		return err
	}
	out := make([]float64, m.K)
	for i, r := range rows {
		if err := e.Predict(r, nEst, out); err != nil {
			return verr("prediction of row %d is refused: %v", i, err)
		}
		want, mag := m.raw(r, nEst)
		for k := range want {
			if !closeTo(out[k], want[k], mag[k]) {
				return verr("row %d, class %d: prediction %v, reference %v; row %s", i, k, out[k], want[k], rowString(r))
			}
		}
	}
	return nil
}

func semCheck(c *SemCase, x *Ctx) error {
	c.M.prepare()
	classify(x, c.M)
	rows := c.M.matrix(&c.X)
	x.count("rows predicted", len(rows))
	if c.M.Fam != XGL {
		x.nontrivialIf(reached(c.M, rows) > len(c.M.trees))
	} else {
		x.nontrivialIf(c.M.NF > 1 || c.M.K > 1)
	}
	return checkRaw(c.M, rows, 0)
}

const semRule = "rapid draws a model (features, outputs, estimators, tree shapes, thresholds, weights; some with trees of hundreds of leaves, many estimators or thousands of features) and 13-16 rows made of values at, next to and far from the model's thresholds, some led to a drawn leaf; the serialized model is loaded and each row's raw prediction compared with a reference evaluation of the model. Non-trivial: "

func init() {
	nt := "the rows reach more than one leaf of some tree."
	register(Prop{ID: "C01", Quick: 240000, Thorough: 1500000, Rule: semRule + nt},
		genSem(GenOpt{Fams: []string{LGT}, BigPct: 6, Huge: 15}), semCheck)
	register(Prop{ID: "C05", Quick: 320000, Thorough: 2000000, Rule: semRule + nt},
		genSem(GenOpt{Fams: []string{XGT, XGD}, BigPct: 6, Huge: 15}), semCheck)
	register(Prop{ID: "C06", Quick: 1280000, Thorough: 4000000, Rule: semRule + "more than one feature or class."},
		genSem(GenOpt{Fams: []string{XGL}, BigPct: 10, Huge: 15}), semCheck)
	register(Prop{ID: "C07", Quick: 96000, Thorough: 700000, Rule: semRule + nt},
		genSem(GenOpt{Fams: []string{SKL}, BigPct: 6, Huge: 10}), semCheck)
}
