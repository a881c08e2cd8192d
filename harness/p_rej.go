package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// ---------- C23 ----------

// RejCase is a well-formed model and one contradicting edit.
type RejCase struct {
	M    *Model `json:"m"`
	L    Layout `json:"l"` // with the edit
	What string `json:"what"`
	Fam  string `json:"fam,omitempty"` // loader, if not the model's own
	T    bool   `json:"t"`             // the transformation is requested
	File bool   `json:"file"`
}

func genRej(t *rapid.T) *RejCase {
	c := &RejCase{M: genModel(t, GenOpt{NoLay: true, Fams: allFams, BigPct: 3, MaxBig: 60, NoHugeNF: true, MaxEst: 3}), L: genLayout(t), File: pct(t, "file", 15)}
	m := c.M.prepare()
	ov, ovs := map[string]int{}, map[string]string{}
	type edit struct {
		name string
		f    func()
	}
	var edits []edit
	add := func(name string, f func()) { edits = append(edits, edit{name, f}) }
	// other than `v`, near it or anywhere
	not := func(name string, v, lo, hi int) int {
		w := v
		if pct(t, name+"near", 60) {
			w = v + oneOf(t, name+"d", []int{-1, 1, 2})
		} else {
			w = ir(t, name, lo, hi)
		}
		if w == v {
			w = v + 1
		}
		return w
	}
	nEst, nT := m.nEst(), len(m.trees)
	// a count that is not a multiple of K
	notMultiple := func() int {
		n := ir(t, "ntrees", 1, nT+2*m.K)
		if n%m.K == 0 {
			n++
		}
		return n
	}
	// a number of classes which doesn't divide the number of trees
	notDivisor := func() int {
		k := ir(t, "kk", 2, nT+3)
		for nT%k == 0 {
			k++
		}
		return k
	}
	tree := func() int { return uni(t, "tree", nT) }
	mismatch := []edit{{"class counts differ", func() {
		if rapid.Bool().Draw(t, "which") {
			ov["num_class"] = not("nc", m.K, -3, 50)
		} else {
			ov["num_tree_per_iteration"] = not("nc", m.K, -3, 50)
		}
	}}, {"class counts not positive", func() {
		k := oneOf(t, "nonpos", []int{0, -1, -2, -m.K, -nT, -1 << 31})
		ov["num_class"], ov["num_tree_per_iteration"] = k, k
	}}, {"classes don't divide trees", func() {
		k := notDivisor()
		ov["num_class"], ov["num_tree_per_iteration"] = k, k
	}}}
	switch m.Fam {
	case LGT:
		edits = append(edits, mismatch...)
		add("version", func() {
			ovs["version"] = oneOf(t, "ver", []string{"v1", "v4", "v", "", "v22", "V2", "2", "3", "v2.1", "v5", "v30", dropKey})
		})
		if m.K > 1 {
			add("tree count", func() {
				n := notMultiple()
				ov["trees"], ov["tree_sizes"] = n, n
			})
			add("tree_sizes count", func() { ov["tree_sizes"] = notMultiple() })
		}
		add("linear tree", func() { ov["linear"] = tree() })
		add("no trees", func() {
			ov["trees"] = 0
			c.L.Trail = false
			if rapid.Bool().Draw(t, "nosizes") {
				ovs["tree_sizes"] = dropKey
			} else {
				ov["tree_sizes"] = 0
			}
		})
		if !m.RF {
			add("transformation", func() {
				c.T = true
				o := []string{"binary sigmoid:2", "binary sigmoid:0", "binary sigmoid:-1", "regression sqrt", "regression_l1 sqrt", "no_such_objective", dropKey,
					fmt.Sprintf("multiclass num_class:%d", m.K+1+uni(t, "more", 3)), fmt.Sprintf("multiclassova num_class:%d sigmoid:1", m.K)}
				if m.K > 1 {
					o = append(o, "binary sigmoid:1", "poisson", "gamma", "tweedie", fmt.Sprintf("multiclass num_class:%d", m.K-1), "multiclass num_class:0")
				}
				for _, s := range []string{"poisson", "gamma", "tweedie", "binary sigmoid:1", fmt.Sprintf("multiclass num_class:%d", m.K)} {
					o = append(o, nearMiss(t, s))
				}
				o = append(o, "cross_entropy", "lambdarank", "huber", "p", "b")
				o = append(o, "binary sigmoid:1.5", "binary sigmoid:0.9", "binary sigmoid:1 is_unbalance:1", "binary", "binary sigmoid", "binary sigmoid:", "binary num_class:1",
					fmt.Sprintf("multiclass num_class:%d sigmoid:1", m.K), "multiclass", fmt.Sprintf("multiclass num_class:%d.5", m.K), fmt.Sprintf("multiclass sigmoid:%d", m.K))
				ovs["objective"] = oneOf(t, "objective", o)
				if ovs["objective"] == dropKey && m.Obj == "" {
					delete(ovs, "objective")
				}
			})
		}
	case LGJ:
		edits = append(edits, mismatch...)
		add("version", func() {
			ovs["version"] = oneOf(t, "ver", []string{"v1", "v4", "v", "", "v22", "V2", "2", "v99", dropKey})
		})
		add("name", func() { ovs["name"] = oneOf(t, "name", []string{"", "Tree", "linear", "forest", "tree ", dropKey}) })
		if m.K > 1 {
			add("tree count", func() { ov["trees"] = notMultiple() })
		}
		add("no trees", func() {
			switch uni(t, "how", 3) {
			case 0:
				ov["trees"] = 0
			case 1:
				ovs["tree_info"] = dropKey
			case 2:
				ovs["tree_info"] = "null"
			}
		})
	case XGT, XGD:
		add("booster", func() {
			ovs["booster"] = oneOf(t, "boosters", []string{"gblinear", "", "gbtree2", "GBTREE", "Dart", "tree", "gbforest"})
		})
		add("other loader", func() { c.Fam = XGL })
		add("zero features", func() { ov["header.features"] = 0 })
		add("zero features everywhere", func() {
			// trees of one leaf don't need features
			for i := range m.trees {
				m.trees[i] = Tree{V: m.trees[i].V[:1]}
			}
			m.Trees, m.Many = m.trees, nil
			c.L.Deleted = false
			ov["header.features"], ov["model.features"], ov["at"], ov["tree.features"] = 0, 0, -2, 0
		})
		add("model features", func() { ov["model.features"] = m.NF + oneOf(t, "morefeat", []int{1, 2, 100, 1 << 30}) })
		add("tree features", func() {
			ov["at"], ov["tree.features"] = tree(), m.NF+oneOf(t, "morefeat", []int{1, 2, 100, 1 << 30})
		})
		add("split feature", func() {
			ov["at"], ov["split"] = 0, m.NF+oneOf(t, "morefeat", []int{0, 1, 100, 1<<30 - m.NF})
			for i := range m.trees {
				if len(m.trees[i].S) > 0 {
					ov["at"] = i
					return
				}
			}
			ov["tree.features"] = m.NF + 1 // there are no splits
		})
		add("model roots", func() { ov["model.roots"] = not("roots", 1, -1, 5) })
		add("tree roots", func() { ov["at"], ov["tree.roots"] = tree(), not("roots", 1, -1, 5) })
		add("tree class", func() {
			i := tree()
			ov["at"], ov["group"] = i, not("group", i%m.K, -1, m.K)
		})
		if m.K > 1 {
			add("class order", func() {
				i := tree()
				j := i - i%m.K + (i%m.K+1+uni(t, "j", m.K-1))%m.K
				ov["at"], ov["group"], ov["at2"], ov["group2"] = i, j%m.K, j, i%m.K
			})
			add("tree count", func() { ov["trees"] = notMultiple() })
		}
		add("groups not positive", func() { ov["groups"] = oneOf(t, "nonpos", []int{0, -1, -m.K, -nT, -1 << 31}) })
		add("groups don't divide trees", func() { ov["groups"] = notDivisor() })
		if nEst > 1 && m.K == 1 || m.K > 1 {
			// divides the number of trees, contradicts the classes of trees
			add("groups and class order", func() {
				k := 1
				if m.K == 1 {
					k = nT
				}
				ov["groups"] = k
			})
		}
		add("no trees", func() { ov["trees"] = 0 })
		add("negative trees", func() { ov["model.trees"] = oneOf(t, "neg", []int{-1, -nT, -1 << 31}) })
		if m.Fam == XGD {
			add("weights", func() { ov["weights"] = not("nw", nT, 0, 2*nT) })
		}
		if m.K > 1 {
			add("transformation", func() { c.T = true; ovs["objective"] = "binary:logistic" })
		}
		add("objective", func() {
			c.T = true
			ovs["objective"] = oneOf(t, "objs", []string{"", "no:such", "binary:logisticx", "multi:softprob", "binary:logitraw", "reg:logistic", "binary:", nearMiss(t, "binary:logistic"), nearMiss(t, "binary:logistic")})
		})
	case XGL:
		add("booster", func() {
			ovs["booster"] = oneOf(t, "boosters", []string{"gbtree", "dart", "", "gblinear2", "GBLINEAR", "linear"})
		})
		add("other loader", func() { c.Fam = XGT })
		add("zero features", func() { ov["header.features"] = 0 })
		add("zero features everywhere", func() { ov["header.features"], ov["model.features"], ov["weights"] = 0, 0, m.K })
		add("weights", func() { ov["weights"] = not("nw", len(m.lin), 0, 2*len(m.lin)) })
		add("features", func() { ov["model.features"] = not("nfeat", m.NF, 0, 20) })
		add("groups", func() { ov["groups"] = not("ngroups", m.K, -3, 20) })
		if m.K > 1 {
			add("transformation", func() { c.T = true; ovs["objective"] = "binary:logistic" })
		}
		add("objective", func() {
			c.T = true
			ovs["objective"] = oneOf(t, "objs", []string{"", "no:such", "binary:logisticx", "multi:softprob", "binary:logitraw", "reg:logistic", "binary:", nearMiss(t, "binary:logistic"), nearMiss(t, "binary:logistic")})
		})
	case SKL:
		nc := m.K
		if nc == 1 {
			nc = 2
		}
		add("shape", func() {
			if rapid.Bool().Draw(t, "dim") {
				ov["shape0"] = not("shape0", nEst, -1, 2*nEst)
			} else {
				ov["shape1"] = not("shape1", m.K, -1, 2*m.K)
			}
		})
		add("shape and n_estimators", func() {
			n := not("shape0", nEst, -1, 2*nEst)
			ov["shape0"], ov["n_estimators"] = n, n
		})
		if m.K > 1 {
			add("shape of the same size", func() {
				ov["shape0"], ov["shape1"] = nT, 1
				if nEst > 1 && nEst != m.K && rapid.Bool().Draw(t, "swap") {
					ov["shape0"], ov["shape1"] = m.K, nEst
				}
			})
		}
		add("n_estimators", func() { ov["n_estimators"] = not("nestim", nEst, -1, 2*nEst) })
		add("n_classes_", func() { ov["n_classes_"] = not("nclass", nc, -1, 2*nc) })
		add("n_classes_ and classes_", func() {
			k := not("nclass", nc, 1, 2*nc)
			ov["n_classes_"], ov["classes_"] = k, k
		})
		if m.K > 1 && nEst > 1 {
			add("column order", func() { ov["fortran"] = 1 })
		}
		add("list", func() { ov["list"] = not("list", nT, 0, 2*nT) })
		add("no estimators", func() { ov["list"], ov["shape0"], ov["n_estimators"] = 0, 0, 0 })
		add("init", func() {
			ovs["init"] = oneOf(t, "inits", []string{"ZeroEstimator", "QuantileEstimator", "MeanEstimator", "LogOddsEstimator2", "ScaledLogOddsEstimator", ""})
		})
		add("init module", func() {
			ovs["init.module"], ovs["init"] = "sklearn.dummy", oneOf(t, "inits", []string{"DummyClassifier", "DummyRegressor"})
		})
		if m.K > 1 {
			add("priors", func() { ov["priors"] = not("npriors", m.K, 0, 2*m.K) })
		}
	}
	e := edits[uni(t, "edit", len(edits))]
	e.f()
	c.What = e.name
	c.L.Ov, c.L.OvS = ov, ovs
	return c
}

// nearMiss is a name that is almost s.
func nearMiss(t *rapid.T, s string) string {
	i := uni(t, "missat", len(s))
	switch uni(t, "miss", 4) {
	case 0:
		return s[:len(s)-1]
	case 1:
		return s[:i] + s[i:i+1] + s[i:] // a doubled character
	case 2:
		if u := strings.ToUpper(s[:i+1]) + s[i+1:]; u != s {
			return u
		}
	}
	return s[1:]
}

func rejCheck(c *RejCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("%s %s", m.Fam, c.What)
	x.nontrivial()
	plain := c.L
	plain.Ov, plain.OvS = nil, nil
	if c.L.Ov["trees"] == 0 && c.What == "no trees" {
		plain.Trail = false
	}
	if _, err := loadBytes(m.Fam, m.bytesLay(&plain), false); err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	fam := m.Fam
	if c.Fam != "" {
		fam = c.Fam
	}
	b := m.bytesLay(&c.L)
	if c.Fam == "" && string(b) == string(m.bytesLay(&plain)) && !c.T {
		harnessFail("the edit %s %v %v changes nothing", c.What, c.L.Ov, c.L.OvS)
	}
	e, err := loadBytes(fam, b, c.T)
	if c.File {
		withFile(x, b, func(path string) { e, err = loadFile(fam, path, c.T) })
	}
	if err == nil {
		return verr("%s model with contradicting %s (%v %q) is loaded by the %s loader, transformation requested: %v", m.Fam, c.What, c.L.Ov, c.L.OvS, fam, c.T)
	}
	if e != nil {
		return verr("the loader returns a model and an error: %v", err)
	}
	return nil
}

func init() {
	register(Prop{ID: "C23", Quick: 100000, Thorough: 1200000, Rule: "rapid draws a well-formed model of any family in a drawn layout and one contradicting edit of a header, count, order or objective field (listed per family in p_rej.go); the unedited file must load, the edited one must give an error and no model. Every case is non-trivial: the harness fails if an edit leaves the file as it was."},
		genRej, rejCheck)
}

// withFile calls f with the name of a file of the given content.
func withFile(x *Ctx, b []byte, f func(path string)) {
	path := filepath.Join(x.dir, "model")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		harnessFail("%v", err)
	}
	defer os.Remove(path)
	f(path)
}
