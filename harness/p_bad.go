package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// ---------- C34 ----------

// BadTxt is a matrix text one of whose fields or rows is malformed.
type BadTxt struct {
	T    *TxtCase `json:"t"` // with the defect
	What string   `json:"what"`
	File bool     `json:"file"`
}

// words that no reader can take for a number
var noNumbers = []string{"abc", "x1", "1x", "1e", "--1", "1.2.3", "0xg", "nanx", "infi", "1e+", "e5", "_1", "1_", "é", "one", "1-2", "true", "NULL", "NA", "++1", "+-1", "-+2", "++2.5", "1+", "2-", "'1'", "(1)", "1%", "1e5.5", "infinit", "nan1", "in", "1e++5", "1..2", "0x", "-", "0x1", "1.5f", "$1", "+", ".", "0b2"}
var noPairs = []string{"5", "1:2:3", ":1", "1:", "a:1", "1:b", "-1:2", "1.5:2", "4294967296:1", "99999999999999999999:1", ":", "1:--2", "1:2x", "x", "1e1:2", "0x1:2", "::", "1:2:", "qid", "1=2", "1;2", "1:1.2.3", "nan:1"}

var noColumns = []string{"1.0", "2x", "x2", "0x3", "1_0", "--2", "-1", "+-1", "1e2", "nan", "inf", "1,", "18446744073709551616", "9223372036854775808", "4294967297", "é", "1-", ".5", "NA", "true"}

// noNumber draws a word that is not a number and does not contain delim.
func noNumber(t *rapid.T, delim string) string {
	w := oneOf(t, "badword", noNumbers)
	if delim != "" && strings.Contains(w, delim) {
		return "abc"
	}
	return w
}

func genBadTxt(t *rapid.T) *BadTxt {
	c := &BadTxt{T: genTxt(t), File: pct(t, "file", 10)}
	x := c.T
	// the defect may be beyond the limit, where it must not matter
	r := uni(t, "badrow", len(x.Rows))
	row := x.Rows[r]
	if x.Kind == "csv" {
		switch uni(t, "badkind", 4) {
		case 0, 1:
			c.What = "not a number"
			row[uni(t, "badcol", len(row))] = Field{S: noNumber(t, x.Delim), Bad: true}
		case 2:
			c.What = "a field more"
			x.Rows[r] = append(row[:len(row):len(row)], Field{S: "1"})
		case 3:
			c.What = "a field less"
			if len(row) > 1 {
				x.Rows[r] = row[:len(row)-1]
				if j := len(row) - 2; x.Rows[r][j].S == "" {
					x.Rows[r][j].S = "1" // the row must not become an empty line
				}
			} else {
				c.What = "not a number"
				row[0] = Field{S: noNumber(t, x.Delim), Bad: true}
			}
		}
		return c
	}
	c.What = "not a pair"
	bad := Field{S: oneOf(t, "badpair", noPairs), Bad: true}
	switch uni(t, "pairkind", 4) {
	case 0:
		bad.S = fmt.Sprintf("%d:%s", ir(t, "paircol", 0, 9), noNumber(t, ""))
	case 1:
		bad.S = oneOf(t, "badcolumn", noColumns) + ":1"
	}
	j := 0
	if len(row) > 0 {
		j = uni(t, "badcol", len(row))
	}
	if len(row) == 0 || pct(t, "insert", 40) {
		c.What = "a word between pairs"
		x.Rows[r] = append(append(row[:j:j], bad), row[j:]...)
	} else {
		row[j] = bad
	}
	return c
}

func badTxtCheck(c *BadTxt, x *Ctx) error {
	want := c.T.want()
	x.label("%s: %s", c.T.Kind, c.What)
	if want.err == nil {
		x.label("beyond the limit")
	} else {
		x.nontrivial()
	}
	text := c.T.text()
	var got *matFacts
	if c.File {
		path := filepath.Join(x.dir, "bad.txt")
		defer os.Remove(path)
		if err := os.WriteFile(path, text, 0o644); err != nil {
			harnessFail("%v", err)
		}
		got = c.T.load(nil, path)
	} else {
		got = c.T.load(bufio.NewReaderSize(bytes.NewReader(text), 16+len(text)%50), "")
	}
	if want.err == nil {
		if got.err != nil {
			return verr("%q is refused within the limit of %d rows: %v", trim(string(text), 400), c.T.Limit, got.err)
		}
		return want.differs(got)
	}
	if got.err == nil {
		return verr("malformed text (%s) %q, delimiter %q, limit %d, skip %v, is accepted", c.What, trim(string(text), 400), c.T.Delim, c.T.Limit, c.T.Skip)
	}
	if got.d != nil || got.s != nil {
		return verr("malformed text (%s) %q gives a matrix and an error", c.What, trim(string(text), 400))
	}
	return nil
}

// ---------- C35 ----------

// MalCase is a well-formed model with one malformed or missing piece.
type MalCase struct {
	M    *Model `json:"m"`
	L    Layout `json:"l"`
	What string `json:"what"`
	File bool   `json:"file,omitempty"`
	T    bool   `json:"t,omitempty"`
	// LightGBM: the section (-1 header), the key, and what happens to it
	Sec  int    `json:"sec"`
	Key  string `json:"key,omitempty"`
	Node int    `json:"node,omitempty"` // JSON: the node
	Leaf bool   `json:"leaf,omitempty"` // JSON: a leaf's field
	Op   string `json:"op,omitempty"`   // drop, set, del, add
	I    int    `json:"i,omitempty"`    // element
	V    string `json:"v,omitempty"`    // new value; JSON text for JSON models
}

var noInts = []string{"abc", "1x", "--1", "1.5", "1e2", "0x1", "99999999999999999999", "-99999999999999999999", "+-1", "one", "1,", "nan"}
var noUints = append([]string{"-1", "-5", "4294967296"}, noInts...)
var noInt32s = append([]string{"4294967296", "2147483648", "-2147483649"}, noInts...)
var noFloats = []string{"abc", "1x", "--1", "1,5", "1e", "0xg", "1.2.3", "nanx", "one", "-"}

func genMal(t *rapid.T) *MalCase {
	c := &MalCase{M: genModel(t, GenOpt{NoLay: true, Fams: []string{LGT, LGT, LGJ, LGJ, XGT, XGD, SKL, SKL}, BigPct: 3, MaxBig: 60, NoHugeNF: true, MaxEst: 3, CatPct: 35}), L: genLayout(t), File: pct(t, "file", 10), Sec: -1}
	m := c.M.prepare()
	c.T = m.canTransform() && pct(t, "tr", 30)
	at := uni(t, "tree", len(m.trees))
	tr := &m.trees[at]
	n := len(tr.S)
	// a link to an inner node that is reached another way, or to the root,
	// meets a link or closes a circle; what hangs on the old link is cut off
	link := func() (int, int) { return uni(t, "from", n), uni(t, "to", n) }
	feature := func() int {
		return oneOf(t, "feat", []int{m.NF, m.NF + 1, m.NF + 100, 1 << 20, math.MaxInt32})
	}
	switch m.Fam {
	case LGT:
		if pct(t, "header", 20) {
			c.Key = oneOf(t, "hkey", []string{"num_class", "num_tree_per_iteration", "max_feature_idx", "tree_sizes"})
			c.Op, c.V = "set", oneOf(t, "noint", noInts)
			if c.Key == "tree_sizes" || pct(t, "drop", 40) {
				c.Op = "drop"
			}
			c.What = "header " + c.Key + " " + c.Op
			return c
		}
		c.Sec = at
		keys := []string{"num_leaves", "num_cat", "leaf_value"}
		if n > 0 {
			keys = append(keys, "split_feature", "threshold", "decision_type", "left_child", "right_child", "left_child", "right_child", "split_feature")
		}
		var cats []int
		for j := range tr.S {
			if tr.S[j].cat() {
				cats = append(cats, j)
			}
		}
		if len(cats) > 0 {
			keys = append(keys, "cat_boundaries", "cat_threshold", "cat_boundaries", "cat_threshold", "threshold")
		}
		c.Key = oneOf(t, "key", keys)
		size := map[string]int{"num_leaves": 1, "num_cat": 1, "leaf_value": len(tr.V), "cat_boundaries": len(cats) + 1}[c.Key]
		if size == 0 {
			size = n
		}
		if c.Key == "cat_threshold" {
			size = 0
			for _, j := range cats {
				size += len(bitset(tr.S[j].C))
			}
		}
		c.I = uni(t, "elem", size)
		c.Op = oneOf(t, "op", []string{"drop", "empty", "del", "add", "set", "set", "set", "own", "own", "own"})
		if c.Key == "cat_threshold" && c.Op == "add" || (c.Key == "num_cat" || c.Key == "num_leaves") && (c.Op == "del" || c.Op == "add") {
			c.Op = "set"
		}
		if c.Key == "decision_type" && c.Op == "drop" {
			c.Op = "set" // LightGBM itself does not need it
		}
		if c.Op == "own" {
			c.Op = "set"
			switch c.Key {
			case "num_leaves":
				c.V = strconv.Itoa(len(tr.V) + oneOf(t, "d", []int{-1, 1, 2, 100, -len(tr.V), -len(tr.V) - 1, 1 << 30}))
				if n == 0 && c.V == "0" {
					c.V = "-1"
				}
			case "num_cat":
				c.V = oneOf(t, "noint", noInts)
				if len(cats) > 0 {
					c.V = strconv.Itoa(len(cats) + oneOf(t, "d", []int{-1, 1, 2, 100, 1 << 30}))
				}
			case "split_feature":
				c.V = strconv.Itoa(feature())
			case "left_child", "right_child":
				from, to := link()
				c.I = from
				other, own := tr.S[from].R, tr.S[from].L
				if c.Key == "right_child" {
					other, own = own, other
				}
				switch uni(t, "linkkind", 4) {
				case 0:
					for below := to; own >= 0 && below >= own; below = parentOf(tr, below) {
						if below == own {
							to = 0
							break
						}
					}
					c.V = strconv.Itoa(to)
				case 1:
					c.V = strconv.Itoa(from)
				case 2:
					c.V = strconv.Itoa(n + uni(t, "beyond", 3))
					if other >= 0 && rapid.Bool().Draw(t, "both") {
						c.V = strconv.Itoa(other)
					}
				case 3:
					c.V = strconv.Itoa(^(len(tr.V) + oneOf(t, "beyond", []int{0, 1, 2, 1000, 1 << 20})))
				}
			case "decision_type":
				c.V = oneOf(t, "nodec", []string{"12", "14", "13", "15"})
			case "threshold":
				c.V = oneOf(t, "nofloat", noFloats)
				if len(cats) > 0 {
					c.I = oneOf(t, "cat", cats)
					c.V = strconv.Itoa(oneOf(t, "noset", []int{-1, -2, len(cats), len(cats) + 1, 1000, 1 << 31}))
				}
			case "leaf_value":
				c.V = oneOf(t, "nofloat", noFloats)
			case "cat_boundaries":
				// one set ends before it begins, or behind all words
				c.I = 1 + uni(t, "bound", len(cats))
				words := 0
				for _, j := range cats {
					words += len(bitset(tr.S[j].C))
				}
				c.V = strconv.Itoa(words + 1 + uni(t, "beyond", 3))
				if c.I > 1 && rapid.Bool().Draw(t, "decreasing") {
					c.V = "0"
				}
			case "cat_threshold":
				c.Op = "zero" // a set without categories
				w, k := 0, uni(t, "which", len(cats))
				for i := 0; i < k; i++ {
					w += len(bitset(tr.S[cats[i]].C))
				}
				c.I = w
				c.Node = len(bitset(tr.S[cats[k]].C))
			}
		} else if c.Op == "set" {
			switch c.Key {
			case "num_leaves", "num_cat":
				c.V = oneOf(t, "noint", noInts)
			case "leaf_value", "threshold":
				c.V = oneOf(t, "nofloat", noFloats)
			case "left_child", "right_child":
				c.V = oneOf(t, "noint32", noInt32s)
			default:
				c.V = oneOf(t, "nouint", noUints)
			}
		}
		c.What = "tree " + c.Key + " " + c.Op
	case LGJ:
		c.L.Extra, c.L.Trail = false, false
		js := func(vals ...string) { c.Op, c.V = "set", oneOf(t, "json", vals) }
		switch uni(t, "level", 4) {
		case 0:
			c.Key = oneOf(t, "jkey", []string{"num_class", "num_tree_per_iteration", "max_feature_idx", "tree_info", "version", "name"})
			switch c.Key {
			case "tree_info":
				js(`{}`, `"x"`, `3`, `true`, `[3]`, `["x"]`, `[[]]`, `[null]`)
			case "version", "name":
				js(`2`, `["v2"]`, `{}`, `true`)
			default:
				js(`"1"`, `1.5`, `[]`, `{}`, `true`, `1e30`)
			}
			if pct(t, "absent", 40) {
				js(`null`)
				if rapid.Bool().Draw(t, "drop") {
					c.Op = "drop"
				}
			}
			c.What = "top level " + c.Key + " " + c.Op
			return c
		case 1:
			c.Sec, c.Node = at, -1
			c.Key = oneOf(t, "jkey", []string{"num_leaves", "num_leaves", "num_cat", "tree_structure", "tree_structure"})
			c.Op = "drop"
			switch c.Key {
			case "num_leaves":
				if n > 0 && rapid.Bool().Draw(t, "count") {
					js(strconv.Itoa(len(tr.V)+1), strconv.Itoa(len(tr.V)-1), "0", "-1", "1", "1000000")
				} else if rapid.Bool().Draw(t, "type") {
					js(`"1"`, `1.5`, `[]`, `{}`, `true`)
				}
			case "num_cat":
				js(`"1"`, `1.5`, `[]`, `{}`, `true`, `-1`)
			case "tree_structure":
				if rapid.Bool().Draw(t, "type") {
					js(`3`, `"x"`, `[]`, `null`, `{}`, `true`)
				}
			}
			c.What = "tree " + c.Key + " " + c.Op
			return c
		}
		c.Sec = at
		if n == 0 || pct(t, "leaf", 30) {
			c.Leaf, c.Node, c.Key, c.Op = true, uni(t, "leafn", len(tr.V)), "leaf_value", "drop"
			if rapid.Bool().Draw(t, "type") {
				js(`"1.5"`, `null`, `true`, `[]`, `{}`, `1e999`)
			}
			c.What = "leaf_value " + c.Op
			return c
		}
		c.Node = uni(t, "noden", n)
		s := &tr.S[c.Node]
		c.Key = oneOf(t, "jkey", []string{"left_child", "right_child", "threshold", "threshold", "decision_type", "missing_type", "split_feature", "default_left"})
		c.Op = "drop"
		typ := rapid.Bool().Draw(t, "type")
		switch {
		case !typ:
		case c.Key == "split_feature":
			js(`"a"`, `null`, `-1`, `1.5`, `4294967296`, `[]`, strconv.Itoa(feature()))
		case c.Key == "default_left":
			js(`"true"`, `null`, `1`, `[]`, `{}`)
		case c.Key == "left_child" || c.Key == "right_child":
			js(`3`, `"x"`, `[]`, `null`, `{}`, `true`)
		case c.Key == "decision_type":
			js(`""`, `"<"`, `"==="`, `">="`, `"no"`, `1`, `[]`, `null`)
		case c.Key == "missing_type":
			js(`""`, `"nan"`, `"NONE"`, `"zero"`, `1`, `[]`, `null`)
		case s.cat():
			js(`1`, `null`, `""`, `"x"`, `"1||"`, `"||1"`, `"1||x||2"`, `"-1"`, `"-1||2"`, `"1.5||2"`, `"1|2"`, `"1, 2"`, `"99999999999"`, `[]`, `[1,2]`)
		default:
			js(`"1"`, `null`, `true`, `[]`, `{}`, `"x"`, `1e999`)
		}
		c.What = "node " + c.Key + " " + c.Op
	case XGT, XGD:
		ov := map[string]int{"at": at, "node": 0}
		c.L.Ov = ov
		if n == 0 {
			ov["tree.roots"] = 0
			c.What = "no root"
			return c
		}
		if rapid.Bool().Draw(t, "inner") {
			c.L.Deleted, c.L.Order = false, false
		}
		plain := !c.L.Deleted && !c.L.Order
		nodes := xgNodes(tr, newRng(1), &Layout{})
		var inner []int
		for i := range nodes {
			if !nodes[i].leaf {
				inner = append(inner, i)
			}
		}
		from := 0
		if plain {
			from = oneOf(t, "node", inner)
			ov["node"] = from
		}
		side := oneOf(t, "side", []string{"left", "right"})
		kind := uni(t, "xgkind", 6)
		switch {
		case kind == 0:
			ov[side] = len(nodes)*4 + 10 + uni(t, "beyond", 1000) // more than any layout has
			c.What = "link beyond the nodes"
			if plain && rapid.Bool().Draw(t, "near") {
				ov[side] = len(nodes)
			}
		case kind == 1:
			ov[side], c.What = 0, "link to the root"
		case kind == 2 && plain:
			// a node that has another parent
			to := 1 + uni(t, "to", len(nodes)-1)
			own := nodes[from].l
			if side == "right" {
				own = nodes[from].r
			}
			for below := to; below > 0; below = nodes[below].parent {
				if below == own {
					to = 0
					break
				}
			}
			ov[side], c.What = to, "link to a node of another parent"
		case kind == 3:
			ov["right"], c.What = -1, "one child"
		case kind == 4:
			ov[side], c.What = -2-uni(t, "neg", 5), "negative link"
		default:
			ov["feat"], c.What = feature(), "feature"
		}
	case SKL:
		c.L.Ov, c.L.OvS = map[string]int{}, map[string]string{}
		bad := func(k string) {
			c.L.OvS[k] = dropKey
			c.What = k + " dropped"
			if rapid.Bool().Draw(t, "type") {
				c.L.OvS[k] = oneOf(t, "pystr", []string{"x", "", "1", "1.5"})
				c.What = k + " of another type"
			}
		}
		switch kind := uni(t, "skkind", 4); {
		case kind == 0:
			bad("top." + oneOf(t, "attr", []string{"n_classes_", "learning_rate", "init_", "n_features_", "n_estimators", "estimators_", "classes_"}))
		case kind == 1:
			c.L.Ov["at"] = at
			bad(oneOf(t, "attr", []string{"tree.tree_", "ts.node_count", "ts.nodes", "ts.values"}))
		case kind == 2 && rapid.Bool().Draw(t, "prior"):
			if m.K == 1 {
				bad("init.prior")
			} else {
				bad("init.priors")
			}
		default:
			ov := c.L.Ov
			ov["at"] = at
			if n == 0 || pct(t, "sizes", 25) {
				k := oneOf(t, "count", []string{"count", "nodes", "values"})
				total := len(tr.V) + n
				ov[k] = total + oneOf(t, "d", []int{-1, 1, 2, -total, 100})
				if k == "nodes" && ov[k] > total {
					ov[k] = total - 1
				}
				c.What = "number of " + k
				return c
			}
			c.L.Order = false
			nodes := skNodes(tr, newRng(1), &Layout{})
			var inner []int
			for i := range nodes {
				if nodes[i].l >= 0 {
					inner = append(inner, i)
				}
			}
			from := oneOf(t, "node", inner)
			ov["node"] = from
			side := oneOf(t, "side", []string{"left", "right"})
			switch uni(t, "linkkind", 5) {
			case 0:
				ov[side], c.What = len(nodes)+oneOf(t, "beyond", []int{0, 1, 1000, 1 << 40}), "link beyond the nodes"
			case 1:
				ov[side], c.What = oneOf(t, "back", []int{0, from}), "link back"
			case 2:
				to := 1 + uni(t, "to", len(nodes)-1)
				own := nodes[from].l
				if side == "right" {
					own = nodes[from].r
				}
				parent := make([]int, len(nodes))
				for i := range nodes {
					if nodes[i].l >= 0 {
						parent[nodes[i].l], parent[nodes[i].r] = i, i
					}
				}
				for below := to; below > 0; below = parent[below] {
					if below == own {
						to = 0
						break
					}
				}
				ov[side], c.What = to, "link to a node of another parent"
			case 3:
				ov[side], c.What = -1, "one child"
			case 4:
				ov["feat"], c.What = oneOf(t, "feature", []int{feature(), -1, -2, 1 << 32, 1<<32 + 1}), "feature"
			}
		}
	}
	return c
}

func parentOf(t *Tree, i int) int {
	for j := range t.S {
		if t.S[j].L == i || t.S[j].R == i {
			return j
		}
	}
	return -1
}

// edited is the file with the defect.
func (c *MalCase) edited() []byte {
	m := c.M
	switch m.Fam {
	case LGT:
		lines := strings.Split(string(m.bytesLay(&c.L)), "\n")
		sec, started := -1, false
		for i, s := range lines {
			s = strings.TrimSuffix(s, "\r")
			if strings.HasPrefix(s, "Tree=") {
				sec++
				started = true
			} else if s == "" && started && sec < 0 {
				started = false // the header is over
			} else if s == "tree" {
				started = true
			}
			if sec != c.Sec || !started || !strings.HasPrefix(s, c.Key+"=") {
				continue
			}
			val := strings.TrimPrefix(s, c.Key+"=")
			elems := strings.Split(val, " ")
			k := c.I % len(elems)
			switch c.Op {
			case "drop":
				return []byte(strings.Join(append(lines[:i:i], lines[i+1:]...), "\n"))
			case "empty":
				elems = []string{""}
			case "del":
				elems = append(elems[:k:k], elems[k+1:]...)
			case "add":
				elems = append(elems, elems[k])
			case "set":
				elems[k] = c.V
			case "zero":
				for j := k; j < k+c.Node && j < len(elems); j++ {
					elems[j] = "0"
				}
			}
			lines[i] = strings.Replace(lines[i], s, c.Key+"="+strings.Join(elems, " "), 1)
			return []byte(strings.Join(lines, "\n"))
		}
		harnessFail("no %s in section %d", c.Key, c.Sec)
	case LGJ:
		return c.editedJSON()
	}
	return m.bytesLay(&c.L)
}

func (c *MalCase) editedJSON() []byte {
	m := c.M
	r := newRng(c.L.Seed)
	var top map[string]any
	d := json.NewDecoder(bytes.NewReader(m.bytesLay(&c.L)))
	d.UseNumber()
	if err := d.Decode(&top); err != nil {
		harnessFail("%v", err)
	}
	o := top
	if c.Sec >= 0 {
		o = top["tree_info"].([]any)[c.Sec].(map[string]any)
		if c.Node >= 0 {
			o = o["tree_structure"].(map[string]any)
			t := &m.trees[c.Sec]
			// the path to the node: parents have smaller numbers
			to := c.Node
			if c.Leaf {
				to = ^c.Node
			}
			var path []string
			for to != 0 && !(to == ^0 && len(t.S) == 0) {
				found := false
				for i := range t.S {
					if t.S[i].L == to {
						path, to, found = append(path, "left_child"), i, true
						break
					}
					if t.S[i].R == to {
						path, to, found = append(path, "right_child"), i, true
						break
					}
				}
				if !found {
					harnessFail("no node %d", to)
				}
			}
			for i := len(path) - 1; i >= 0; i-- {
				o = o[path[i]].(map[string]any)
			}
		}
	}
	if _, ok := o[c.Key]; !ok {
		harnessFail("no %s", c.Key)
	}
	if c.Op == "drop" {
		delete(o, c.Key)
	} else {
		o[c.Key] = json.RawMessage(c.V)
	}
	_ = r
	b, err := json.Marshal(top)
	if err != nil {
		// 1e999 and the like are valid JSON
		harnessFail("%v", err)
	}
	return b
}

func malCheck(c *MalCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("%s %s", m.Fam, c.What)
	x.nontrivial()
	plain := c.L
	plain.Ov, plain.OvS = nil, nil
	good := m.bytesLay(&plain)
	if _, err := loadBytes(m.Fam, good, c.T); err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	b := c.edited()
	if bytes.Equal(b, good) {
		harnessFail("the edit %s changes nothing", c.What)
	}
	e, err := loadBytes(m.Fam, b, c.T)
	if c.File {
		withFile(x, b, func(path string) { e, err = loadFile(m.Fam, path, c.T) })
	}
	if err == nil {
		return verr("%s model with malformed %s (section %d, element %d, %s %q, %v %q) is loaded", m.Fam, c.What, c.Sec, c.I, c.Op, c.V, c.L.Ov, c.L.OvS)
	}
	if e != nil {
		return verr("the loader returns a model and an error: %v", err)
	}
	return nil
}

func init() {
	register(Prop{ID: "C34", Quick: 192000, Thorough: 4000000, Rule: "rapid draws a CSV or libsvm text as C27 and C28 do and makes one field of one row malformed (a word that is not a number, a pair without column, value or colon, a column that is not in 0..2^32-1, a field more or less than the other rows); reading it must give an error and no matrix, or, if the row lies beyond the limit, the rows before it. Non-trivial: the row is within the limit."},
		genBadTxt, badTxtCheck)
	register(Prop{ID: "C35", Quick: 80000, Thorough: 1500000, Rule: fmt.Sprint("rapid draws a well-formed model in a drawn layout and one edit: a required field dropped, emptied, not of its type or with elements missing or added, a link that leaves the tree, meets another or closes a circle, a split on a missing feature, a category set that is empty or outside the stored words. The unedited file must load, the edited one must give an error and no model. Every case is non-trivial: the harness fails if an edit leaves the file as it was.")},
		genMal, malCheck)
}
