package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/dmitryikh/leaves/mat"
	"pgregory.net/rapid"
)

// TxtCase is a matrix text, given by its fields.
type TxtCase struct {
	Kind  string    `json:"kind"` // csv, svm (sparse), svmd (dense)
	Rows  [][]Field `json:"rows"`
	Delim string    `json:"delim,omitempty"`
	Skip  bool      `json:"skip,omitempty"`
	Label []string  `json:"label,omitempty"` // first column, when it is skipped
	Limit int       `json:"limit,omitempty"`
	Def   F         `json:"def,omitempty"`
	CRLF  bool      `json:"crlf,omitempty"`
	NoEnd bool      `json:"noend,omitempty"` // no line end after the last line
	Sep   []int     `json:"sep,omitempty"`   // what stands between libsvm pairs: so many spaces, 4..6 a tab
	More  int       `json:"more,omitempty"`  // further copies of the rows
	Wide  int       `json:"wide,omitempty"`  // further fields of every row
	Pad   []string  `json:"pad,omitempty"`   // blanks before and after the lines
}

// Field is a value as text, and its column in libsvm texts.
type Field struct {
	C int    `json:"c,omitempty"`
	S string `json:"s"` // "" in CSV: no value
	// malformed: S is written as it is
	Bad bool `json:"bad,omitempty"`
}

var delims = []string{",", "\t", ";", "|", " ", "::", ", ", ":", "\t\t", "аб", "||", "§", "%", "%d", "%%", "\\", "\\d", "*", ".*", "^", "$|", "(", "[^", "~", "\"", "#", "\x00"}
var valTexts = []string{"0", "1", "-1", "+1", "1.5", "-0", "1e5", "1E-3", "-2.25e+10", ".5", "5.", "0x1p-2", "inf", "-Inf", "NaN", "nan", "+infinity", "1e-320", "4.9406564584124654e-324", "1.7976931348623157e308", "000123.4500", "123456789012345678901234567890", "0.1", "1_000.5"}

func genValText(t *rapid.T) string {
	if uni(t, "longval", 512) == 200 {
		// more digits than any fixed buffer takes
		n := oneOf(t, "longdigits", []int{40, 64, 70, 130, 260, 320, 1030, 5000})
		d := strings.Repeat(oneOf(t, "longdigit", []string{"0", "1", "3", "9", "07"}), n)[:n]
		pre := oneOf(t, "longpre", []string{"0.", "1.", "00", "12.5", "7"})
		if n > 290 && d[n-1] != '0' && !strings.Contains(pre, ".") {
			pre = "0."
		}
		if pre == "7" && n > 290 {
			pre = "0"
		}
		return oneOf(t, "longsign", []string{"", "-", "+"}) + pre + d + oneOf(t, "longend", []string{"5", "1", "5e-30", "2e3"})
	}
	if pct(t, "random", 40) {
		return strconv.FormatFloat(rapid.Float64().Draw(t, "valf"), oneOf(t, "fmt", []byte{'g', 'e', 'g'}), -1, 64)
	}
	s := oneOf(t, "valtext", valTexts)
	if s == "1_000.5" {
		return "1000.5"
	}
	return s
}

var labels = []string{"0", "1", "-1", "3.5", "abc", "label", "1e3", "x=y", "имя"}

// svmLabels also has labels that look like pairs.
var svmLabels = append([]string{"1:2", "0:0.5", "3:1", "qid:7", ":", "1:2:3", "1,2"}, labels...)

func genTxt(t *rapid.T) *TxtCase {
	c := &TxtCase{Kind: oneOf(t, "txtkind", []string{"csv", "csv", "svm", "svmd"})}
	c.Limit = oneOf(t, "limit", []int{0, 0, 0, 1, 2, 3, 100, -1})
	c.CRLF, c.NoEnd = pct(t, "crlf", 25), pct(t, "noend", 30)
	c.Skip = rapid.Bool().Draw(t, "skip")
	nrows := ir(t, "nrows", 1, 6)
	if pct(t, "manyrows", 6) {
		c.More = ir(t, "more", 1, 400)
	}
	cols := ir(t, "cols", 1, 7)
	if pct(t, "widemat", 4) {
		cols = ir(t, "widecols", 50, 900)
		nrows = min(nrows, 2)
	}
	if c.Kind == "svmd" && c.Skip && pct(t, "labelsonly", 4) {
		cols = 0
	}
	if c.Kind == "csv" {
		c.Delim = oneOf(t, "delim", delims)
		c.Def = F(oneOf(t, "def", []float64{0, -1, math.NaN(), 7.5, math.Inf(1)}))
	}
	for i := 0; i < nrows; i++ {
		var row []Field
		n := cols
		col := 0
		if c.Kind == "svm" {
			lo := 0 // a label alone is a row without pairs
			if !c.Skip {
				lo = 1
			}
			if n = ir(t, "svmcols", lo, max(lo, min(cols, 6))); cols > 40 {
				n = cols
			}
		}
		for j := 0; j < n; j++ {
			f := Field{S: "1"}
			if cols < 40 {
				f.S = genValText(t)
			} else {
				f.S = strconv.Itoa(i*j%977 - 40)
			}
			if c.Kind == "csv" && cols > 1 && pct(t, "empty", 25) {
				f.S = ""
			}
			if c.Kind == "csv" && cols == 1 && c.Skip && pct(t, "empty1", 25) {
				f.S = ""
			}
			switch c.Kind {
			case "svmd":
				f.C = j
			case "svm":
				switch uni(t, "colkind", 4) {
				case 0:
					col += ir(t, "step", 0, 9)
				case 1:
					col = oneOf(t, "coledge", []int{0, 1, 65535, 1 << 20, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32})
				case 2:
					col = ir(t, "colany", 0, 100)
				}
				col = min(col, math.MaxUint32)
				f.C = col
				col = min(col+1, math.MaxUint32)
			}
			row = append(row, f)
		}
		c.Rows = append(c.Rows, row)
		if c.Skip {
			from := labels
			if c.Kind != "csv" {
				from = svmLabels
			}
			c.Label = append(c.Label, oneOf(t, "label", from))
		}
	}
	if c.Kind == "csv" && cols == 1 && c.Skip {
		// an empty first column is a value like others
		if pct(t, "nolabel", 10) && c.Rows[0][0].S != "" {
			c.Label[0] = ""
		}
	}
	for i := 0; i < 5; i++ {
		c.Sep = append(c.Sep, oneOf(t, "sep", []int{1, 1, 1, 1, 1, 2, 3, 4, 5, 6}))
	}
	switch k := uni(t, "verywide", 1<<10); {
	case k >= 1<<10-3:
		// lines longer than any fixed buffer
		c.Wide = oneOf(t, "verywidecols", []int{1000, 9000, 16500, 33000, 70000})
		c.More = 0
	case k == 1<<9 && cols < 8:
		// more rows than 16 bits count
		c.More = oneOf(t, "verytall", []int{5000, 33000, 65535, 66000, 70000})
		c.Limit = oneOf(t, "talllimit", []int{0, 0, 0, 300, 40000, 65535, 65536, 65537, 66000})
	}
	if pct(t, "padded", 10) {
		for i := 0; i < 4; i++ {
			c.Pad = append(c.Pad, oneOf(t, "pad", []string{"", "", " ", "  ", "\t", " \t "}))
		}
	}
	// a denser reader refuses rows that do not fit
	if c.Kind == "svmd" && pct(t, "unfit", 40) {
		r := uni(t, "unfitrow", len(c.Rows))
		row := c.Rows[r]
		kind, j := 3, 0
		if len(row) > 0 {
			kind, j = uni(t, "unfitkind", 5), uni(t, "unfitcol", len(row))
		}
		switch kind {
		case 0:
			row[j].C++
		case 1:
			row[j].C = uni(t, "unfitto", 10)
		case 2:
			if len(row) > 1 || c.Skip {
				c.Rows[r] = row[:len(row)-1]
			}
		case 3:
			c.Rows[r] = append(row, Field{C: len(row), S: "1"})
		case 4:
			k := uni(t, "unfitcol2", len(row))
			row[j], row[k] = row[k], row[j]
		}
	}
	return c
}

// lines returns the rows, copies included.
func (c *TxtCase) allRows() ([][]Field, []string) {
	rows, lab := c.Rows[:len(c.Rows):len(c.Rows)], c.Label[:len(c.Label):len(c.Label)]
	for i := 0; i < c.More; i++ {
		rows = append(rows, c.Rows[i%len(c.Rows)])
		if c.Skip {
			lab = append(lab, c.Label[i%len(c.Label)])
		}
	}
	if c.Wide > 0 {
		rows = append([][]Field{}, rows...)
		for i, r := range rows {
			r = append(make([]Field, 0, len(r)+c.Wide), r...)
			for j := 0; j < c.Wide; j++ {
				r = append(r, Field{C: len(r), S: strconv.Itoa((i+1)*j%1999 - 99)})
			}
			rows[i] = r
		}
	}
	return rows, lab
}

// pad is what stands before or after the i-th line.
func (c *TxtCase) pad(i int) string {
	if len(c.Pad) == 0 {
		return ""
	}
	s := c.Pad[i%len(c.Pad)]
	if c.Kind == "csv" && strings.ContainsAny(c.Delim, s) {
		return ""
	}
	return s
}

func (c *TxtCase) text() []byte {
	var b bytes.Buffer
	rows, lab := c.allRows()
	k := 0
	for i, row := range rows {
		var parts []string
		if c.Skip {
			parts = append(parts, lab[i])
		}
		for _, f := range row {
			if c.Kind == "csv" || f.Bad {
				parts = append(parts, f.S)
			} else {
				parts = append(parts, fmt.Sprintf("%d:%s", f.C, f.S))
			}
		}
		b.WriteString(c.pad(2 * i))
		for j, p := range parts {
			if j > 0 {
				if c.Kind == "csv" {
					b.WriteString(c.Delim)
				} else {
					if n := c.Sep[k%len(c.Sep)]; n >= 4 {
						b.WriteString(strings.Repeat(" ", n-4) + "\t")
					} else {
						b.WriteString(strings.Repeat(" ", n))
					}
					k++
				}
			}
			b.WriteString(p)
		}
		b.WriteString(c.pad(2*i + 1))
		if i+1 < len(rows) || !c.NoEnd {
			if c.CRLF {
				b.WriteByte('\r')
			}
			b.WriteByte('\n')
		}
	}
	return b.Bytes()
}

func (c *TxtCase) load(r *bufio.Reader, path string) *matFacts {
	f := &matFacts{}
	switch {
	case c.Kind == "csv" && r != nil:
		f.d, f.err = mat.DenseMatFromCsv(r, c.Limit, c.Skip, c.Delim, float64(c.Def))
	case c.Kind == "csv":
		f.d, f.err = mat.DenseMatFromCsvFile(path, c.Limit, c.Skip, c.Delim, float64(c.Def))
	case c.Kind == "svm" && r != nil:
		f.s, f.err = mat.CSRMatFromLibsvm(r, c.Limit, c.Skip)
	case c.Kind == "svm":
		f.s, f.err = mat.CSRMatFromLibsvmFile(path, c.Limit, c.Skip)
	case r != nil:
		f.d, f.err = mat.DenseMatFromLibsvm(r, c.Limit, c.Skip)
	default:
		f.d, f.err = mat.DenseMatFromLibsvmFile(path, c.Limit, c.Skip)
	}
	return f
}

// want is what reading the text has to give.
func (c *TxtCase) want() *matFacts {
	rows, _ := c.allRows()
	if c.Limit > 0 && len(rows) > c.Limit {
		rows = rows[:c.Limit]
	}
	val := func(s string) float64 {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil {
			harnessFail("value %q: %v", s, err)
		}
		return v
	}
	f := &matFacts{}
	for _, r := range rows {
		for _, x := range r {
			if x.Bad {
				f.err = errors.New("malformed")
				return f
			}
		}
	}
	if c.Kind == "svm" {
		f.s = &mat.CSRMat{RowHeaders: []int{0}}
		for _, r := range rows {
			for _, x := range r {
				f.s.ColIndexes = append(f.s.ColIndexes, x.C)
				f.s.Values = append(f.s.Values, val(x.S))
			}
			f.s.RowHeaders = append(f.s.RowHeaders, len(f.s.Values))
		}
		return f
	}
	f.d = &mat.DenseMat{Rows: len(rows), Cols: len(rows[0])}
	for _, r := range rows {
		if len(r) != len(rows[0]) {
			f.err = errors.New("ragged")
		}
		for j, x := range r {
			if c.Kind == "svmd" && x.C != j {
				f.err = errors.New("columns")
			}
			v := float64(c.Def)
			if x.S != "" {
				v = val(x.S)
			}
			f.d.Values = append(f.d.Values, v)
		}
	}
	if f.err != nil {
		f.d = nil
	}
	return f
}

// ---------- C27, C28 ----------

// CsvCase is a matrix to write and read, and a text to read.
type CsvCase struct {
	Txt   *TxtCase `json:"txt"`
	Rows  int      `json:"rows"`
	V     []F      `json:"v"`
	Delim string   `json:"delim"`
	Limit int      `json:"limit"`
	File  bool     `json:"file"`
	Times int      `json:"times,omitempty"` // further copies of the rows
}

var specialF = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1. / 3, math.NaN(), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, 2.2250738585072014e-308, 2.225073858507201e-308, 1e22, 1e23, 9007199254740993, 123456.789, 1e-7, 4.35, 0.30000000000000004, 1<<53 + 1, 1e16, 12345678901234567890}

func genCsv(t *rapid.T) *CsvCase {
	c := &CsvCase{}
	for {
		c.Txt = genTxt(t)
		if c.Txt.Kind == "csv" {
			break
		}
		c.Txt = nil
		break
	}
	c.Rows = ir(t, "wrows", 1, 6)
	cols := ir(t, "wcols", 1, 6)
	if pct(t, "wlong", 3) {
		c.Rows = ir(t, "wrowslong", 100, 400)
		cols = ir(t, "wcolslong", 1, 20)
		g := newRng(rapid.Uint64().Draw(t, "wseed"))
		for i := 0; i < c.Rows*cols; i++ {
			v := math.Float64frombits(g.U64())
			c.V = append(c.V, F(v))
		}
	} else {
		for i := 0; i < c.Rows*cols; i++ {
			switch uni(t, "wkind", 3) {
			case 0:
				c.V = append(c.V, F(oneOf(t, "wspec", specialF)))
			case 1:
				c.V = append(c.V, F(math.Float64frombits(rapid.Uint64().Draw(t, "wbits"))))
			case 2:
				c.V = append(c.V, F(rapid.Float64().Draw(t, "wf")))
			}
		}
	}
	c.Delim = oneOf(t, "wdelim", delims)
	c.Limit = oneOf(t, "wlimit", []int{0, 0, -1, 1, 2, 1000})
	c.File = pct(t, "wfile", 30)
	if uni(t, "wtall", 1<<11) >= 1<<11-2 && len(c.V) < 40 {
		c.Times = oneOf(t, "wtimes", []int{1000, 12000, 33000, 66000, 70000})
		c.Limit = oneOf(t, "wtalllimit", []int{0, 0, 0, 65535, 65536, 65537})
	}
	return c
}

func csvCheck(c *CsvCase, x *Ctx) error {
	if len(c.V) == 0 || c.Rows < 1 || len(c.V)%c.Rows != 0 {
		return nil
	}
	cols := len(c.V) / c.Rows
	if c.Times > 0 {
		// full rows, so that the whole has about Times of them
		cc := *c
		cc.V = make([]F, 0, len(c.V)+c.Times*cols)
		cc.V = append(cc.V, c.V...)
		for i := 0; i < c.Times*cols; i++ {
			cc.V = append(cc.V, c.V[i%len(c.V)])
		}
		cc.Rows, cc.Times = c.Rows+c.Times, 0
		x.label("more than 1000 rows written")
		return csvCheck(&cc, x)
	}
	m := mat.DenseMat{Values: fs(c.V), Rows: c.Rows, Cols: cols}
	orig := append([]float64{}, m.Values...)
	x.label("delimiter %q", c.Delim)
	odd := false
	for _, v := range m.Values {
		if math.IsNaN(v) || math.IsInf(v, 0) || v != math.Trunc(v) {
			odd = true
		}
	}
	x.nontrivialIf(odd)
	var got *mat.DenseMat
	var err error
	if c.File {
		x.label("through a file")
		path := filepath.Join(x.dir, "m.csv")
		defer os.Remove(path)
		os.WriteFile(path, bytes.Repeat([]byte("9,9\n"), 30), 0o644)
		if err := m.ToCsvFile(path, c.Delim); err != nil {
			return verr("writing a %dx%d matrix fails: %v", c.Rows, cols, err)
		}
		got, err = mat.DenseMatFromCsvFile(path, c.Limit, false, c.Delim, 42)
	} else {
		var b bytes.Buffer
		if err := m.WriteStr(&b, c.Delim); err != nil {
			return verr("writing a %dx%d matrix fails: %v", c.Rows, cols, err)
		}
		got, err = mat.DenseMatFromCsv(bufio.NewReader(&b), c.Limit, false, c.Delim, 42)
	}
	if err != nil {
		return verr("what was written with delimiter %q can't be read: %v", c.Delim, err)
	}
	want := &matFacts{d: &mat.DenseMat{Values: orig, Rows: c.Rows, Cols: cols}}
	if c.Limit > 0 && c.Limit < c.Rows {
		want.d.Rows = c.Limit
		want.d.Values = orig[:c.Limit*cols]
	}
	if err := want.differs(&matFacts{d: got}); err != nil {
		return verr("written with delimiter %q and read again: %v", c.Delim, err)
	}
	for i := range orig {
		if math.Float64bits(orig[i]) != math.Float64bits(m.Values[i]) {
			return verr("writing changes value %d", i)
		}
	}
	if c.Txt != nil {
		x.label("text read")
		return txtCheck(c.Txt, x)
	}
	return nil
}

func txtCheck(c *TxtCase, x *Ctx) error {
	text := c.text()
	want := c.want()
	got := c.load(bufio.NewReader(bytes.NewReader(text)), "")
	if want.err != nil {
		x.label("dense reader must refuse")
		if got.err == nil {
			return verr("%q is accepted as a dense matrix", trim(string(text), 500))
		}
		return nil
	}
	if got.err != nil {
		return verr("%q is refused: %v", trim(string(text), 500), got.err)
	}
	if err := want.differs(got); err != nil {
		return verr("%q (limit %d, skip %v): expected and read %v", trim(string(text), 500), c.Limit, c.Skip, err)
	}
	return got.consistent()
}

func genSvm(t *rapid.T) *TxtCase {
	for i := 0; ; i++ {
		if c := genTxt(t); c.Kind != "csv" || i > 3 {
			return c
		}
	}
}

func svmCheck(c *TxtCase, x *Ctx) error {
	x.label("kind=%s", c.Kind)
	n := 0
	for _, r := range c.Rows {
		n += len(r)
	}
	x.nontrivialIf(len(c.Rows) > 1 && n > 2 && c.Kind != "csv")
	if c.Limit > 0 && c.Limit < len(c.Rows) {
		x.label("limited")
	}
	return txtCheck(c, x)
}

// ---------- C29 ----------

// MatCase is one of: any text, an array with dimensions, a failing reader, a
// failing writer.
type MatCase struct {
	Kind  string   `json:"kind"`
	Text  string   `json:"text,omitempty"`
	Txt   *TxtCase `json:"txt,omitempty"`
	Opt   TxtCase  `json:"opt,omitempty"`
	V     []F      `json:"v,omitempty"`
	Rows  int      `json:"rows,omitempty"`
	Cols  int      `json:"cols,omitempty"`
	Fill  int      `json:"fill,omitempty"` // the number of values, if they are not listed
	At    int      `json:"at,omitempty"`
	Mode  int      `json:"mode,omitempty"`
	Once  int      `json:"once,omitempty"` // what follows the failure, see Cut
	Last  bool     `json:"last,omitempty"`
	Delim string   `json:"delim,omitempty"`
}

var pieces = []string{"1", "0:1", "1:2", "2:3", " ", " ", "\n", "\n", ",", ",", "\t", ":", "1:2:3", "-1:5", "4294967295:1", "4294967296:1", "x", "NaN", "1e999", "\r\n", "\x00", "0:", ":0", "é", "#", "0:1 1:2 2:3\n", "1,2,3\n", ",,\n", "\n\n", "0x1p3", "1e5"}

func genMatCase(t *rapid.T) *MatCase {
	c := &MatCase{Kind: oneOf(t, "kind", []string{"text", "text", "array", "reader", "writer", "file"})}
	switch c.Kind {
	case "text":
		n := ir(t, "pieces", 0, 30)
		for i := 0; i < n; i++ {
			c.Text += oneOf(t, "piece", pieces)
		}
		if pct(t, "mutated", 40) {
			b := genTxt(t).text()
			for i, k := 0, ir(t, "muts", 1, 4); i < k && len(b) > 0; i++ {
				j := uni(t, "mutat", len(b))
				switch uni(t, "mutkind", 3) {
				case 0:
					b = append(b[:j:j], b[j+1:]...)
				case 1:
					b = append(append(b[:j:j], oneOf(t, "ins", pieces)...), b[j:]...)
				case 2:
					b[j] = byte(ir(t, "byte", 0, 255))
				}
			}
			c.Text = strconv.QuoteToASCII(string(b))
			if s, err := strconv.Unquote(c.Text); err == nil {
				c.Text = strings.ToValidUTF8(s, "?")
			}
		}
		c.Opt = TxtCase{Kind: oneOf(t, "txtkind", []string{"csv", "svm", "svmd"}), Delim: oneOf(t, "delim", delims), Skip: rapid.Bool().Draw(t, "skip"), Limit: oneOf(t, "limit", []int{0, 0, 1, 2, -1})}
	case "array":
		n := ir(t, "n", 0, 12)
		for i := 0; i < n; i++ {
			c.V = append(c.V, F(float64(i)+0.5))
		}
		c.Rows, c.Cols = ir(t, "rows", -3, 12), ir(t, "cols", -3, 12)
		if pct(t, "fit", 50) && c.Cols > 0 {
			c.Rows = len(c.V) / c.Cols
		}
		if uni(t, "longarray", 256) == 100 {
			// as many values as fit, and their number off by one at times
			c.V = nil
			c.Cols = oneOf(t, "longcols", []int{1, 2, 3, 300, 65535, 65536, 65537, 70000})
			c.Rows = oneOf(t, "longrows", []int{1, 2, 3, 256, 65535, 65536, 65537, 70000})
			if c.Rows*c.Cols > 400000 {
				c.Rows = 2
			}
			c.Fill = c.Rows * c.Cols
			if pct(t, "longunfit", 15) {
				c.Fill += oneOf(t, "longoff", []int{-1, 1, 65536, 1 - c.Fill})
			}
		}
		if pct(t, "overflow", 10) {
			c.V = nil
			c.Rows, c.Cols = 1<<32, 1<<32
			if pct(t, "overflow2", 50) {
				c.V = []F{1, 2}
				c.Rows, c.Cols = 1<<62+1, 2
				if pct(t, "overflow3", 50) {
					c.V, c.Rows, c.Cols = []F{1, 2, 3, 4}, 1<<62+1, 4
				}
			}
		}
	case "reader":
		c.Txt = genTxt(t)
		c.Txt.Limit = 0
		c.At, c.Mode, c.Last = uni(t, "at", 1<<12), uni(t, "mode", 6), rapid.Bool().Draw(t, "last")
		c.Once = uni(t, "once", 3)
	case "writer", "file":
		c.Rows, c.Cols = ir(t, "rows", 0, 6), ir(t, "cols", 0, 6)
		if pct(t, "large", 10) {
			c.Rows, c.Cols = ir(t, "rowslarge", 50, 300), ir(t, "colslarge", 10, 30)
		}
		if uni(t, "hugemat", 512) == 300 {
			c.Rows, c.Cols = oneOf(t, "hugerows", []int{5000, 65537, 70000}), ir(t, "hugecols", 1, 3)
		}
		c.At, c.Mode = uni(t, "at", 1<<12), uni(t, "mode", 4)
		c.Once = uni(t, "once", 2)
		c.Delim = oneOf(t, "delim", delims)
	}
	return c
}

// failWriter takes At bytes and then fails.
type failWriter struct {
	left int
	got  bytes.Buffer
	mode int
	once bool // only one write fails
	done bool
}

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left || w.done {
		w.left -= len(p)
		w.got.Write(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	w.done = w.once
	w.got.Write(p[:n])
	switch w.mode {
	case 0:
		return n, errStream
	case 1:
		return n, io.ErrShortWrite
	}
	return n, io.EOF
}

func matCheck(c *MatCase, x *Ctx) error {
	x.label("kind=%s", c.Kind)
	switch c.Kind {
	case "text":
		o := c.Opt
		f := o.load(bufio.NewReader(strings.NewReader(c.Text)), "")
		if f.err == nil {
			x.label("text accepted")
			if f.d != nil && f.d.Rows > 1 || f.s != nil && f.s.Rows() > 1 {
				x.nontrivial()
			}
			if err := f.consistent(); err != nil {
				return verr("text %q, delimiter %q: %v", c.Text, o.Delim, err)
			}
			return nil
		}
		x.label("text refused")
		x.nontrivial()
		if f.d != nil || f.s != nil {
			return verr("a matrix and an error")
		}
	case "array":
		if c.Fill > 0 {
			cc := *c
			cc.Fill = 0
			for i := 0; i < c.Fill; i++ {
				cc.V = append(cc.V, F(float64(i)+0.5))
			}
			x.label("long array")
			return matCheck(&cc, x)
		}
		v := fs(c.V)
		fit := c.Rows >= 0 && c.Cols >= 0
		if c.Rows > 1<<20 || c.Cols > 1<<20 {
			fit = false
		}
		fit = fit && c.Rows*c.Cols == len(v)
		d, derr := mat.DenseMatFromArray(v, c.Rows, c.Cols)
		if (derr == nil) != fit {
			return verr("%d values as a dense %dx%d matrix: error %v", len(v), c.Rows, c.Cols, derr)
		}
		s, serr := mat.CSRMatFromArray(v, c.Rows, c.Cols)
		if (serr == nil) != fit {
			return verr("%d values as a sparse %dx%d matrix: error %v", len(v), c.Rows, c.Cols, serr)
		}
		if !fit {
			x.label("dimensions refused")
			return nil
		}
		x.nontrivialIf(len(v) > 1)
		for i := range v {
			v[i] = -1e9 // the matrices hold copies
		}
		for what, f := range map[string]*matFacts{"dense": {d: &d}, "sparse": {s: &s}} {
			if err := f.consistent(); err != nil {
				return err
			}
			if f.s != nil && f.s.Rows() != c.Rows || f.d != nil && (f.d.Rows != c.Rows || f.d.Cols != c.Cols) {
				return verr("wrong shape of the %s matrix", what)
			}
			vals := d.Values
			if f.s != nil {
				vals = s.Values
				for i, col := range s.ColIndexes {
					if col != i%c.Cols {
						return verr("column index %d of entry %d, %d columns", col, i, c.Cols)
					}
				}
				for i, h := range s.RowHeaders {
					if h != i*c.Cols {
						return verr("row pointer %d is %d, %d columns", i, h, c.Cols)
					}
				}
			}
			for i := range vals {
				if vals[i] != float64(c.V[i]) {
					return verr("%s matrix: value %d is %v, expected %v", what, i, vals[i], c.V[i])
				}
			}
		}
	case "reader":
		x.nontrivial()
		text := c.Txt.text()
		at := c.At % (len(text) + 1)
		r := &chunks{data: text[:at:at], g: newRng(uint64(c.At)), mode: c.Mode, last: c.Last, end: errStream}
		if c.Once > 0 {
			r.more = &chunks{g: r.g, mode: c.Mode, end: io.EOF}
			if c.Once == 2 {
				r.more.data = text[at:]
			}
		}
		if f := c.Txt.load(bufio.NewReaderSize(r, 16+c.At%100), ""); f.err == nil {
			return verr("reading %q succeeds although the reader fails after %d bytes", trim(string(text), 400), at)
		}
	case "writer", "file":
		m := mat.DenseMatZero(c.Rows, c.Cols)
		if m.Rows != c.Rows || m.Cols != c.Cols || len(m.Values) != c.Rows*c.Cols {
			return verr("DenseMatZero(%d, %d) has %d rows, %d columns, %d values", c.Rows, c.Cols, m.Rows, m.Cols, len(m.Values))
		}
		for i := range m.Values {
			if m.Values[i] != 0 {
				return verr("DenseMatZero has value %v", m.Values[i])
			}
			m.Values[i] = float64(i%1000) / 8
		}
		var full bytes.Buffer
		if err := m.WriteStr(&full, c.Delim); err != nil {
			return verr("writing fails: %v", err)
		}
		if c.Kind == "writer" {
			x.nontrivial()
			w := &failWriter{left: c.At % full.Len(), mode: c.Mode, once: c.Once > 0}
			at := w.left
			if err := m.WriteStr(w, c.Delim); err == nil {
				return verr("writing %d bytes succeeds although the writer fails after %d", full.Len(), at)
			}
			if !bytes.HasPrefix(full.Bytes(), w.got.Bytes()) {
				return verr("the written part is not a part of the text")
			}
			// matrices whose dimensions do not fit are refused
			bad := mat.DenseMat{Values: m.Values, Rows: c.Rows, Cols: c.Cols + 1}
			if c.Rows > 0 {
				if err := bad.WriteStr(&bytes.Buffer{}, c.Delim); err == nil {
					return verr("a matrix with %d values for %dx%d is written", len(bad.Values), bad.Rows, bad.Cols)
				}
			}
			return nil
		}
		x.nontrivialIf(full.Len() > 4096)
		switch c.Mode {
		case 0:
			path := filepath.Join(x.dir, "w.csv")
			defer os.Remove(path)
			if err := m.ToCsvFile(path, c.Delim); err != nil {
				return verr("writing a file fails: %v", err)
			}
			if b, err := os.ReadFile(path); err != nil || !bytes.Equal(b, full.Bytes()) {
				return verr("the file has %d bytes, expected %d (%v)", len(b), full.Len(), err)
			}
		case 1:
			if m.ToCsvFile(x.dir, c.Delim) == nil {
				return verr("writing to a directory succeeds")
			}
		case 2:
			if m.ToCsvFile(filepath.Join(x.dir, "no", "such", "dir", "f"), c.Delim) == nil {
				return verr("writing into a missing directory succeeds")
			}
		case 3:
			if fi, err := os.Stat("/dev/full"); err == nil && fi.Mode()&os.ModeCharDevice != 0 {
				x.label("full device")
				x.nontrivial()
				if m.ToCsvFile("/dev/full", c.Delim) == nil {
					return verr("writing %d bytes to a full device succeeds", full.Len())
				}
			}
		}
	}
	return nil
}

func init() {
	register(Prop{ID: "C27", Quick: 180000, Thorough: 2000000, Rule: "rapid draws matrices of float64 values (special ones and any bit pattern), a delimiter and a limit; writing (writer or file) and reading must give the same shape and bits. It also draws delimited texts field by field (value formats, empty fields, skipped first column, CRLF, missing last line end, limits, default values) and compares the matrix read with the fields. Non-trivial: a value that is not an integer."},
		genCsv, csvCheck)
	register(Prop{ID: "C28", Quick: 400000, Thorough: 2000000, Rule: "rapid draws libsvm texts pair by pair (column numbers up to 2^32-1 in any order, value formats, repeated spaces, labels, CRLF, missing last line end, limits); the sparse matrix must list exactly the pairs, the dense reader must accept exactly the texts whose rows list columns 0..n-1. Non-trivial: several rows with more than two pairs."},
		genSvm, svmCheck)
	kinds := []string{"csv", "svm", "svmd"}
	cover := &Cover{120, func(i int) (byte, uint64, []byte) {
		x := rapid.Custom(genTxt).Example(i + 1)
		k := 0
		for k < 2 && kinds[k] != x.Kind {
			k++
		}
		d := 0
		for d < len(delims)-1 && delims[d] != x.Delim {
			d++
		}
		return byte(2*k + b2i(x.Skip)), uint64(d), x.text()
	}, func(k byte, n uint64, b []byte) any {
		return &MatCase{Kind: "text", Text: strings.ToValidUTF8(string(b), "?"), Opt: TxtCase{Kind: kinds[int(k>>1)%3], Skip: k&1 == 1,
			Delim: delims[n%uint64(len(delims))], Limit: []int{0, 0, 1, 2, -1}[n/uint64(len(delims))%5]}}
	}}
	register(Prop{ID: "C29", Quick: 500000, Thorough: 2500000, Cover: cover, Rule: "rapid draws arbitrary and mutated texts (the matrix read, if any, must be consistent), arrays with fitting and wrong dimensions (matrices must hold a copy, wrong dimensions be refused), readers that fail after a drawn number of bytes, and writers, files and devices that fail at a drawn point (an error must be returned). Non-trivial: a refused text or a matrix of several rows, an array of several values, a fault."},
		genMatCase, matCheck)
}
