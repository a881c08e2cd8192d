package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/dmitryikh/leaves"
	"github.com/dmitryikh/leaves/mat"
	"pgregory.net/rapid"
)

// chunks delivers data in pieces whose sizes come from Seed and then ends with
// `end`; with Last the end comes together with the last piece.
type chunks struct {
	data []byte
	g    *Rng
	mode int
	last bool
	end  error
	more *chunks // what follows after one failure
}

func (c *chunks) failure() error {
	err := c.end
	if c.more != nil {
		*c = *c.more
	}
	return err
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.data) == 0 {
		return 0, c.failure()
	}
	n := 1
	switch c.mode {
	case 0: // everything
		n = len(p)
	case 1: // single bytes
	case 2:
		n = 1 + c.g.Intn(7)
	case 3:
		n = 1 + c.g.Intn(200)
	case 4:
		n = []int{1, 15, 16, 17, 4095, 4096, 4097}[c.g.Intn(7)]
	case 5: // now and then nothing, which is no end
		if n = c.g.Intn(40); n < 10 {
			n = 0
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n == 0 {
		return 0, nil
	}
	n = copy(p[:n], c.data)
	c.data = c.data[n:]
	if len(c.data) == 0 && c.last {
		return n, c.failure()
	}
	return n, nil
}

// facts is all that can be observed of a model on some rows.
type facts struct {
	meta string
	raw  []float64
	leaf []float64
	out  []float64
}

func observe(e *leaves.Ensemble, rows [][]float64, linear bool) (*facts, error) {
	f := &facts{meta: fmt.Sprint(e.NEstimators(), e.NFeatures(), e.NRawOutputGroups(), e.NOutputGroups(), e.Name(), e.NLeaves(), e.Transformation().Name(), e.Transformation().Type(), e.Transformation().NOutputGroups())}
	var err error
	if f.out, err = single(e, rows, 0); err != nil {
		return nil, err
	}
	if f.raw, err = single(e.EnsembleWithRawPredictions(), rows, 0); err != nil {
		return nil, err
	}
	if !linear {
		if f.leaf, err = single(e.EnsembleWithLeafPredictions(), rows, 0); err != nil {
			return nil, err
		}
	}
	return f, nil
}

// differs compares two observations; leaf numbers only when `leaf`.
func (a *facts) differs(b *facts, leaf bool) error {
	if a.meta != b.meta {
		return verr("metadata differ: %s and %s", a.meta, b.meta)
	}
	cmp := func(what string, x, y []float64) error {
		for i := range x {
			if i >= len(y) || !bitSame(x[i], y[i]) {
				return verr("%s differ at %d: %v and %v", what, i, x[i], y[i])
			}
		}
		return nil
	}
	if err := cmp("raw predictions", a.raw, b.raw); err != nil {
		return err
	}
	if err := cmp("predictions", a.out, b.out); err != nil {
		return err
	}
	if leaf {
		return cmp("leaf indices", a.leaf, b.leaf)
	}
	return nil
}

// ---------- C21 ----------

// ChunkCase is a model or a matrix text and a way to deliver it.
type ChunkCase struct {
	M    *Model   `json:"m,omitempty"`
	L    Layout   `json:"l"`
	X    Mat      `json:"x"`
	T    bool     `json:"t"`
	Txt  *TxtCase `json:"txt,omitempty"`
	Seed uint64   `json:"seed"`
	Mode int      `json:"mode"`
	Last bool     `json:"last"`
	Buf  int      `json:"buf"`
	Skip int      `json:"skip"`           // bytes before the model in the stream, consumed by the caller
	Path int      `json:"path,omitempty"` // kind of the file's name, see file
}

var bufSizes = []int{16, 17, 31, 64, 100, 511, 4095, 4096, 4097, 65536, 1 << 20}

func genChunk(t *rapid.T) *ChunkCase {
	c := &ChunkCase{Path: uni(t, "path", 8), Seed: rapid.Uint64().Draw(t, "seed"), Mode: uni(t, "mode", 6), Last: rapid.Bool().Draw(t, "last"), Buf: oneOf(t, "buf", bufSizes)}
	if pct(t, "skip", 20) {
		c.Skip = ir(t, "skipn", 1, 50)
	}
	if pct(t, "matrix", 25) {
		c.Txt = genTxt(t)
		return c
	}
	c.M = genModel(t, GenOpt{NoLay: true, Fams: allFams, BigPct: 8, Obj: pct(t, "trans", 60), MaxBig: 300})
	c.L = genLayout(t)
	c.T = c.M.canTransform() && pct(t, "t", 50)
	c.X = Mat{Rows: genRows(t, c.M, 1, 2), More: 6, Seed: c.Seed}
	return c
}

func (c *ChunkCase) reader(b []byte) *bufio.Reader {
	pre := bytes.Repeat([]byte("#"), c.Skip)
	r := bufio.NewReaderSize(&chunks{append(pre, b...), newRng(c.Seed), c.Mode, c.Last, io.EOF, nil}, c.Buf)
	if n, err := io.ReadFull(r, pre); err != nil || n != c.Skip {
		harnessFail("prefix: %v", err)
	}
	return r
}

var pathKinds = []string{"plain", "with spaces", "unicode", "symbolic link", "relative", "named pipe", "hidden, odd characters", "long"}

// file makes a file with the given content, calls f with its name, and
// removes it.
func (c *ChunkCase) file(x *Ctx, b []byte, f func(path string) error) error {
	k := ((c.Path % len(pathKinds)) + len(pathKinds)) % len(pathKinds)
	x.label("file name: %s", pathKinds[k])
	base, err := os.MkdirTemp(x.dir, "f")
	if err != nil {
		harnessFail("%v", err)
	}
	defer os.RemoveAll(base)
	name := []string{"input", "in put %d.txt", "модель.bin", "real", "input", "pipe", ".%s~?*[a]", strings.Repeat("n", 250)}[k]
	path := filepath.Join(base, name)
	if k == 5 {
		if err := syscall.Mkfifo(path, 0o600); err != nil {
			harnessFail("%v", err)
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			w, err := os.OpenFile(path, os.O_WRONLY, 0) // waits for a reader
			if err != nil {
				return
			}
			w.Write(b) // the reader may close it before the end
			w.Close()
		}()
		defer func() {
			// in case that a reader never came
			for {
				select {
				case <-done:
					return
				default:
				}
				if r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					r.Close()
				}
				time.Sleep(20 * time.Microsecond)
			}
		}()
		return f(path)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		harnessFail("%v", err)
	}
	switch k {
	case 3:
		link := filepath.Join(base, "link")
		if err := os.Symlink(path, link); err != nil {
			harnessFail("%v", err)
		}
		path = link
	case 4:
		wd, err := os.Getwd()
		if err == nil {
			if rel, err := filepath.Rel(wd, path); err == nil {
				path = rel
			}
		}
	}
	return f(path)
}

func chunkCheck(c *ChunkCase, x *Ctx) error {
	x.label("mode=%d", c.Mode)
	x.label("buffer=%d", c.Buf)
	missing := filepath.Join(x.dir, "does", "not", "exist")
	if c.Txt != nil {
		x.label("matrix %s", c.Txt.Kind)
		x.nontrivialIf(c.Mode != 0)
		text := c.Txt.text()
		want := c.Txt.load(bufio.NewReader(bytes.NewReader(text)), "")
		got := c.Txt.load(c.reader(text), "")
		if err := want.differs(got); err != nil {
			return verr("reading through a buffer of %d bytes, pieces of kind %d: %v", c.Buf, c.Mode, err)
		}
		err := c.file(x, text, func(path string) error {
			if err := want.differs(c.Txt.load(nil, path)); err != nil {
				return verr("reading from a file: %v", err)
			}
			return nil
		})
		if err != nil {
			return err
		}
		for _, p := range []string{missing, x.dir} {
			if c.Txt.load(nil, p).err == nil {
				return verr("reading from %s gives a matrix", p)
			}
		}
		return nil
	}
	m := c.M.prepare()
	classify(x, m)
	b := m.bytesLay(&c.L)
	if len(b) > 4096 {
		x.label("longer than one buffer")
	}
	x.nontrivialIf(c.Mode != 0 || len(b) > c.Buf)
	rows := m.matrix(&c.X)
	linear := m.Fam == XGL
	e, err := loadBytes(m.Fam, b, c.T)
	if err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	want, err := observe(e, rows, linear)
	if err != nil {
		return err
	}
	cmp := func(what string, e *leaves.Ensemble, err error) error {
		if err != nil {
			return verr("%s: refused: %v", what, err)
		}
		got, err := observe(e, rows, linear)
		if err != nil {
			return verr("%s: %v", what, err)
		}
		if err := want.differs(got, true); err != nil {
			return verr("%s: %v", what, err)
		}
		return nil
	}
	e, err = loadReader(m.Fam, c.reader(b), c.T)
	if err := cmp(fmt.Sprintf("stream in pieces of kind %d through a buffer of %d bytes", c.Mode, c.Buf), e, err); err != nil {
		return err
	}
	if m.Fam == LGJ {
		e, err = leaves.LGEnsembleFromJSON(&chunks{b, newRng(c.Seed), c.Mode, c.Last, io.EOF, nil}, false)
		if err := cmp("plain stream", e, err); err != nil {
			return err
		}
	}
	err = c.file(x, b, func(path string) error {
		e, err := loadFile(m.Fam, path, c.T)
		return cmp("file", e, err)
	})
	if err != nil {
		return err
	}
	if m.Fam != LGJ {
		for _, p := range []string{missing, x.dir} {
			if e, err := loadFile(m.Fam, p, c.T); err == nil || e != nil {
				return verr("loading from %s: model %v, error %v", p, e != nil, err)
			}
		}
	}
	return nil
}

// ---------- C22 ----------

// CutCase is a model and the points where its stream ends or fails.
type CutCase struct {
	M    *Model `json:"m"`
	L    Layout `json:"l"`
	X    Mat    `json:"x"`
	T    bool   `json:"t"`
	Cuts []Cut  `json:"cuts"`
	All  bool   `json:"all"` // also every point of a short model
}

// Cut is a point of the stream: At bytes from the start, or from the end when
// negative, modulo the length.
type Cut struct {
	At   int  `json:"at"`
	Fail int  `json:"fail"` // 0 the stream ends, 1 an error, 2 io.ErrUnexpectedEOF
	Mode int  `json:"mode"`
	Last bool `json:"last"`
	Once int  `json:"once,omitempty"` // 0 the error stays, 1 the stream ends after it, 2 the stream goes on after it
}

var errStream = errors.New("stream failed")

func genCut(t *rapid.T) *CutCase {
	c := &CutCase{M: genModel(t, GenOpt{NoLay: true, Fams: allFams, BigPct: 3, Obj: pct(t, "trans", 60), MaxBig: 60, NoHugeNF: true, MaxEst: 3}), L: genLayout(t)}
	c.T = c.M.canTransform() && pct(t, "t", 40)
	c.X = Mat{Rows: genRows(t, c.M, 1, 2), More: 10, Seed: rapid.Uint64().Draw(t, "seed")}
	c.All = pct(t, "all", 8)
	for i, n := 0, ir(t, "cuts", 1, 16); i < n; i++ {
		k := Cut{Fail: uni(t, "fail", 3), Mode: uni(t, "mode", 6), Last: rapid.Bool().Draw(t, "last")}
		if k.Fail > 0 {
			k.Once = uni(t, "once", 3)
		}
		if pct(t, "tail", 50) {
			k.At = -1 - uni(t, "fromend", 300)
		} else {
			k.At = uni(t, "at", 1<<16)
		}
		c.Cuts = append(c.Cuts, k)
	}
	return c
}

func cutCheck(c *CutCase, x *Ctx) error {
	m := c.M.prepare()
	x.label("fam=%s", m.Fam)
	b := m.bytesLay(&c.L)
	rows := m.matrix(&c.X)
	linear := m.Fam == XGL
	e, err := loadBytes(m.Fam, b, c.T)
	if err != nil {
		return verr("well-formed model is refused: %v", err)
	}
	want, err := observe(e, rows, linear)
	if err != nil {
		return err
	}
	// line ends of text models
	var ends []int
	for i, v := range b {
		if v == '\n' {
			ends = append(ends, i)
			if i > 0 && b[i-1] == '\r' {
				ends = append(ends, i-1)
			}
			ends = append(ends, i+1)
		}
	}
	try := func(k Cut) error {
		at := 0
		if k.Fail == 0 && m.Fam == LGT {
			if k.At < 0 {
				at = ends[len(ends)-1-(-1-k.At)%len(ends)]
			} else {
				at = ends[k.At%len(ends)]
			}
		} else if k.At < 0 {
			at = len(b) - 1 - (-1-k.At)%len(b)
		} else {
			at = k.At % len(b)
		}
		end := []error{io.EOF, errStream, io.ErrUnexpectedEOF}[k.Fail]
		g := newRng(uint64(at))
		buf := []int{16, 4096}[g.Intn(2)]
		s := &chunks{data: b[:at:at], g: g, mode: k.Mode, last: k.Last, end: end}
		if k.Fail > 0 && k.Once > 0 {
			s.more = &chunks{g: g, mode: k.Mode, last: k.Last, end: io.EOF}
			if k.Once == 2 {
				s.more.data = b[at:]
			}
		}
		e, err := loadReader(m.Fam, bufio.NewReaderSize(s, buf), c.T)
		x.count("cut streams", 1)
		if err != nil {
			x.count("refused", 1)
			x.nontrivial()
			if e != nil {
				return verr("a model and an error")
			}
			return nil
		}
		x.count("loaded nevertheless", 1)
		got, err := observe(e, rows, linear)
		if err == nil {
			err = want.differs(got, true)
		}
		if err != nil {
			return verr("%s stream that ends with %v after %d of %d bytes is loaded as a different model: %v", m.Fam, end, at, len(b), err)
		}
		return nil
	}
	for _, k := range c.Cuts {
		if err := try(k); err != nil {
			return err
		}
	}
	if c.All && len(b) < 4000 {
		x.label("every point")
		n := len(b)
		if m.Fam == LGT {
			n = len(ends)
		}
		for i := 0; i < n; i++ {
			if err := try(Cut{At: i}); err != nil {
				return err
			}
		}
		for i := range b {
			if err := try(Cut{At: i, Fail: 1 + i%2, Mode: i % 5, Last: i%3 == 0, Once: i / 2 % 3}); err != nil {
				return err
			}
		}
	}
	return nil
}

// ---------- matrix texts ----------

// matFacts is a matrix of either kind or an error.
type matFacts struct {
	d   *mat.DenseMat
	s   *mat.CSRMat
	err error
}

func (a *matFacts) differs(b *matFacts) error {
	if (a.err == nil) != (b.err == nil) {
		return verr("errors %v and %v", a.err, b.err)
	}
	if a.err != nil {
		return nil
	}
	var av, bv []float64
	if a.d != nil {
		if a.d.Rows != b.d.Rows || a.d.Cols != b.d.Cols {
			return verr("shapes %dx%d and %dx%d", a.d.Rows, a.d.Cols, b.d.Rows, b.d.Cols)
		}
		av, bv = a.d.Values, b.d.Values
	} else {
		if !eqInts(a.s.RowHeaders, b.s.RowHeaders) || !eqInts(a.s.ColIndexes, b.s.ColIndexes) {
			return verr("indices %v %v and %v %v", a.s.RowHeaders, a.s.ColIndexes, b.s.RowHeaders, b.s.ColIndexes)
		}
		av, bv = a.s.Values, b.s.Values
	}
	if len(av) != len(bv) {
		return verr("%d and %d values", len(av), len(bv))
	}
	for i := range av {
		if !bitSame(av[i], bv[i]) {
			return verr("value %d is %v and %v", i, av[i], bv[i])
		}
	}
	return nil
}

// consistent checks the shape of the matrix.
func (a *matFacts) consistent() error {
	if d := a.d; d != nil {
		if d.Rows < 0 || d.Cols < 0 || d.Rows*d.Cols != len(d.Values) {
			return verr("dense matrix of %d rows and %d columns has %d values", d.Rows, d.Cols, len(d.Values))
		}
	}
	if s := a.s; s != nil {
		if len(s.Values) != len(s.ColIndexes) {
			return verr("sparse matrix has %d values, but %d column indexes", len(s.Values), len(s.ColIndexes))
		}
		if len(s.RowHeaders) == 0 || s.RowHeaders[0] != 0 || s.RowHeaders[len(s.RowHeaders)-1] != len(s.Values) {
			return verr("row pointers %v of a sparse matrix with %d entries", s.RowHeaders, len(s.Values))
		}
		for i := 1; i < len(s.RowHeaders); i++ {
			if s.RowHeaders[i] < s.RowHeaders[i-1] {
				return verr("row pointers %v decrease", s.RowHeaders)
			}
		}
		if s.Rows() != len(s.RowHeaders)-1 {
			return verr("%d rows with row pointers %v", s.Rows(), s.RowHeaders)
		}
		for _, c := range s.ColIndexes {
			if c < 0 {
				return verr("negative column %d", c)
			}
		}
	}
	return nil
}

var _ = math.NaN

func init() {
	register(Prop{ID: "C21", Quick: 72000, Thorough: 400000, Rule: "rapid draws a model of any family in a drawn layout (a quarter: a CSV or libsvm text), the sizes of the pieces in which a stream delivers it, the buffer size, and bytes of the same stream consumed before it; the model or matrix read that way, and from a file (plain, link, named pipe, relative, odd or long name), is compared bit by bit (predictions of all views, metadata; values, shape) with the one read at once; missing and unreadable paths must give errors. Non-trivial: the stream comes in pieces or is longer than the buffer."},
		genChunk, chunkCheck)
	register(Prop{ID: "C22", Quick: 32000, Thorough: 400000, Rule: "rapid draws a model of any family in a drawn layout and up to 16 points where its stream ends (LightGBM text: at line ends) or fails with one of two errors, half of them within the last 300 bytes, for some short models every point; each load must give an error or a model that predicts the same, bit by bit, with the same metadata. Non-trivial: at least one load is refused."},
		genCut, cutCheck)
}
