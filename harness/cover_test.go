package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// covered gives the property to search and a function that runs a case of it.
// Its case and the smallest failing one stay in files.
func covered(f *testing.F) (*Prop, func(c any) error) {
	p := props[os.Getenv("VERIF_FUZZ")]
	if p == nil || p.Cover == nil {
		f.Skip("VERIF_FUZZ names no property")
	}
	dir := f.TempDir()
	var no atomic.Int64
	go watchdog(&no)
	out := os.Getenv("VERIF_FOUND")
	var inflight *os.File
	return p, func(c any) error {
		if n := no.Add(1); n%64 == 0 && out != "" {
			os.WriteFile(filepath.Join(out, fmt.Sprintf("%d.count", os.Getpid())), []byte(fmt.Sprint(n)), 0o644)
		}
		if out != "" && p.Cover.Seed == nil {
			if inflight == nil {
				inflight, _ = os.Create(filepath.Join(out, fmt.Sprintf("inflight%d.json", os.Getpid())))
			}
			js, _ := json.Marshal(c)
			inflight.Truncate(0)
			inflight.WriteAt(js, 0)
		}
		err := runCase(p, c, &Ctx{labels: map[string]int{}, dir: dir})
		if _, ok := err.(harnessError); ok || err == nil {
			return nil
		}
		if out != "" {
			js, _ := json.Marshal(c)
			path := filepath.Join(out, fmt.Sprintf("%d.json", os.Getpid()))
			if st, e := os.Stat(path); e != nil || st.Size() > int64(len(js)) {
				os.WriteFile(path, js, 0o644)
			}
		}
		return err
	}
}

// FuzzCovered mutates the bytes which the library reads.
func FuzzCovered(f *testing.F) {
	p, run := covered(f)
	for i := 0; i < 400; i++ {
		if k, n, b := p.Cover.Seed(i); len(b) <= maxCover {
			f.Add(k, n, b)
		}
	}
	f.Fuzz(func(t *testing.T, k byte, n uint64, b []byte) {
		if len(b) > maxCover {
			return
		}
		c := p.Cover.Case(k, n, b)
		if c == nil {
			return
		}
		if err := run(c); err != nil {
			t.Fatal(err)
		}
	})
}

// FuzzDrawn mutates the random bits behind the draws of the generator.
func FuzzDrawn(f *testing.F) {
	p, run := covered(f)
	g := newRng(mix(p.ID))
	for i := 0; i < 200; i++ {
		b := make([]byte, 8*(64<<uint(i%7)))
		for j := range b {
			b[j] = byte(g.U64())
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(t *rapid.T) {
		if err := run(p.gen(t)); err != nil {
			t.Fatal(err)
		}
	}))
}
