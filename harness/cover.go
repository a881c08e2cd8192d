package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The thorough tier of nearly all checks goes on with coverage-guided search:
// Go's own fuzzer (cover_test.go), started from cases of the generator. What it finds counts only if it fails again by itself.

// Cover makes cases of the property from what the fuzzer mutates. Without Seed
// and Case the fuzzer mutates the random bits behind the generator's draws.
type Cover struct {
	Seconds int
	Seed    func(i int) (byte, uint64, []byte) // the first inputs
	Case    func(k byte, n uint64, b []byte) any
}

const maxCover = 6000 // bytes: bigger inputs only make it slow

var execsRe = regexp.MustCompile(`execs: (\d+) .*new interesting: (\d+)`)

// runCover gives the number of executions, of inputs that reached new code,
// and a violation.
func runCover(p *Prop, dir string) (execs, fresh int, viol *replayFile, failed string) {
	src, err := os.Getwd()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		src = filepath.Join(v, "harness")
	}
	if _, err = os.Stat(filepath.Join(src, "cover_test.go")); err != nil {
		return 0, 0, nil, err.Error()
	}
	work := filepath.Join(dir, "cover")
	found := filepath.Join(dir, "found")
	os.MkdirAll(work, 0o755)
	os.MkdirAll(found, 0o755)
	for _, g := range []string{"*.go", "go.mod", "go.sum"} {
		fs, _ := filepath.Glob(filepath.Join(src, g))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil {
				err = os.WriteFile(filepath.Join(work, filepath.Base(f)), b, 0o644)
			}
			if err != nil {
				return 0, 0, nil, err.Error()
			}
		}
	}
	secs := p.Cover.Seconds
	if v, err := strconv.Atoi(os.Getenv("VERIF_COVER")); err == nil {
		secs = v
	}
	target := "FuzzCovered"
	if p.Cover.Seed == nil {
		target = "FuzzDrawn"
	}
	cmd := exec.Command("go", "test", "-vet=off", "-run=^$", "-fuzz=^"+target+"$", fmt.Sprintf("-fuzztime=%ds", secs), "-fuzzminimizetime=20x", "-parallel=8", "-test.fuzzcachedir="+filepath.Join(dir, "corpus"))
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VERIF_FUZZ="+p.ID, "VERIF_FOUND="+found, "VERIF_TIER=quick")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		return 0, 0, nil, err.Error()
	}
	tm := time.AfterFunc(time.Duration(secs+120)*time.Second, func() { cmd.Process.Signal(os.Interrupt) })
	err = cmd.Wait()
	tm.Stop()
	for _, m := range execsRe.FindAllStringSubmatch(out.String(), -1) {
		execs, _ = strconv.Atoi(m[1])
		fresh, _ = strconv.Atoi(m[2])
	}
	if p.Cover.Seed == nil {
		// not all bits make a case
		n := 0
		fs, _ := filepath.Glob(filepath.Join(found, "*.count"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			k, _ := strconv.Atoi(string(b))
			n += k
		}
		execs = min(execs, max(n, 1))
	}
	if err == nil {
		return execs, fresh, nil, ""
	}
	// candidates: failures written by the target, and inputs of crashes
	var cands [][]byte
	fs, _ := filepath.Glob(filepath.Join(found, "*.json"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			cands = append(cands, b)
		}
	}
	fs, _ = filepath.Glob(filepath.Join(work, "testdata", "fuzz", "FuzzCovered", "*"))
	for _, f := range fs {
		if b, err := os.ReadFile(f); err == nil {
			if c := parseCorpus(p, string(b)); c != nil {
				cands = append(cands, c)
			}
		}
	}
	sort.Slice(cands, func(i, j int) bool { return len(cands[i]) < len(cands[j]) })
	for _, js := range cands {
		f := filepath.Join(dir, "cand.json")
		b, _ := json.Marshal(replayFile{p.ID, "", js})
		os.WriteFile(f, b, 0o644)
		cmd := exeCmd(p, "replay1", f)
		var ob, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &ob, &eb
		if err := cmd.Start(); err != nil {
			continue
		}
		tm := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		tm.Stop()
		code := cmd.ProcessState.ExitCode()
		if code == 1 {
			return execs, fresh, &replayFile{p.ID, ob.String() + "(found by coverage-guided search)", js}, ""
		}
		if msg, ok := crashViolation(p, code, eb.String()); ok {
			return execs, fresh, &replayFile{p.ID, msg, js}, ""
		}
	}
	if execs > 0 || strings.Contains(out.String(), "fuzz: elapsed") {
		// the fuzzer ended early for a reason of its own
		return execs, fresh, nil, ""
	}
	return execs, fresh, nil, "coverage-guided search: " + trim(out.String(), 2000)
}

// parseCorpus reads an input file of Go's fuzzer.
func parseCorpus(p *Prop, s string) []byte {
	var k byte
	var n uint64
	var data []byte
	for _, l := range strings.Split(s, "\n") {
		i := strings.IndexByte(l, '(')
		if i < 0 || !strings.HasSuffix(l, ")") {
			continue
		}
		v := l[i+1 : len(l)-1]
		switch l[:i] {
		case "byte":
			if c, _, _, err := strconv.UnquoteChar(strings.Trim(v, "'"), '\''); err == nil {
				k = byte(c)
			}
		case "uint64":
			n, _ = strconv.ParseUint(v, 0, 64)
		case "[]byte":
			if t, err := strconv.Unquote(v); err == nil {
				data = []byte(t)
			}
		}
	}
	if len(data) > maxCover {
		return nil
	}
	c := p.Cover.Case(k, n, data)
	if c == nil {
		return nil
	}
	js, err := json.Marshal(c)
	if err != nil {
		return nil
	}
	return js
}
