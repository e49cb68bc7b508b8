package chk

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// variant is an edit of the repository with the verdict expected from a rule.
type variant struct {
	name   string
	mutant bool
	edits  []edit
}

type edit struct{ file, old, new string }

// readVariants parses a file made of
//
//	## mutant|same NAME
//	@@ FILE
//	<<<<
//	old text
//	====
//	new text
//	>>>>
func readVariants(path string) ([]*variant, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var out []*variant
	var file string
	var e *edit
	part := 0
	for n, l := range strings.Split(string(b), "\n") {
		switch {
		case part == 0 && strings.HasPrefix(l, "## "):
			w := strings.SplitN(l[3:], " ", 2)
			if len(w) != 2 || w[0] != "mutant" && w[0] != "same" {
				return nil, fmt.Errorf("%s:%d: bad header", path, n+1)
			}
			out = append(out, &variant{name: w[1], mutant: w[0] == "mutant"})
		case part == 0 && strings.HasPrefix(l, "@@ "):
			file = l[3:]
		case part == 0 && l == "<<<<":
			part = 1
			e = &edit{file: file}
		case part == 1 && l == "====":
			part = 2
		case part == 2 && l == ">>>>":
			part = 0
			v := out[len(out)-1]
			e.old, e.new = strings.TrimSuffix(e.old, "\n"), strings.TrimSuffix(e.new, "\n")
			v.edits = append(v.edits, *e)
		case part == 1:
			e.old += l + "\n"
		case part == 2:
			e.new += l + "\n"
		case strings.TrimSpace(l) != "":
			return nil, fmt.Errorf("%s:%d: unexpected text", path, n+1)
		}
	}
	return out, nil
}

// overlay applies the edits; ok is false if the text to replace is not there.
func (v *variant) overlay(repo string) (map[string][]byte, bool) {
	m := map[string][]byte{}
	for _, e := range v.edits {
		p := filepath.Join(repo, e.file)
		src, ok := m[p]
		if !ok {
			src, _ = os.ReadFile(p) // a new file is created if the old text is empty
		}
		if strings.TrimSpace(e.old) == "" {
			m[p] = append(append([]byte(nil), src...), e.new...)
			continue
		}
		if strings.Count(string(src), e.old) != 1 {
			return nil, false
		}
		m[p] = []byte(strings.Replace(string(src), e.old, e.new, 1))
	}
	return m, true
}

type variantResult struct {
	v       *variant
	skipped bool
	err     error
	found   []string
	base    map[string]bool
}

func (r *variantResult) good() bool { return r.err == nil && (len(r.found) > 0) == r.v.mutant }

func runVariants(id, repo string, vs []*variant, base map[string]bool) []*variantResult {
	res := make([]*variantResult, len(vs))
	var wg sync.WaitGroup
	sem := make(chan bool, max(1, runtime.NumCPU()*3/4))
	for i, v := range vs {
		i, v := i, v
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := &variantResult{v: v}
			res[i] = r
			ov, ok := v.overlay(repo)
			if !ok {
				r.skipped = true
				return
			}
			p, err := Load(repo, ov)
			if err != nil {
				r.err = err
				return
			}
			c := Decide(id, "quick", p)
			for k, f := range c.Found {
				if !base[k] {
					r.found = append(r.found, f.Pos+": "+f.Msg+" ["+k+"]")
				}
			}
			sort.Strings(r.found)
		}()
	}
	wg.Wait()
	return res
}

// SelfTest prints verdicts for all variants of a property.
func SelfTest(id, repo, verif, file, only string) int {
	if file == "" {
		file = id
	}
	vs, err := readVariants(filepath.Join(verif, "variants", file+".txt"))
	if err != nil {
		fmt.Println(err)
		return 1
	}
	if only != "" {
		var l []*variant
		for _, v := range vs {
			if strings.Contains(v.name, only) {
				l = append(l, v)
			}
		}
		vs = l
	}
	code := 0
	for _, r := range runVariants(id, repo, vs, nil) {
		kind := "same"
		if r.v.mutant {
			kind = "mutant"
		}
		st := "ok  "
		switch {
		case r.skipped:
			st = "SKIP"
		case r.err != nil:
			st = "ERR "
			r.found = []string{r.err.Error()}
		case !r.good():
			st = "BAD "
			code = 1
		}
		fmt.Printf("%s %s %s %s\n", id, st, kind, r.v.name)
		if st == "BAD " || st == "ERR " || only != "" {
			for i, f := range r.found {
				if i > 5 {
					break
				}
				fmt.Println("      ", f)
			}
		}
	}
	return code
}

// selfTest measures the rule on edited sources; results are evidence, not verdicts about the repository.
func selfTest(c *Ctx, repo, verif string, known map[string]bool) {
	vs, err := readVariants(filepath.Join(verif, "variants", c.ID+".txt"))
	if err != nil {
		return
	}
	for _, r := range runVariants(c.ID, repo, vs, known) {
		switch {
		case r.skipped || r.err != nil:
			c.Counts["selftest variants not applicable to this tree"]++
		case r.v.mutant && r.good():
			c.Counts["selftest mutants detected"]++
		case r.v.mutant:
			c.Counts["selftest mutants missed"]++
			c.Note("Self-test: mutant %q is not detected.", r.v.name)
		case r.good():
			c.Counts["selftest equivalent edits accepted"]++
		default:
			c.Counts["selftest equivalent edits rejected"]++
			c.Note("Self-test: equivalent edit %q raises an alarm.", r.v.name)
		}
	}
}
