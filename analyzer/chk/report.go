package chk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"burlcheck/eng"
)

// Finding is a construct that breaks a rule.
type Finding struct {
	Key string `json:"key"`
	Pos string `json:"pos"`
	Msg string `json:"message"`
}

// Ctx is the state of one check.
type Ctx struct {
	ID       string
	Tier     string
	P        *Program
	Found    map[string]*Finding
	Only     func(key string) bool // keys to report
	Counts   map[string]int
	min      map[string]int
	Rule     string
	Notes    []string
	Assume   []string
	engines  []*eng.Engine
	analysed map[string]bool
}

func newCtx(id, tier string, p *Program) *Ctx {
	return &Ctx{ID: id, Tier: tier, P: p, Found: map[string]*Finding{}, Counts: map[string]int{}, min: map[string]int{}, analysed: map[string]bool{}}
}

// Violate records a violation; the key identifies the construct.
func (c *Ctx) Violate(key string, pos token.Pos, format string, a ...interface{}) {
	c.ViolateAt(key, c.P.Pos(pos), format, a...)
}

func (c *Ctx) ViolateAt(key, pos, format string, a ...interface{}) {
	key = strings.ReplaceAll(key, c.P.Mod+"/", "")
	key = strings.ReplaceAll(key, " ", "_")
	if c.Only != nil && !c.Only(key) {
		return
	}
	if c.Found[key] == nil {
		c.Found[key] = &Finding{Key: key, Pos: pos, Msg: strings.ReplaceAll(fmt.Sprintf(format, a...), c.P.Mod+"/", "")}
	}
}

// Count adds to a coverage counter.
func (c *Ctx) Count(name string, n int) { c.Counts[name] += n }

// Need demands a minimal value of a counter.
func (c *Ctx) Need(name string, min int) { c.min[name] = min }

// Missing reports an anchor that was not found.
func (c *Ctx) Missing(what string) {
	c.ViolateAt("anchor:"+what, "?", "cannot find %s, the property can not be decided", what)
}

func (c *Ctx) Note(format string, a ...interface{}) {
	c.Notes = append(c.Notes, fmt.Sprintf(format, a...))
}

// Engine creates an engine whose statistics belong to this check.
func (c *Ctx) Engine() *eng.Engine {
	e := c.P.NewEngine()
	if c.Tier == "thorough" {
		e.MaxStates = 24
		e.MaxSteps = 8000000
		e.MaxDepth = 18
	} else {
		e.MaxSteps = 4000000
	}
	c.engines = append(c.engines, e)
	return e
}

func (c *Ctx) finish() {
	for _, e := range c.engines {
		for f := range e.Funcs {
			c.analysed[relName(c.P, f)] = true
		}
		c.Counts["call sites interpreted"] += e.Calls
		c.Counts["abstract instructions executed"] += e.Steps
		for p := range e.Problems {
			c.ViolateAt("undecided:"+p, "?", "analysis is incomplete: %s", p)
		}
	}
	var ks []string
	for k := range c.min {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if c.Counts[k] < c.min[k] {
			c.ViolateAt("too-few:"+k, "?", "only %d instances of %q were found, at least %d are expected", c.Counts[k], k, c.min[k])
		}
	}
}

// RuleFunc decides a property.
type RuleFunc func(c *Ctx)

// Rules by property.
var Rules = map[string]RuleFunc{}

type evidence struct {
	Property    string                 `json:"property"`
	Tier        string                 `json:"tier"`
	Seed        int                    `json:"seed"`
	Level       string                 `json:"level"`
	Coverage    map[string]interface{} `json:"coverage"`
	Assumptions []string               `json:"assumptions,omitempty"`
	WallS       float64                `json:"wall_s"`
	Violations  []string               `json:"violations,omitempty"`
}

// Decide runs the rule of a property protecting against its failures.
func Decide(id, tier string, p *Program) (c *Ctx) {
	c = newCtx(id, tier, p)
	defer func() {
		if x := recover(); x != nil {
			if os.Getenv("BURLCHECK_PANIC") != "" {
				panic(x)
			}
			c.ViolateAt("undecided:internal", "?", "the analysis failed: %v", x)
		}
	}()
	rule := Rules[id]
	if rule == nil {
		c.ViolateAt("undecided:norule", "?", "no rule for the property")
		return c
	}
	rule(c)
	c.finish()
	return c
}

// Main runs one check and returns the exit code.
func Main(id, tier, repo, verif string) int {
	start := time.Now()
	known := readKnown(filepath.Join(verif, "known-findings.txt"), id)
	p, err := Load(repo, nil)
	var c *Ctx
	if err != nil {
		c = newCtx(id, tier, &Program{Repo: repo, Fset: token.NewFileSet(), Mod: "github.com/maxnikulin/burl"})
		c.ViolateAt("undecided:load", "?", "%v", err)
	} else {
		c = Decide(id, tier, p)
	}
	var keys []string
	for k := range c.Found {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var viol []*Finding
	var vs []string
	for _, k := range keys {
		if known[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", id, k, c.Found[k].Msg)
			continue
		}
		viol = append(viol, c.Found[k])
		vs = append(vs, c.Found[k].Pos+": "+c.Found[k].Msg+" ["+k+"]")
	}
	if tier == "thorough" && err == nil && len(viol) == 0 {
		selfTest(c, repo, verif, known)
	}
	cov := map[string]interface{}{}
	for k, n := range c.Counts {
		cov[strings.ReplaceAll(k, " ", "_")] = n
	}
	cov["functions_analysed"] = len(c.analysed)
	if n := len(c.analysed); n > 0 {
		var l []string
		for f := range c.analysed {
			l = append(l, f)
		}
		sort.Strings(l)
		if len(l) > 60 {
			l = append(l[:60], fmt.Sprintf("… %d more", n-60))
		}
		cov["functions"] = l
	}
	expl := c.Rule
	if len(c.Notes) > 0 {
		expl += " " + strings.Join(c.Notes, " ")
	}
	cov["explanation"] = expl
	ev := evidence{Property: id, Tier: tier, Seed: 1, Level: "other", Coverage: cov, Assumptions: c.Assume, WallS: time.Since(start).Seconds(), Violations: vs}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0755)
	writeJSON(filepath.Join(dir, id+".json"), ev)
	rp := filepath.Join(dir, id+"-violations.json")
	if len(viol) == 0 {
		os.Remove(rp)
		fmt.Printf("OK property=%s functions=%d wall=%.1fs\n", id, len(c.analysed), time.Since(start).Seconds())
		return 0
	}
	writeJSON(rp, map[string]interface{}{"property": id, "rule": c.Rule, "violations": viol,
		"replay": fmt.Sprintf("cd %s && ./run-check %s %s", verif, id, tier)})
	for _, v := range viol {
		fmt.Printf("%s: %s [%s]\n", v.Pos, v.Msg, v.Key)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", "  ")
	if err == nil {
		err = os.WriteFile(path, append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// readKnown reads keys of recorded findings: "finding: property=<id> key=<key> description".
func readKnown(path, id string) map[string]bool {
	r := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return r
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) > 2 && w[0] == "finding:" && w[1] == "property="+id && strings.HasPrefix(w[2], "key=") {
			r[strings.TrimPrefix(w[2], "key=")] = true
		}
	}
	return r
}
