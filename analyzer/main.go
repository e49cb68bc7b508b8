// Command burlcheck decides properties of maxnikulin/burl from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"

	"burlcheck/chk"
)

func main() {
	debug.SetGCPercent(400)
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	prof := flag.String("prof", "", "write CPU profile")
	selftest := flag.Bool("selftest", false, "check variants of the property")
	only := flag.String("only", "", "select variants by name")
	file := flag.String("variants", "", "name of the list of variants, that of the property by default")
	list := flag.Bool("list", false, "list decided properties")
	flag.Parse()
	if *list {
		var l []string
		for k := range chk.Rules {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
		return
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
	}
	if *selftest {
		os.Exit(chk.SelfTest(*id, *repo, *verif, *file, *only))
	}
	code := chk.Main(*id, *tier, *repo, *verif)
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}
