// Command antlint decides semantic properties of github.com/yields/ant
// from its source: a path-sensitive dataflow and typestate analysis over
// the SSA form of the type-checked program, with one set of rules per
// property.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "", "verification directory")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	flag.Parse()
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *verif == "" {
		exe, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(exe))
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "all" {
		ids = nil
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	if len(ids) == 1 && ids[0] == "list" {
		for id, c := range registry {
			fmt.Println(id, c.Rules)
		}
		return
	}
	start := time.Now()
	P, err := loadProg(*repo)
	if len(ids) == 4 && ids[0] == "dump" && err == nil {
		dump(P, repoPath+ids[1], ids[2], ids[3])
		return
	}
	code := 0
	for _, id := range ids {
		if c := run(P, err, id, *tier, *verif, start, seed); c > code {
			code = c
		}
		start = time.Now()
	}
	os.Exit(code)
}

func run(P *Prog, err error, id, tier, verif string, start time.Time, seed int) (code int) {
	c := registry[id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		return 2
	}
	if P == nil {
		P = &Prog{Dir: "/"}
		r := newResult(P, id, tier)
		r.Findings["load"] = &Finding{Rule: "load", What: "/repo", Msg: fmt.Sprint(err)}
		return r.Finish(verif, start, seed)
	}
	r := newResult(P, id, tier)
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Findings["internal"] = &Finding{Rule: "undecided", What: "analysis", Msg: fmt.Sprint(e),
					Trace: strings.Split(string(debug.Stack()), "\n")}
			}
		}()
		c.Run(r)
	}()
	return r.Finish(verif, start, seed)
}
