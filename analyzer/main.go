// Command xmldotverif decides semantic properties of the xmldot library by
// static analysis of its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

var checks = map[string]func(p *Program, r *Report){}

func main() {
	prop := flag.String("property", "", "property to decide")
	dir := flag.String("repo", "/repo", "source tree to analyse")
	all := flag.Bool("all", false, "run every check (development)")
	flag.Parse()
	if *all {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		code := 0
		for _, id := range ids {
			if c := runOne(id, *dir); c != 0 {
				code = c
			}
		}
		os.Exit(code)
	}
	if checks[*prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	os.Exit(runOne(*prop, *dir))
}

func runOne(id, dir string) (code int) {
	start := time.Now()
	r := newReport(id)
	cmd := "bash check.sh " + id
	defer func() {
		if e := recover(); e != nil {
			r.Bad("analysis-failed", "-", "-", fmt.Sprintf("the analysis could not handle the source: %v", e))
			fmt.Fprintln(os.Stderr, string(debug.Stack()))
			code = r.finish(start, cmd)
		}
	}()
	p, err := load(dir)
	if err != nil {
		r.Rule("source-loads", "the library must type-check")
		r.Bad("source-loads", "-", "-", "cannot analyse the source: "+err.Error())
		return r.finish(start, cmd)
	}
	r.Count("functions", len(p.Funcs))
	r.Count("entry_points", len(p.entries))
	checks[id](p, r)
	return r.finish(start, cmd)
}
