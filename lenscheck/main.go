package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

var checks = map[string]func(*Check){}

func main() {
	args := os.Args[1:]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: lenscheck <property>|all")
		os.Exit(2)
	}
	ids := args
	if args[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	w, err := load()
	code := 0
	if args[0] == "prov" {
		debugProv(w)
		return
	}
	if args[0] == "dump" { // debugging aid: print the SSA form of the named functions
		for _, n := range args[1:] {
			for _, f := range w.Fns {
				if localName(f) == n || f.Name() == n {
					f.WriteTo(os.Stdout)
				}
			}
		}
		return
	}
	for _, id := range ids {
		if len(ids) > 1 {
			start = time.Now()
		}
		if err != nil {
			c := newCheck(&World{}, id)
			c.Bad("load", "load", "-", "%v", err)
			if r := c.Finish(start, tier); r != 0 {
				code = r
			}
			continue
		}
		if r := runOne(w, id, start, tier); r != 0 {
			code = r
		}
	}
	os.Exit(code)
}

func runOne(w *World, id string, start time.Time, tier string) (code int) {
	c := newCheck(w, id)
	defer func() {
		if r := recover(); r != nil {
			st := strings.Split(string(debug.Stack()), "\n")
			c.Bad("machinery", "panic", "-", "analysis panicked: %v (%s)", r, strings.Join(st[:min(len(st), 30)], " | "))
			code = c.Finish(start, tier)
		}
	}()
	fn := checks[id]
	if fn == nil {
		c.Bad("machinery", "unknown-property", "-", "no check for %s", id)
	} else {
		fn(c)
	}
	return c.Finish(start, tier)
}
