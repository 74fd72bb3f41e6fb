package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
)

// subcommands of development builds
var subcommands = map[string]func(args []string) int{}

func main() { os.Exit(mainRC()) }

func mainRC() int {
	if d := os.Getenv("RIOT_REPO"); d != "" {
		repoDir = d
	}
	if d := os.Getenv("RIOT_VERIF"); d != "" {
		verifDir = d
	} else if d, err := os.Getwd(); err == nil {
		if _, err := os.Stat(filepath.Join(d, "stubs", "gtinfo")); err == nil {
			verifDir = d
		}
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(6 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: riotcheck ID|all [quick|thorough]")
		return 2
	}
	if f := subcommands[os.Args[1]]; f != nil {
		return f(os.Args[2:])
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	cache := map[string]*Program{}
	load := func(arch string) (*Program, error) {
		if p := cache[arch]; p != nil {
			return p, nil
		}
		p, err := Load(arch)
		if err == nil {
			cache[arch] = p
		}
		return p, err
	}
	ids := os.Args[1:2]
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	rc := 0
	for _, id := range ids {
		if r := runCheck(id, tier, load); r > rc {
			rc = r
		}
	}
	return rc
}
