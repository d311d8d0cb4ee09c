// Command limcheck decides properties of limage from its source.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"
)

func main() {
	debug.SetGCPercent(800)
	debug.SetMemoryLimit(10 << 30)
	root := os.Getenv("LIMCHECK_ROOT")
	if root == "" {
		x, _ := os.Executable()
		root = filepath.Dir(filepath.Dir(x))
	}
	repo := os.Getenv("LIMCHECK_REPO")
	if repo == "" {
		repo = "/repo"
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: limcheck ID|all [quick|thorough]")
		os.Exit(2)
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var ids []string
	if os.Args[1] == "all" {
		for id := range properties {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = os.Args[1:2]
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	c := run(root, repo, tier, seed, ids)
	pprof.StopCPUProfile()
	os.Exit(c)
}

func run(root, repo, tier string, seed int, ids []string) (code int) {
	t0 := time.Now()
	p, err := load(repo, filepath.Join(root, "stubs"))
	if err != nil {
		for _, id := range ids {
			code = failLoad(root, id, tier, seed, err)
		}
		return code
	}
	if os.Getenv("LIMCHECK_TIME") != "" {
		fmt.Println("loaded", len(p.src), "functions in", time.Since(t0))
	}
	for _, id := range ids {
		if c := runProperty(p, root, id, tier, seed); c != 0 {
			code = c
		}
	}
	return code
}
