package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("only", "", "only this harness")
	dir := flag.String("harness", "/verif/harness", "harness module")
	repo := flag.String("repo", "/repo", "repository")
	out := flag.String("out", "/verif", "where evidence goes")
	tier := flag.String("tier", "", "quick or thorough")
	budget := flag.Float64("budget", 0, "seconds for exploration")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	dbg := flag.Bool("dbg", false, "debug")
	list := flag.Bool("list", false, "list harnesses")
	maxPaths := flag.Int64("maxpaths", 0, "stop after n paths")
	replay := flag.String("replay", "", "replay a recorded counterexample")
	flag.Parse()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(12 << 30) // collect more eagerly beyond
	if f := os.Getenv("SYMGO_CPUPROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	c := &Check{prop: *prop, only: *only, dir: *dir, repo: *repo, out: *out, tier: *tier, budget: *budget, workers: *workers, dbg: *dbg, list: *list, t0: time.Now(), maxPaths: *maxPaths}
	if *replay != "" {
		os.Exit(c.replayFile(*replay))
	}
	rc := c.run()
	forkProf.print()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func load(dir, repo string, dbgInit bool) (*World, error) {
	over, err := bigFileOverlay(repo)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        dir,
		BuildFlags: []string{"-tags=symvm", "-mod=mod"},
		Overlay:    over,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "symh/props")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(e.Error(), "missing function body") {
				continue
			}
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, repoPath: "github.com/signintech/pdft", solverTimeout: 20000, maxEnum: 300, dbgInit: dbgInit}
	w.cond = sync.NewCond(&w.mu)
	w.propsPkg = spkgs[0]
	w.modelPkg = prog.ImportedPackage("symh/models")
	w.sizes = types.SizesFor("gc", "amd64")
	tn := func(pkg, name string) types.Type {
		p := prog.ImportedPackage(pkg)
		if p == nil {
			return nil
		}
		t := p.Type(name)
		if t == nil {
			return nil
		}
		return t.Type()
	}
	w.rtErrType = tn("symh/models", "RuntimeError")
	w.errStrType = types.NewPointer(tn("errors", "errorString"))
	w.wrapErrType = types.NewPointer(tn("fmt", "wrapError"))
	w.regexpType = tn("regexp", "Regexp")
	w.reProgType = tn("regexp/syntax", "Prog")
	w.poolType = tn("sync", "Pool")
	return w, nil
}

func (w *World) harnesses(prop string) []*ssa.Function {
	var fs []*ssa.Function
	for _, m := range w.propsPkg.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(f.Name(), prop+"_") && f.Signature.Params().Len() == 0 {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
	return fs
}
