package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

// Spec describes the check of one property.
type Spec struct {
	Property    string   `json:"property"`
	Harnesses   []HSpec  `json:"harnesses"`
	Assumptions []string `json:"assumptions"`
	Outside     string   `json:"outside"`
	Technique   string   `json:"technique"`
	Note        string   `json:"note"`
}

type HSpec struct {
	Package  string   `json:"package"` // ./pkg/...
	Files    []string `json:"files"`   // relative to /verif/harness
	Func     string   `json:"func"`
	Bounds   string   `json:"bounds"`
	Quick    Tier     `json:"quick"`
	Thorough Tier     `json:"thorough"`
	Extra    []string `json:"extra"` // further packages to load
	Patch    []string `json:"patch"` // source files (relative to repo) in which time.Now is redirected
}

type Tier struct {
	Params   map[string]int64 `json:"params"`
	Sec      float64          `json:"sec"`
	MaxPaths int              `json:"max_paths"`
	MaxSteps int64            `json:"max_steps"`
	Skip     bool             `json:"skip"`
}

type Known struct {
	Property string
	Key      string
	Text     string
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

func repoEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "CGO_ENABLED", "GOROOT", "GOWORK", "HOME", "GOPATH", "GOMODCACHE":
			continue
		}
		env = append(env, e)
	}
	gobin := "/opt/veriftools/go1.25.14/bin"
	return append(env, "HOME=/root", "PATH="+gobin+":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "CGO_ENABLED=0", "GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
}

type loaded struct {
	prog    *ssa.Program
	pkg     *ssa.Package
	vx      *ssa.Package
	stubs   map[string]*ssa.Function
	overlay map[string][]byte
	dropped []string
	files   []string
}

var stubRe = regexp.MustCompile(`^//vx:stub\s+(.+?)\s*=>\s*(\S+)\s*$`)

func loadHarness(pkgDir string, files []string, extra, patch []string) (*loaded, error) {
	dir := filepath.Join(repoDir, pkgDir)
	use := append([]string(nil), files...)
	var dropped []string
	for {
		ov := map[string][]byte{}
		vxs, _ := filepath.Glob(filepath.Join(verifDir, "harness/zvx/*.go"))
		for _, f := range vxs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repoDir, "pkg/zvx", filepath.Base(f))] = b
		}
		name := map[string]string{}
		for _, f := range use {
			b, err := os.ReadFile(filepath.Join(verifDir, "harness", f))
			if err != nil {
				return nil, err
			}
			b = setPackage(b, dir)
			t := filepath.Join(dir, "zz_vx_"+strings.TrimSuffix(strings.ReplaceAll(f, "/", "_"), ".go")+".go")
			ov[t] = b
			name[t] = f
		}
		for _, pf := range patch {
			// FILE|OLD|NEW: the text OLD is replaced
			x := strings.Split(pf, "|")
			if len(x) != 3 {
				continue
			}
			t := filepath.Join(repoDir, x[0])
			b, ok := ov[t]
			if !ok {
				var err error
				if b, err = os.ReadFile(t); err != nil {
					engineWarn("patch: " + err.Error())
					continue
				}
			}
			if !strings.Contains(string(b), x[1]) {
				engineWarn("patch: " + x[1] + " not found in " + x[0])
			}
			ov[t] = []byte(strings.ReplaceAll(string(b), x[1], x[2]))
		}
		cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedEmbedFiles, Dir: repoDir, Env: repoEnv(), Overlay: ov}
		ps, err := packages.Load(cfg, append([]string{pkgDir, "./pkg/zvx"}, extra...)...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var other []string
		packages.Visit(ps, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if f, ok := name[file]; ok {
					bad[f] = true
				}
				other = append(other, e.Error())
			}
		})
		if len(bad) > 0 {
			var nu []string
			for _, f := range use {
				if bad[f] {
					dropped = append(dropped, f)
				} else {
					nu = append(nu, f)
				}
			}
			for _, o := range other {
				engineWarn("harness does not compile: " + o)
			}
			if len(nu) == 0 {
				return nil, fmt.Errorf("no harness file compiles: %s", strings.Join(other, "; "))
			}
			use = nu
			continue
		}
		if len(other) > 0 {
			// errors outside of the harness: ignore those of unrelated packages
			if anyMainErr(ps, dir) {
				return nil, fmt.Errorf("load: %s", strings.Join(other, "; "))
			}
		}
		packages.Visit(ps, nil, collectEmbeds)
		prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
		var main *packages.Package
		for _, p := range ps {
			if len(p.GoFiles) > 0 && filepath.Dir(p.GoFiles[0]) == filepath.Clean(dir) {
				main = p
			}
		}
		if main == nil || main.Types == nil {
			return nil, fmt.Errorf("package %s not loaded", pkgDir)
		}
		l := &loaded{prog: prog, overlay: ov, dropped: dropped, files: use, stubs: map[string]*ssa.Function{}}
		for _, p := range ps {
			if p.PkgPath == vxPath {
				l.vx = prog.Package(p.Types)
			}
		}
		l.pkg = prog.Package(main.Types)
		prog.Build()
		if l.vx == nil {
			return nil, fmt.Errorf("zvx not loaded")
		}

		for _, p := range []*packages.Package{main} {
			for _, f := range p.Syntax {
				collectStubs(l, f)
			}
		}
		return l, nil
	}
}

var pkgClause = regexp.MustCompile(`(?m)^package \w+`)

// setPackage moves a harness file to the package of the given directory.
func setPackage(b []byte, dir string) []byte {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil || strings.Contains(string(src), "//go:build ignore") {
			continue
		}
		if m := pkgClause.Find(src); m != nil {
			loc := pkgClause.FindIndex(b)
			return append(append(append([]byte(nil), b[:loc[0]]...), m...), b[loc[1]:]...)
		}
	}
	return b
}

// embeds has the contents of the strings initialised by go:embed.
var embeds = map[string]string{}

func collectEmbeds(p *packages.Package) {
	if len(p.EmbedFiles) == 0 {
		return
	}
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Doc == nil || len(g.Specs) != 1 {
				continue
			}
			v, ok := g.Specs[0].(*ast.ValueSpec)
			if !ok || len(v.Names) != 1 {
				continue
			}
			for _, c := range g.Doc.List {
				pat, ok := strings.CutPrefix(c.Text, "//go:embed ")
				if !ok {
					continue
				}
				b, err := os.ReadFile(filepath.Join(filepath.Dir(p.GoFiles[0]), strings.TrimSpace(pat)))
				if err == nil {
					embeds[p.PkgPath+"."+v.Names[0].Name] = string(b)
				}
			}
		}
	}
}

func collectStubs(l *loaded, f *ast.File) {
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			m := stubRe.FindStringSubmatch(c.Text)
			if m == nil {
				continue
			}
			fn := l.pkg.Func(m[2])
			if fn == nil {
				engineWarn("stub not found: " + m[2])
				continue
			}
			l.stubs[m[1]] = fn
		}
	}
}

// ---- native side ----

type nativeRunner struct {
	bin string
	err error
	dir string
}

func buildNative(l *loaded, pkgDir string, funcs []string, patch []string, work string) *nativeRunner {
	dir := filepath.Join(repoDir, pkgDir)
	repl := map[string]string{}
	i := 0
	put := func(target string, data []byte) {
		p := filepath.Join(work, fmt.Sprintf("f%d_%s", i, filepath.Base(target)))
		i++
		os.WriteFile(p, data, 0644)
		repl[target] = p
	}
	for t, b := range l.overlay {
		put(t, b)
	}
	for _, pf := range patch {
		// FILE: time.Now is redirected (FILE|OLD|NEW is already part of the overlay)
		if strings.Contains(pf, "|") {
			continue
		}
		t := filepath.Join(repoDir, pf)
		b, err := os.ReadFile(t)
		if err == nil {
			put(t, []byte(redirectNow(string(b))))
		}
	}
	tests, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, t := range tests {
		repl[t] = ""
	}
	pname := l.pkg.Pkg.Name()
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\nimport (\"testing\"; zvx %q)\nfunc TestVxRun(t *testing.T) { zvx.RunVectors(t, map[string]func(){", pname, vxPath)
	for _, f := range funcs {
		fmt.Fprintf(&sb, "%q: %s,", f, f)
	}
	sb.WriteString("}) }\n")
	put(filepath.Join(dir, "zz_vx_run_test.go"), []byte(sb.String()))
	ovb, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(work, "overlay.json")
	os.WriteFile(ovf, ovb, 0644)
	bin := filepath.Join(work, "native.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, pkgDir)
	cmd.Dir = repoDir
	cmd.Env = repoEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return &nativeRunner{err: fmt.Errorf("native build: %v\n%s", err, out)}
	}
	return &nativeRunner{bin: bin, dir: work}
}

var nowRe = regexp.MustCompile(`\btime\.Now\(\)`)

func redirectNow(s string) string {
	s = nowRe.ReplaceAllString(s, "zvxNow()")
	return s + "\nvar _ = time.Now\n"
}

type nres struct {
	status, msg string
}

func (n *nativeRunner) run(vs []*Vector, timeout time.Duration) []nres {
	res := make([]nres, len(vs))
	for i := range res {
		res[i] = nres{"notrun", ""}
	}
	start := 0
	for start < len(vs) {
		vf := filepath.Join(n.dir, "vec.json")
		b, _ := json.Marshal(vs[start:])
		os.WriteFile(vf, b, 0644)
		// bounded address space: a runaway allocation must not hurt the sandbox
		cmd := exec.Command("bash", "-c", "ulimit -v 12000000; exec \"$0\" -test.run '^TestVxRun$' -test.timeout="+fmt.Sprint(timeout), n.bin)
		cmd.Dir = n.dir
		cmd.Env = append(repoEnv(), "VX_FILE="+vf, "GOMAXPROCS=4")
		out, err := runLimited(cmd, timeout+10*time.Second)
		last := -1
		sc := bufio.NewScanner(strings.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		done := 0
		for sc.Scan() {
			ln := sc.Text()
			if i := strings.Index(ln, "VXSTART "); i >= 0 {
				last, _ = strconv.Atoi(strings.Fields(ln[i:])[1])
			}
			if i := strings.Index(ln, "VXRESULT "); i >= 0 {
				f := strings.SplitN(ln[i:], " ", 4)
				k, _ := strconv.Atoi(f[1])
				r := nres{status: f[2]}
				if len(f) > 3 {
					r.msg, _ = strconv.Unquote(f[3])
				}
				res[start+k] = r
				done = k + 1
			}
		}
		if err == nil || start+done >= len(vs) {
			break
		}
		if last < 0 {
			for i := start; i < len(vs); i++ {
				res[i] = nres{"notrun", tail(out, 600)}
			}
			break
		}
		// vector start+last killed the process
		st := "crash"
		if strings.Contains(out, "panic: test timed out") || strings.Contains(out, "signal: killed") || err.Error() == "timeout" {
			st = "hang"
		}
		if strings.Contains(out, "all goroutines are asleep") {
			st = "deadlock"
		}
		if strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate") {
			st = "oom"
		}
		res[start+last] = nres{st, tail(out, 3000)}
		start = start + last + 1
	}
	return res
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runLimited(cmd *exec.Cmd, d time.Duration) (string, error) {
	var sb strings.Builder
	cmd.Stdout = &sb
	cmd.Stderr = &sb
	if err := cmd.Start(); err != nil {
		return "", err
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	select {
	case err := <-ch:
		return sb.String(), err
	case <-time.After(d):
		cmd.Process.Kill()
		<-ch
		return sb.String(), fmt.Errorf("timeout")
	}
}

// ---- known findings ----

func loadKnown(prop string) []Known {
	b, err := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []Known
	for _, ln := range strings.Split(string(b), "\n") {
		ln = strings.TrimSpace(ln)
		if !strings.HasPrefix(ln, "finding:") {
			continue
		}
		// finding: property=X key=<harness>/<label> <text>
		f := strings.Fields(ln)
		if len(f) < 4 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		if f[1][9:] == prop {
			r = append(r, Known{prop, f[2][4:], strings.Join(f[3:], " ")})
		}
	}
	return r
}

func main() {
	// the go command is looked up in the PATH of this process
	for _, e := range repoEnv() {
		kv := strings.SplitN(e, "=", 2)
		os.Setenv(kv[0], kv[1])
	}
	for _, e := range []string{"GOROOT", "GOWORK"} {
		os.Unsetenv(e)
	}
	id := flag.String("id", "", "property id")
	tier := flag.String("tier", "quick", "quick|thorough")
	only := flag.String("func", "", "run only this harness function")
	workers := flag.Int("j", 8, "workers")
	verbose := flag.Bool("v", false, "verbose")
	noev := flag.Bool("noev", false, "do not write evidence")
	secOver := flag.Float64("sec", 0, "override time budget per harness")
	replay := flag.String("replay", "", "replay file")
	params := flag.String("p", "", "override params a=1,b=2")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(10 << 30)
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if v := os.Getenv("REPO_DIR"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("VX_PROF"); v != "" {
		f, _ := os.Create(v)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "checks", *id+".json"))
	if err != nil {
		die("%v", err)
	}
	var spec Spec
	if err := json.Unmarshal(b, &spec); err != nil {
		die("spec: %v", err)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	over := map[string]int64{}
	if *params != "" {
		for _, kv := range strings.Split(*params, ",") {
			p := strings.SplitN(kv, "=", 2)
			over[p[0]], _ = strconv.ParseInt(p[1], 10, 64)
		}
	}
	rc := runCheck(&spec, *tier, seed, *only, *workers, *verbose, *noev, *secOver, over)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

type hreport struct {
	Harness    string           `json:"harness"`
	Package    string           `json:"package"`
	Bounds     string           `json:"bounds"`
	Params     map[string]int64 `json:"params,omitempty"`
	Paths      int              `json:"paths"`
	Completed  int              `json:"paths_completed"`
	Infeasible int              `json:"paths_infeasible"`
	Incomplete map[string]int   `json:"incomplete,omitempty"`
	Unexplored int              `json:"unexplored_branches"`
	Exhaustive bool             `json:"exhaustive_within_bounds"`
	Asserts    int              `json:"assertions_checked"`
	AssertQ    int              `json:"assertion_queries"`
	Decisions  int              `json:"symbolic_branches"`
	Forks      int              `json:"forks"`
	Steps      int64            `json:"ssa_instructions"`
	Queries    int              `json:"queries"`
	Sat        int              `json:"queries_sat"`
	Unsat      int              `json:"queries_unsat"`
	Unknown    int              `json:"queries_unknown"`
	SolverSec  float64          `json:"solver_s"`
	Hashes     int              `json:"hash_applications"`
	Reach      map[string]int   `json:"reachability_witnesses"`
	Labels     map[string]int   `json:"assertion_labels"`
	Functions  []string         `json:"functions_encoded"`
	Stubs      map[string]int   `json:"stub_calls,omitempty"`
	NativeRuns int              `json:"native_validated"`
	NativeBad  []string         `json:"native_mismatches,omitempty"`
	NativeErr  string           `json:"native_error,omitempty"`
	Unreal     []string         `json:"counterexamples_not_reproduced,omitempty"`
	WallS      float64          `json:"wall_s"`
	Error      string           `json:"error,omitempty"`
	Dropped    []string         `json:"dropped_files,omitempty"`
	MaxSteps   int64            `json:"longest_path_instructions"`
	Switches   int              `json:"context_switches,omitempty"`
}

func runCheck(spec *Spec, tier string, seed int64, only string, workers int, verbose, noev bool, secOver float64, over map[string]int64) int {
	t0 := time.Now()
	known := loadKnown(spec.Property)
	hitKnown := map[string]bool{}
	work, err := os.MkdirTemp("", "fpkiverif")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(work)
	var reps []*hreport
	violations := 0
	var samples []any
	type groupKey struct{ pkg, files, extra, patch string }
	groups := map[groupKey]*loaded{}
	groupErr := map[groupKey]error{}
	var order []groupKey
	byGroup := map[groupKey][]HSpec{}
	for _, h := range spec.Harnesses {
		if only != "" && h.Func != only {
			continue
		}
		k := groupKey{h.Package, strings.Join(h.Files, ","), strings.Join(h.Extra, ","), strings.Join(h.Patch, ",")}
		if _, ok := byGroup[k]; !ok {
			order = append(order, k)
		}
		byGroup[k] = append(byGroup[k], h)
	}
	_ = groups
	for gi, k := range order {
		hs := byGroup[k]
		l, err := loadHarness(k.pkg, hs[0].Files, hs[0].Extra, hs[0].Patch)
		groupErr[k] = err
		if err != nil {
			for _, h := range hs {
				reps = append(reps, &hreport{Harness: h.Func, Package: h.Package, Bounds: h.Bounds, Error: err.Error()})
			}
			engineWarn(err.Error())
			continue
		}
		gwork := filepath.Join(work, fmt.Sprintf("g%d", gi))
		os.MkdirAll(gwork, 0755)
		// build the native replay binary concurrently with the exploration
		var funcs []string
		patch := map[string]bool{}
		for _, h := range hs {
			if l.pkg.Func(h.Func) != nil && !slices.Contains(funcs, h.Func) {
				funcs = append(funcs, h.Func)
			}
			for _, p := range h.Patch {
				patch[p] = true
			}
		}
		var patches []string
		for p := range patch {
			patches = append(patches, p)
		}
		natCh := make(chan *nativeRunner, 1)
		go func() { natCh <- buildNative(l, k.pkg, funcs, patches, gwork) }()
		var nat *nativeRunner
		for _, h := range hs {
			tr := h.Quick
			if tier == "thorough" {
				tr = h.Thorough
				if tr.Sec == 0 && tr.Params == nil {
					tr = h.Quick
				}
			}
			if tr.Skip {
				continue
			}
			rep := &hreport{Harness: h.Func, Package: h.Package, Bounds: h.Bounds, Dropped: l.dropped}
			reps = append(reps, rep)
			entry := l.pkg.Func(h.Func)
			if entry == nil {
				rep.Error = "harness function not available"
				engineWarn(h.Func + " not available")
				continue
			}
			ps := map[string]int64{}
			for a, b := range tr.Params {
				ps[a] = b
			}
			for a, b := range over {
				ps[a] = b
			}
			rep.Params = ps
			sec := tr.Sec
			if sec == 0 {
				sec = 120
			}
			if secOver > 0 {
				sec = secOver
			}
			ms := tr.MaxSteps
			if ms == 0 {
				ms = 20_000_000
			}
			sh := &Shared{prog: l.prog, vxPkg: l.vx, entry: entry, stubs: l.stubs, params: ps, harness: h.Func,
				deadline: time.Now().Add(time.Duration(sec * float64(time.Second))), maxPaths: tr.MaxPaths, maxSteps: ms,
				qTimeout: 20000, seed: seed, nSamples: 24}
			ht := time.Now()
			sh.explore(workers)
			rep.WallS = time.Since(ht).Seconds()
			fillReport(rep, sh)
			if nat == nil {
				nat = <-natCh
			}
			if nat.err != nil {
				rep.NativeErr = tail(nat.err.Error(), 1500)
				engineWarn(rep.NativeErr)
			}
			// translator validation: sampled paths replayed against the compiled code
			if nat.err == nil && len(sh.samples) > 0 {
				for i, r := range nat.run(sh.samples, 60*time.Second) {
					if r.status == "ok" {
						rep.NativeRuns++
					} else {
						rep.NativeBad = append(rep.NativeBad, fmt.Sprintf("%s: %s %s", r.status, tail(r.msg, 400), vecString(sh.samples[i])))
					}
				}
				for i := range sh.samples {
					if i < 2 {
						samples = append(samples, map[string]any{"harness": h.Func, "inputs": sh.samples[i].Inputs, "observed": sh.samples[i].Obs})
					}
				}
			}
			// violations
			reported := map[string]bool{}
			order := append([]*Cex(nil), sh.viol...)
			sort.SliceStable(order, func(i, j int) bool { return order[i].Real && !order[j].Real })
			for _, cx := range order {
				key := h.Func + "/" + strings.ReplaceAll(cx.Label, " ", "_")
				if reported[key] {
					continue
				}
				ok, how := confirm(nat, cx)
				if verbose {
					fmt.Fprintf(os.Stderr, "cex %s label=%q kind=%s real=%v native=%v %s\n  %s\n%s\n", h.Func, cx.Label, cx.Kind, cx.Real, ok, tail(how, 1500), vecString(cx.Vec), cx.Stack)
				}
				if !ok {
					rep.Unreal = append(rep.Unreal, fmt.Sprintf("%s (%s): %s | %s", cx.Label, cx.Msg, tail(how, 300), vecString(cx.Vec)))
					continue
				}
				reported[key] = true
				kf := false
				for _, kn := range known {
					if kn.Key == key {
						kf = true
						hitKnown[kn.Key] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", spec.Property, kn.Text)
					}
				}
				if kf {
					continue
				}
				violations++
				rp := writeReplay(spec, h, cx, how, violations)
				fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, rp)
				fmt.Printf("  harness %s: %s (%s)\n  inputs: %s\n  native: %s\n", h.Func, cx.Label, cx.Msg, vecString(cx.Vec), firstLine(how))
			}
			if verbose {
				b, _ := json.MarshalIndent(rep, "", " ")
				fmt.Fprintln(os.Stderr, string(b))
			} else {
				fmt.Fprintf(os.Stderr, "%s %s: paths=%d ok=%d infeasible=%d incomplete=%v left=%d asserts=%d queries=%d (%.1fs) native=%d bad=%d unreproduced=%d %.1fs\n", spec.Property, h.Func,
					rep.Paths, rep.Completed, rep.Infeasible, rep.Incomplete, rep.Unexplored, rep.Asserts, rep.Queries, rep.SolverSec, rep.NativeRuns, len(rep.NativeBad), len(rep.Unreal), rep.WallS)
				for _, s := range rep.NativeBad[:min(2, len(rep.NativeBad))] {
					fmt.Fprintf(os.Stderr, "   native mismatch: %s\n", tail(s, 1500))
				}
				for _, s := range rep.Unreal[:min(2, len(rep.Unreal))] {
					fmt.Fprintf(os.Stderr, "   not reproduced: %s\n", tail(s, 1000))
				}
			}
			runtime.GC()
		}
		if nat == nil {
			<-natCh
		}
	}
	if !noev {
		writeEvidence(spec, tier, seed, reps, samples, violations, time.Since(t0).Seconds())
	}
	if violations > 0 {
		return 1
	}
	fmt.Printf("property %s: no violation within the stated bounds (%.1fs)\n", spec.Property, time.Since(t0).Seconds())
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func vecString(v *Vector) string {
	var sb strings.Builder
	for _, i := range v.Inputs {
		fmt.Fprintf(&sb, "%s=%s ", i.Name, i.Val)
	}
	return sb.String()
}

func fillReport(rep *hreport, sh *Shared) {
	s := &sh.stats
	rep.Paths, rep.Completed, rep.Infeasible = s.Paths, s.Completed, s.Infeasible
	rep.Unexplored = s.Left
	rep.Incomplete = s.Why
	rep.Exhaustive = s.Left == 0 && s.Unsupported == 0 && s.Budget == 0 && s.Unknown == 0
	rep.Asserts, rep.AssertQ = s.Asserts, s.AssertQueries
	rep.Decisions, rep.Forks = s.Decisions, s.Forks
	rep.Steps = s.Steps
	rep.Queries, rep.Sat, rep.Unsat, rep.Unknown = s.Queries, s.QSat, s.QUnsat, s.QUnknown
	rep.SolverSec = s.SolverSec
	rep.Hashes = s.Hashes
	rep.Reach = s.Reach
	rep.Labels = s.AssertLabels
	rep.Stubs = s.Stubs
	rep.MaxSteps = s.MaxStepsPath
	rep.Switches = s.Switches
	for f := range s.Funcs {
		rep.Functions = append(rep.Functions, strings.TrimPrefix(f, "github.com/netsec-ethz/fpki/"))
	}
	sort.Strings(rep.Functions)
}

// confirm replays a counterexample against the compiled code.
func confirm(nat *nativeRunner, cx *Cex) (bool, string) {
	if cx.Vec.NoNative {
		// schedules cannot be forced on the compiled code; the counterexample is the
		// interleaving of the real SSA code itself.
		return true, "schedule counterexample (not replayable natively)\n" + cx.Stack
	}
	if nat == nil || nat.err != nil {
		return false, "no native binary"
	}
	to := 30 * time.Second
	if cx.Kind == "hang" || cx.Kind == "deadlock" {
		to = 10 * time.Second
	}
	r := nat.run([]*Vector{cx.Vec}, to)[0]
	switch cx.Kind {
	case "assert":
		return r.status == "assert" || r.status == "panic", r.status + ": " + r.msg
	case "panic":
		return r.status == "panic" || r.status == "crash" || r.status == "deadlock", r.status + ": " + r.msg
	case "hang":
		return r.status == "hang" || r.status == "oom", r.status + ": " + r.msg
	case "deadlock":
		return r.status == "hang" || r.status == "deadlock" || r.status == "crash", r.status + ": " + r.msg
	}
	return false, r.status
}

type replayFile struct {
	Property string  `json:"property"`
	Harness  HSpec   `json:"harness"`
	Vector   *Vector `json:"vector"`
	Kind     string  `json:"kind"`
	Native   string  `json:"native_result"`
	Stack    string  `json:"symbolic_stack"`
	How      string  `json:"how"`
}

func writeReplay(spec *Spec, h HSpec, cx *Cex, how string, n int) string {
	dir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", spec.Property, h.Func, n))
	b, _ := json.MarshalIndent(replayFile{spec.Property, h, cx.Vec, cx.Kind, how, cx.Stack,
		"replay with: /verif/check.sh -replay " + p}, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func doReplay(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	l, err := loadHarness(rf.Harness.Package, rf.Harness.Files, rf.Harness.Extra, rf.Harness.Patch)
	if err != nil {
		die("%v", err)
	}
	work, _ := os.MkdirTemp("", "fpkiverif")
	defer os.RemoveAll(work)
	nat := buildNative(l, rf.Harness.Package, []string{rf.Harness.Func}, rf.Harness.Patch, work)
	if nat.err != nil {
		die("%v", nat.err)
	}
	ok, how := confirm(nat, &Cex{Vec: rf.Vector, Kind: rf.Kind})
	fmt.Printf("reproduced=%v\n%s\n", ok, how)
	if ok {
		return 1
	}
	return 0
}

func writeEvidence(spec *Spec, tier string, seed int64, reps []*hreport, samples []any, violations int, wall float64) {
	states, trans, nat := 0, 0, 0
	queries, unsat, sat, unk, asserts := 0, 0, 0, 0, 0
	solver := 0.0
	var steps int64
	fns := map[string]bool{}
	exh := true
	var reduced []string
	vac := []string{}
	for _, r := range reps {
		states += r.Decisions + r.Paths
		trans += r.Forks + r.Decisions
		nat += r.NativeRuns
		queries += r.Queries
		unsat += r.Unsat
		sat += r.Sat
		unk += r.Unknown
		asserts += r.Asserts
		solver += r.SolverSec
		steps += r.Steps
		for _, f := range r.Functions {
			fns[f] = true
		}
		if !r.Exhaustive {
			exh = false
			reduced = append(reduced, fmt.Sprintf("%s: unexplored=%d incomplete=%v error=%s", r.Harness, r.Unexplored, r.Incomplete, tail(r.Error, 300)))
		}
		if r.Error == "" && len(r.Reach) == 0 {
			vac = append(vac, r.Harness)
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no replayable path sampled on this run")
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]any{
		"states":                        states,
		"transitions":                   trans,
		"traces_validated_against_impl": nat,
		"samples":                       samples,
		"functions_encoded":             fl,
		"functions_encoded_count":       len(fl),
		"queries_discharged":            queries,
		"queries_unsat":                 unsat,
		"queries_sat":                   sat,
		"queries_unknown":               unk,
		"solver_s":                      solver,
		"assertions_checked":            asserts,
		"ssa_instructions_executed":     steps,
		"exhaustive_within_bounds":      exh,
		"harnesses":                     reps,
		"outside_the_claim":             spec.Outside,
		"states_meaning":                "symbolic states: path ends plus symbolic branch points; transitions: branch decisions plus forks",
		"solver":                        "z3-new (live process per worker); fallback z3 4.8.12, cvc5",
	}
	if len(reduced) > 0 {
		cov["reduced_bound"] = reduced
	}
	if len(vac) > 0 {
		cov["no_reachability_witness"] = vac
	}
	ev := map[string]any{
		"property": spec.Property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": cov, "assumptions": spec.Assumptions, "wall_s": wall, "violations": violations,
	}
	if spec.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", spec.Property+".json"), b, 0644); err != nil {
		die("evidence: %v", err)
	}
}

func anyMainErr(ps []*packages.Package, dir string) bool {
	for _, p := range ps {
		if len(p.GoFiles) > 0 && filepath.Dir(p.GoFiles[0]) == filepath.Clean(dir) && (len(p.Errors) > 0 || p.Types == nil) {
			return true
		}
	}
	return false
}
