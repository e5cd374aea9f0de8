// Command runner decides one property: it instruments /repo's current sources
// into a scratch directory, builds the harness against them, runs it in several
// processes, writes the evidence file and reports violations.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// group is a test package of the harness.
type group struct {
	Pkg  string // under h/
	Mode instrMode
	Race bool
	// Procs is the GOMAXPROCS of each shard.
	Procs int
	// Env is added to the shards' environment.
	Env []string
	// Shards is the number of processes (0: one per core up to 8).
	Shards int
}

var full = instrMode{Yields: true, Sync: true, OS: true}

var groups = map[string]group{
	"core":  {Pkg: "core", Mode: full, Procs: 1},
	"cache": {Pkg: "cache", Mode: instrMode{Yields: true, Sync: true}, Procs: 1},
	"disk":  {Pkg: "disk", Mode: full, Procs: 1},
	"cdp":   {Pkg: "cdp", Mode: instrMode{}, Procs: 2},
	"race":  {Pkg: "race", Mode: instrMode{Yields: true}, Race: true, Procs: 4, Shards: 4},
	"atest": {Pkg: "atest", Mode: instrMode{}, Procs: 2},
}

// property -> group
var props = map[string]string{
	"C01": "core", "C02": "core", "C03": "core", "C04": "core", "C05": "core", "C06": "core", "C07": "core",
	"C08": "core", "C09": "core", "C10": "core", "C11": "core", "C12": "core", "C13": "core", "C14": "core",
	"C15": "core", "C29": "core", "C32": "core",
	"C16": "cache", "C17": "cache", "C18": "cache", "C19": "cache", "C20": "cache", "C30": "cache",
	"C21": "disk", "C22": "disk", "C23": "disk", "C24": "disk", "C31": "disk",
	"C25": "cdp", "C26": "cdp", "C27": "race", "C28": "atest",
}

type violation struct {
	Sub   string          `json:"sub"`
	Error string          `json:"error"`
	Plan  json.RawMessage `json:"plan"`
}

type shardResult struct {
	Property    string            `json:"property"`
	Rule        string            `json:"rule"`
	Assumptions []string          `json:"assumptions"`
	Level       string            `json:"level"`
	Evaluations int               `json:"evaluations"`
	Nontrivial  []string          `json:"nontrivial"`
	Subs        map[string]int    `json:"subs"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Violations  []violation       `json:"violations"`
	Known       map[string]int    `json:"known"`
	KnownText   map[string]string `json:"known_text"`
	Cut         bool              `json:"cut"`
	Harness     string            `json:"harness_error"`
}

func fatal(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(code)
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func head(b []byte, n int) string {
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func main() {
	verif, err := os.Getwd()
	if err != nil {
		fatal(2, "getwd: %v", err)
	}
	repo := os.Getenv("VF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work := os.Getenv("VF_WORK")
	if len(os.Args) < 2 || work == "" {
		fatal(2, "usage: check PROPERTY [quick|thorough|replay FILE]")
	}
	id := os.Args[1]
	tier := "quick"
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		tier = v
	}
	replay := ""
	if len(os.Args) > 2 {
		switch os.Args[2] {
		case "quick", "thorough":
			tier = os.Args[2]
		case "replay":
			replay, _ = filepath.Abs(os.Args[3])
		}
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	gname, ok := props[id]
	if !ok {
		fatal(2, "unknown property %q", id)
	}
	g := groups[gname]
	start := time.Now()

	mode, bin, out, err := build(work, repo, verif, g)
	if err != nil {
		fatal(2, "build failed: %v\n%s", err, out)
	}
	buildS := time.Since(start).Seconds()

	nshards := g.Shards
	if nshards == 0 {
		nshards = runtime.NumCPU()
		if nshards > 8 {
			nshards = 8
		}
	}
	// The number of shards is part of what is explored: keep it fixed.
	if g.Shards == 0 {
		nshards = 8
	}
	limit := 300 * time.Second
	if tier == "thorough" {
		limit = 800 * time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("VF_LIMIT_S")); err == nil {
		limit = time.Duration(v) * time.Second
	}

	if replay != "" {
		r := runShard(work, bin, g, id, tier, seed, 0, 1, limit, replay)
		os.Stdout.Write(r.out)
		for _, v := range r.res.Violations {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", id, replay, v.Error)
		}
		if v := r.crash(id); v != nil {
			fmt.Printf("VIOLATION property=%s replay=%s\n%s\n", id, replay, v.Error)
			os.Exit(1)
		}
		if len(r.res.Violations) > 0 {
			os.Exit(1)
		}
		return
	}

	results := make([]shardRun, nshards)
	var wg sync.WaitGroup
	for i := 0; i < nshards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			results[i] = runShard(work, bin, g, id, tier, seed, i, nshards, limit, "")
		}(i)
	}
	wg.Wait()

	var (
		evals, cut int
		nontriv    = map[string]struct{}{}
		subs       = map[string]int{}
		labels     = map[string]int{}
		known      = map[string]int{}
		knownText  = map[string]string{}
		samples    []json.RawMessage
		viols      []violation
		rule       string
		level      = "exploration"
		assume     []string
		broken     []string
	)
	for i := range results {
		r := &results[i]
		if v := r.crash(id); v != nil {
			viols = append(viols, *v)
		} else if r.stalled {
			// Confirm in a fresh process before calling it a hang.
			p := filepath.Join(work, fmt.Sprintf("stall%d.json", i))
			os.WriteFile(p, r.current, 0o644)
			rr := runShard(work, bin, g, id, tier, seed, 0, 1, limit, p)
			if rr.stalled {
				viols = append(viols, violation{Sub: "stall", Error: "a case does not end (confirmed by a second run in a fresh process)\n" + head(rr.out, 6000), Plan: r.current})
			} else if len(rr.res.Violations) > 0 {
				viols = append(viols, rr.res.Violations...)
			} else {
				broken = append(broken, fmt.Sprintf("shard %d: a case stalled once and did not stall again: inconclusive\n%s", i, tail(r.out, 3000)))
			}
		} else if r.err != "" {
			broken = append(broken, r.err)
		}
		if r.res.Harness != "" {
			broken = append(broken, r.res.Harness)
		}
		if r.res.Rule != "" {
			rule = r.res.Rule
		}
		if r.res.Level != "" {
			level = r.res.Level
		}
		if r.res.Assumptions != nil {
			assume = r.res.Assumptions
		}
		evals += r.res.Evaluations
		for _, h := range r.res.Nontrivial {
			nontriv[h] = struct{}{}
		}
		for k, v := range r.res.Subs {
			subs[k] += v
		}
		for k, v := range r.res.Labels {
			labels[k] += v
		}
		for k, v := range r.res.Known {
			known[k] += v
		}
		for k, v := range r.res.KnownText {
			knownText[k] = v
		}
		if i < 2 {
			samples = append(samples, r.res.Samples...)
		}
		viols = append(viols, r.res.Violations...)
		if r.res.Cut {
			cut++
		}
	}
	// Keep the evidence small.
	for len(samples) > 1 {
		b, _ := json.Marshal(samples)
		if len(b) < 20000 {
			break
		}
		samples = samples[:len(samples)-1]
	}
	if len(samples) == 0 {
		samples = []json.RawMessage{}
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(nontriv),
			"rule":                rule,
			"samples":             samples,
			"cases_by_subcheck":   subs,
			"classes":             labels,
			"instrumentation":     mode.String(),
			"processes":           nshards,
			"processes_cut_short": cut,
			"build_s":             buildS,
			"known_findings_hit":  known,
		},
		"assumptions": assume,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viols),
	}
	if assume == nil {
		delete(ev, "assumptions")
	}
	buf, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(buf, '\n'), 0o644); err != nil {
		fatal(2, "evidence: %v", err)
	}
	keys := make([]string, 0, len(knownText))
	for k := range knownText {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownText[k])
	}
	if len(viols) > 0 {
		seen := map[string]bool{}
		for _, v := range viols {
			if seen[v.Sub] {
				continue
			}
			seen[v.Sub] = true
			path := saveReplay(verif, id, v)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  subcheck %s: %s\n", v.Sub, strings.ReplaceAll(head([]byte(v.Error), 4000), "\n", "\n  "))
			if len(seen) >= 4 {
				break
			}
		}
		os.Exit(1)
	}
	if len(broken) > 0 {
		fatal(2, "check error:\n%s", head([]byte(strings.Join(broken, "\n---\n")), 12000))
	}
	fmt.Printf("ok property=%s tier=%s seed=%d cases=%d nontrivial=%d build=%.1fs wall=%.1fs instr=%s cut=%d\n",
		id, tier, seed, evals, len(nontriv), buildS, time.Since(start).Seconds(), mode, cut)
}

func saveReplay(verif, id string, v violation) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	body, _ := json.MarshalIndent(map[string]any{"property": id, "sub": v.Sub, "error": v.Error, "plan": v.Plan}, "", " ")
	h := fnv.New64a()
	h.Write(body)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", id, h.Sum64()))
	os.WriteFile(path, body, 0o644)
	return path
}

// build builds the harness, falling back to less instrumentation when the
// instrumented copy does not compile.
func build(work, repo, verif string, g group) (instrMode, string, string, error) {
	bin := filepath.Join(work, "t.test")
	if err := modfile(work, repo); err != nil {
		return g.Mode, "", "", err
	}
	modes := []instrMode{g.Mode}
	if g.Mode != (instrMode{}) {
		modes = append(modes, instrMode{Yields: g.Mode.Yields && g.Race, OS: g.Mode.OS}, instrMode{})
	}
	var lastOut string
	var lastErr error
	for _, m := range modes {
		overlay, err := writeOverlay(work, repo, verif, m)
		if err != nil {
			lastErr = err
			continue
		}
		args := []string{"test", "-c", "-vet=off", "-overlay", overlay, "-modfile", filepath.Join(work, "go.mod"), "-o", bin}
		if g.Race {
			args = append(args, "-race")
		}
		args = append(args, "./zverif/"+g.Pkg)
		cmd := exec.Command("go", args...)
		cmd.Dir = repo
		out, err := cmd.CombinedOutput()
		if err == nil {
			return m, bin, "", nil
		}
		lastOut, lastErr = lastOut+"\nmode "+m.String()+":\n"+string(out), err
	}
	return instrMode{}, "", lastOut, lastErr
}

const rapidVersion = "v1.3.0"

// modfile writes a copy of the module files that adds rapid.
func modfile(work, repo string) error {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	if !bytes.Contains(b, []byte("pgregory.net/rapid")) {
		b = append(b, []byte("\nrequire pgregory.net/rapid "+rapidVersion+"\n")...)
	}
	if err := os.WriteFile(filepath.Join(work, "go.mod"), b, 0o644); err != nil {
		return err
	}
	s, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		return err
	}
	s = append(s, []byte("\npgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=\npgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=\n")...)
	return os.WriteFile(filepath.Join(work, "go.sum"), s, 0o644)
}

type shardRun struct {
	res     shardResult
	out     []byte
	rc      int
	current []byte
	stalled bool
	err     string
}

var frameRe = regexp.MustCompile(`(?m)^\s+(/[^\s:]+\.go):\d+`)

// crash turns an abnormal end of the process into a violation if the code under
// test caused it.
func (r *shardRun) crash(id string) *violation {
	if r.rc == 0 || r.stalled || len(r.res.Violations) > 0 {
		return nil
	}
	text := string(r.out)
	i := strings.Index(text, "panic: ")
	if j := strings.Index(text, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 || strings.Contains(text[i:min(len(text), i+200)], "out of memory") || strings.Contains(text[i:min(len(text), i+200)], "test timed out") {
		return nil
	}
	trace := text[i:]
	// only the first goroutine matters.
	if j := strings.Index(trace, "\n\ngoroutine "); j >= 0 {
		if k := strings.Index(trace[j+2:], "\n\n"); k >= 0 {
			trace = trace[:j+2+k]
		}
	}
	for _, m := range frameRe.FindAllStringSubmatch(trace, -1) {
		if inRepo(m[1]) {
			return &violation{Sub: "crash", Error: head([]byte(trace), 6000), Plan: plan(r.current)}
		}
		if strings.Contains(m[1], "/verif/h/") || strings.Contains(m[1], "/zverif/") {
			return nil
		}
	}
	return nil
}

func repoDir() string {
	if repo := os.Getenv("VF_REPO"); repo != "" {
		return repo
	}
	return "/repo"
}

func inRepo(p string) bool {
	repo := repoDir()
	return (strings.HasPrefix(p, repo+"/") && !strings.Contains(p, "/zverif/")) || strings.Contains(p, "/inst/")
}

func plan(cur []byte) json.RawMessage {
	if json.Valid(cur) && len(cur) > 0 {
		var c struct {
			Plan json.RawMessage `json:"plan"`
		}
		if json.Unmarshal(cur, &c) == nil && c.Plan != nil {
			return cur
		}
		return cur
	}
	return json.RawMessage("null")
}

func runShard(work, bin string, g group, id, tier string, seed int64, shard, shards int, limit time.Duration, replay string) (r shardRun) {
	dir, err := os.MkdirTemp(work, "shard")
	if err != nil {
		r.err = err.Error()
		r.rc = 2
		return
	}
	scratch := filepath.Join(dir, "tmp")
	os.MkdirAll(scratch, 0o755)
	resPath := filepath.Join(dir, "result.json")
	curPath := filepath.Join(dir, "current.json")
	cmd := exec.Command(bin, "-test.run=^TestVF$", "-test.timeout=0", "-test.count=1")
	cmd.Dir = dir
	verif, _ := os.Getwd()
	env := os.Environ()
	godebug := "asyncpreemptoff=1"
	if g.Race {
		godebug = ""
	}
	env = append(env,
		"VF_PROP="+id, "VF_TIER="+tier, fmt.Sprintf("VF_SEED=%d", seed),
		fmt.Sprintf("VF_SHARD=%d", shard), fmt.Sprintf("VF_SHARDS=%d", shards),
		"VF_OUT="+resPath, "VF_CUR="+curPath, "VF_REPLAY="+replay, "VF_SCRATCH="+scratch,
		"VF_KNOWN="+filepath.Join(verif, "known-findings.txt"),
		fmt.Sprintf("GOMAXPROCS=%d", g.Procs), "GODEBUG="+godebug, "GOGC=200", "GOMEMLIMIT=2GiB",
		"TMPDIR="+scratch, "HTTP_PROXY=", "http_proxy=", "HTTPS_PROXY=", "https_proxy=", "NO_PROXY=*", "TZ=UTC",
		"GORACE=halt_on_error=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+filepath.Join(dir, "race"),
		"VF_RACE_LOG="+filepath.Join(dir, "race"), "VF_REPO_DIR="+repoDir(),
	)
	env = append(env, g.Env...)
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Start(); err != nil {
		r.err = err.Error()
		r.rc = 2
		return
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	select {
	case err = <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		err = <-done
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	r.out = out.Bytes()
	r.current, _ = os.ReadFile(curPath)
	if b, e := os.ReadFile(resPath); e == nil {
		json.Unmarshal(b, &r.res)
	}
	if err != nil {
		r.rc = 2
		if ee, ok := err.(*exec.ExitError); ok {
			r.rc = ee.ExitCode()
		}
	}
	switch {
	case timedOut:
		r.rc = 2
		r.err = fmt.Sprintf("shard %d: time limit of %s reached: inconclusive", shard, limit)
	case r.rc == 44:
		r.stalled = true
	case r.rc != 0 && len(r.res.Violations) == 0:
		r.err = fmt.Sprintf("shard %d: exit %d\n%s", shard, r.rc, head(r.out, 5000))
	case r.rc == 0 && r.res.Property == "":
		r.rc = 2
		r.err = fmt.Sprintf("shard %d: no result\n%s", shard, head(r.out, 5000))
	}
	return
}
