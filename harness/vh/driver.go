package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/gen"
)

// Failure is one violation seen by a monitor.
type Failure struct {
	Phase string            `json:"phase"`
	Case  int64             `json:"case"`
	What  string            `json:"what"`
	Info  map[string]string `json:"info,omitempty"`
}

// Ctx is a shard's state.
type Ctx struct {
	ID, Tier   string
	Seed       int64
	Shard, Of  int
	OnlyPhase  string
	OnlyCase   int64
	Dir        string // scratch, shared by the shards
	Evals      int64
	Counts     map[string]int64
	Samples    []string
	Fails      []Failure
	distinct   map[uint64]struct{}
	journal    *os.File
	phase      string
	k          int64
	hints      gen.Hints
	nsample    int
	progressed int64
}

type stop struct{}

// Cases runs f for this shard's part of n cases. What a case is depends on the
// run's PRNG value, the check, the phase and the number of the case only.
func (c *Ctx) Cases(phase string, n int, f func(g *gen.G)) {
	if c.OnlyPhase != "" && c.OnlyPhase != phase {
		return
	}
	c.phase = phase
	for k := int64(c.Shard); k < int64(n); k += int64(c.Of) {
		if c.OnlyPhase != "" && c.OnlyCase != k {
			continue
		}
		c.k = k
		c.mark()
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%s/%d", c.Seed, c.ID, phase, k)
		g := gen.New(int64(h.Sum64()), c.hints)
		c.Evals++
		c.one(f, g)
	}
}

// one runs a case. A mistake of the generator itself (which never calls the code under
// test) only costs the case.
func (c *Ctx) one(f func(g *gen.G), g *gen.G) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		if _, ok := e.(stop); ok || !inGenerator() {
			panic(e)
		}
		c.Count("cases given up: the generator failed")
	}()
	f(g)
}

// inGenerator tells whether the panic under way comes from the generator.
func inGenerator() bool {
	pc := make([]uintptr, 100)
	fr := runtime.CallersFrames(pc[:runtime.Callers(2, pc)])
	panicked := false
	for {
		x, more := fr.Next()
		switch {
		case strings.HasPrefix(x.Function, "runtime.") && strings.Contains(x.Function, "panic"):
			panicked = true
		case !panicked || strings.HasPrefix(x.Function, "runtime.") || strings.HasPrefix(x.Function, "math/rand."):
		default:
			return strings.HasPrefix(x.Function, "verif/gen.")
		}
		if !more {
			return false
		}
	}
}

// K is the number of the case.
func (c *Ctx) K() int64 { return c.k }

func (c *Ctx) mark() {
	if c.journal != nil {
		c.progressed++
		var b [8 + 8 + 32]byte
		binary.LittleEndian.PutUint64(b[:], uint64(c.k))
		binary.LittleEndian.PutUint64(b[8:], uint64(c.progressed))
		copy(b[16:], c.phase)
		c.journal.WriteAt(b[:], 0)
	}
}

// Quick is true in the quick tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// often: how many times over the quick counts are run, where cases are cheap.
var often = map[string]int{"C02": 2, "C03": 3, "C04": 3, "C05": 3, "C06": 3, "C09": 2, "C10": 2, "C12": 4, "C13": 3, "C14": 3, "C15": 4,
	"C16": 3, "C19": 4, "C22": 2, "C23": 2, "C24": 3, "C25": 3, "C26": 2}

// N is a number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	n := thorough
	if c.Quick() {
		n = quick * max(1, often[c.ID])
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil { // for trying things out
		n = max(1, int(float64(n)*f))
	}
	return n
}

// Count counts an event seen by a monitor.
func (c *Ctx) Count(ev string) { c.Counts[ev]++ }

// Add counts events.
func (c *Ctx) Add(ev string, n int) { c.Counts[ev] += int64(n) }

// Seen records a non-trivial case by its identity.
func (c *Ctx) Seen(parts ...[]byte) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0xff, 0})
	}
	c.distinct[h.Sum64()] = struct{}{}
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if c.nsample < 3 {
		c.nsample++
		s := fmt.Sprintf(format, a...)
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.Samples = append(c.Samples, s)
	}
}

// WantSample says whether more samples are wanted.
func (c *Ctx) WantSample() bool { return c.nsample < 3 }

// Fail records a violation.
func (c *Ctx) Fail(what string, info ...string) {
	f := Failure{Phase: c.phase, Case: c.k, What: what, Info: map[string]string{}}
	for i := 0; i+1 < len(info); i += 2 {
		f.Info[info[i]] = info[i+1]
	}
	c.Fails = append(c.Fails, f)
	if len(c.Fails) >= 3 {
		panic(stop{})
	}
}

// FailIn records a violation with its input.
func (c *Ctx) FailIn(what string, data []byte, info ...string) {
	c.Fail(what, append(info, "input_base64", base64.StdEncoding.EncodeToString(data))...)
}

type shardResult struct {
	Evals   int64
	Counts  map[string]int64
	Samples []string
	Fails   []Failure
	Hashes  int
	Skip    string
}

// Check is one property's check.
type Check struct {
	Run    func(*Ctx)
	Rule   string
	Procs  int      // worker processes (0: number of CPUs)
	Need   []string // monitor events without which the run says nothing
	Assume []string
	CPU    int // seconds of CPU a single case may take
	MemMB  int // resident memory of a worker
	Env    []string
}

var checks = map[string]*Check{}

func repoDir() string { return "/repo" }

func newCtx(id string) *Ctx {
	c := &Ctx{ID: id, Tier: os.Getenv("VERIF_TIER"), Of: 1, OnlyCase: -1, Counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed = 1
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.Seed = v
	}
	c.hints, _ = mine(repoDir())
	return c
}

// worker: vh worker ID SHARD OF DIR [PHASE CASE]
func worker(a []string) {
	ck := checks[a[0]]
	c := newCtx(a[0])
	c.Shard, _ = strconv.Atoi(a[1])
	c.Of, _ = strconv.Atoi(a[2])
	c.Dir = a[3]
	if len(a) > 5 {
		c.OnlyPhase = a[4]
		c.OnlyCase, _ = strconv.ParseInt(a[5], 10, 64)
	}
	base := filepath.Join(c.Dir, fmt.Sprintf("w%d", c.Shard))
	c.journal, _ = os.Create(base + ".journal")
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stop); !ok {
					panic(e)
				}
			}
		}()
		ck.Run(c)
	}()
	r := shardResult{Evals: c.Evals, Counts: c.Counts, Samples: c.Samples, Fails: c.Fails, Hashes: len(c.distinct)}
	b, _ := json.Marshal(r)
	hb := make([]byte, 0, 8*len(c.distinct))
	for h := range c.distinct {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	must(os.WriteFile(base+".hash", hb, 0o600))
	must(os.WriteFile(base+".json", b, 0o600))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

type ended struct {
	shard int
	why   string // "", or how it went wrong
	phase string
	k     int64
	tail  string
}

// superv runs one worker process under watch.
func superv(id string, shard, of int, dir string, ck *Check, only []string) ended {
	cpu, mem := ck.CPU, ck.MemMB
	if cpu == 0 {
		cpu = 60
	}
	if mem == 0 {
		mem = 3000
	}
	args := append([]string{"worker", id, strconv.Itoa(shard), strconv.Itoa(of), dir}, only...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(append(os.Environ(), "TZ=Asia/Kolkata"), ck.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	lf, err := os.Create(filepath.Join(dir, fmt.Sprintf("w%d.log", shard)))
	must(err)
	defer lf.Close()
	cmd.Stdout, cmd.Stderr = lf, lf
	base := filepath.Join(dir, fmt.Sprintf("w%d", shard))
	os.Remove(base + ".json")
	os.Remove(base + ".journal")
	must(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	e := ended{shard: shard}
	pos := func() (phase string, k int64, prog uint64) {
		b, _ := os.ReadFile(base + ".journal")
		if len(b) < 48 {
			return
		}
		return strings.TrimRight(string(b[16:48]), "\x00"), int64(binary.LittleEndian.Uint64(b)), binary.LittleEndian.Uint64(b[8:])
	}
	var lastProg uint64
	var cpuAt float64
	wallAt := time.Now()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	kill := func(why string) {
		e.why = why
		e.phase, e.k, _ = pos()
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
	}
	for {
		select {
		case err := <-done:
			if _, se := os.Stat(base + ".json"); err != nil || se != nil {
				e.why = "crash"
				e.phase, e.k, _ = pos()
				b, _ := os.ReadFile(base + ".log")
				if len(b) > 3000 {
					b = b[:3000]
				}
				e.tail = string(b)
			}
			return e
		case <-tick.C:
			_, _, prog := pos()
			used, rss := procUse(cmd.Process.Pid)
			if prog != lastProg {
				lastProg, cpuAt, wallAt = prog, used, time.Now()
			}
			if used-cpuAt > float64(cpu) {
				kill(fmt.Sprintf("no end after %d s of CPU time in one case", cpu))
				return e
			}
			if time.Since(wallAt) > 400*time.Second {
				kill("stuck")
				return e
			}
			if rss > mem {
				kill(fmt.Sprintf("more than %d MB of memory", mem))
				return e
			}
		}
	}
}

func procUse(pid int) (cpu float64, rssMB int) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return
	}
	s := string(b)
	if i := strings.LastIndexByte(s, ')'); i >= 0 {
		f := strings.Fields(s[i+1:])
		if len(f) > 21 {
			u, _ := strconv.ParseFloat(f[11], 64)
			v, _ := strconv.ParseFloat(f[12], 64)
			r, _ := strconv.Atoi(f[21])
			return (u + v) / 100, r * (os.Getpagesize() / 1024) / 1024
		}
	}
	return
}

// check: vh check ID
func check(id string) int {
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		return 3
	}
	start := time.Now()
	verif := os.Getenv("VERIF_DIR")
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	must(err)
	defer os.RemoveAll(dir)
	n := ck.Procs
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
	}
	if p, err := strconv.Atoi(os.Getenv("VERIF_PROCS")); err == nil { // for trying things out
		n = p
	}
	res := make(chan ended, n)
	for i := 0; i < n; i++ {
		go func(i int) { res <- superv(id, i, n, dir, ck, nil) }(i)
	}
	var fails []Failure
	var bad []ended
	for i := 0; i < n; i++ {
		if e := <-res; e.why != "" {
			bad = append(bad, e)
		}
	}
	tot := shardResult{Counts: map[string]int64{}}
	distinct := map[uint64]struct{}{}
	for i := 0; i < n; i++ {
		base := filepath.Join(dir, fmt.Sprintf("w%d", i))
		b, err := os.ReadFile(base + ".json")
		if err != nil {
			continue
		}
		var r shardResult
		must(json.Unmarshal(b, &r))
		tot.Evals += r.Evals
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for j, s := range r.Samples {
			if i == 0 || j == 0 {
				tot.Samples = append(tot.Samples, s)
			}
		}
		fails = append(fails, r.Fails...)
		h, _ := os.ReadFile(base + ".hash")
		for ; len(h) >= 8; h = h[8:] {
			distinct[binary.LittleEndian.Uint64(h)] = struct{}{}
		}
	}
	inconclusive := ""
	for i, e := range bad { // confirm: the same case alone
		if i >= 2 {
			break
		}
		if e.phase == "" {
			inconclusive = "worker ended early: " + e.why + " " + e.tail
			continue
		}
		if strings.Contains(e.tail, "WARNING: DATA RACE") { // the detector has no false positives, and a race need not show again
			fails = append(fails, Failure{Phase: e.phase, Case: e.k, What: "data race", Info: map[string]string{"output": e.tail}})
			continue
		}
		d2 := filepath.Join(dir, "confirm")
		os.MkdirAll(d2, 0o700)
		r := superv(id, 0, 1, d2, ck, []string{e.phase, strconv.FormatInt(e.k, 10)})
		if r.why != "" && r.why != "stuck" {
			fails = append(fails, Failure{Phase: e.phase, Case: e.k, What: "the tool does not survive this case: " + r.why, Info: map[string]string{"output": r.tail}})
		} else {
			if b, err := os.ReadFile(filepath.Join(d2, "w0.json")); err == nil {
				var sr shardResult
				if json.Unmarshal(b, &sr) == nil && len(sr.Fails) > 0 {
					fails = append(fails, sr.Fails...)
					continue
				}
			}
			// the cases before it may matter: the same worker once more
			d3 := filepath.Join(dir, "again")
			os.MkdirAll(d3, 0o700)
			if r := superv(id, e.shard, n, d3, ck, nil); r.why != "" && r.why != "stuck" && e.why != "stuck" && r.phase == e.phase && r.k == e.k {
				fails = append(fails, Failure{Phase: e.phase, Case: e.k, What: fmt.Sprintf("the tool does not survive this case after the cases before it (worker %d of %d): %s", e.shard, n, r.why), Info: map[string]string{"output": r.tail}})
				continue
			}
			inconclusive = fmt.Sprintf("worker %d: %s at %s/%d, not reproduced alone: %s", e.shard, e.why, e.phase, e.k, e.tail)
		}
	}
	if len(fails) == 0 && len(bad) == 0 {
		for _, need := range ck.Need {
			if tot.Counts[need] == 0 {
				inconclusive = "no event seen: " + need
			}
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": newTier(), "seed": seedEnv(), "level": level(id),
		"coverage": map[string]interface{}{
			"evaluations": tot.Evals, "distinct_nontrivial": len(distinct), "rule": ck.Rule,
			"samples": tot.Samples, "observed": tot.Counts, "worker_processes": n,
		},
		"assumptions": append([]string{"only the executions counted here were observed"}, ck.Assume...),
		"wall_s":      time.Since(start).Seconds(), "violations": len(fails),
	}
	if inconclusive != "" {
		ev["inconclusive"] = inconclusive
	}
	var eb bytes.Buffer
	je := json.NewEncoder(&eb)
	je.SetEscapeHTML(false)
	je.SetIndent("", " ")
	must(je.Encode(ev))
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	must(os.WriteFile(filepath.Join(verif, "evidence", id+".json"), eb.Bytes(), 0o644))
	if len(fails) > 0 {
		f := fails[0]
		rd := filepath.Join(verif, "evidence", "replays")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, id+".json")
		rb, _ := json.MarshalIndent(map[string]interface{}{"property": id, "tier": newTier(), "seed": seedEnv(), "failures": fails,
			"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/run.sh %s %s %d", seedEnv(), newTier(), id, f.Phase, f.Case)}, "", " ")
		must(os.WriteFile(rp, append(rb, '\n'), 0o644))
		for i, f := range fails {
			if i < 5 {
				fmt.Printf("%s case %s/%d: %s\n", id, f.Phase, f.Case, f.What)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", id, inconclusive)
		return 2
	}
	fmt.Printf("held property=%s on %d executions (%d distinct), %.1f s\n", id, tot.Evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func newTier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func seedEnv() int64 {
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

func level(id string) string {
	if id == "C09" || id == "C11" {
		return "fault_enumeration"
	}
	return "exploration"
}

// one: vh one ID PHASE CASE runs a single case and shows what the monitors say.
func one(a []string) int {
	dir, err := os.MkdirTemp("", "vh-one-")
	must(err)
	defer os.RemoveAll(dir)
	ck := checks[a[0]]
	if ck == nil {
		must(errors.New("no such check"))
	}
	r := superv(a[0], 0, 1, dir, ck, a[1:3])
	if r.why != "" {
		fmt.Println(r.why, r.tail)
		return 1
	}
	b, _ := os.ReadFile(filepath.Join(dir, "w0.json"))
	fmt.Println(string(b))
	var sr shardResult
	json.Unmarshal(b, &sr)
	if len(sr.Fails) > 0 {
		return 1
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "known": // the list for known.txt
		_, l := mine(repoDir())
		fmt.Println(strings.Join(l, "\n"))
	case "hot":
		h, _ := mine(repoDir())
		fmt.Printf("%d integers, %d strings; hot: %v %q\n", len(h.Ints), len(h.Strs), h.Hot, h.HotStrs)
	case "worker":
		worker(os.Args[2:])
	case "one":
		os.Exit(one(os.Args[2:]))
	default:
		if h := helpers[os.Args[1]]; h != nil {
			h(os.Args[2:])
			return
		}
		os.Exit(3)
	}
}

var helpers = map[string]func([]string){}
