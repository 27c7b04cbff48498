// Package core is the exhaustive-enumeration engine shared by all checks.
//
// A property is decided by one or more Spaces. A Space is a finite, totally
// ordered set of cases (indices 0..N-1); every index is executed exactly once,
// sharded over worker processes so that a fatal crash of the code under test
// (stack overflow, memory fault, runtime throw) is attributed to the case that
// was running. Nothing is sampled.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Space is a finite enumerated set of cases.
type Space struct {
	Name string
	N    int64
	// Run executes case i. It reports violations through c.
	Run func(i int64, c *Ctx)
	// Describe, if set, renders case i for evidence samples and replay files.
	Describe func(i int64) string
	// Serial spaces run on one shard only (case order matters or in-process state is shared).
	Serial bool
	// Block is the number of consecutive indices given to the same shard
	// (default 64; use larger blocks for spaces that cache per-schema set-up).
	Block int64
	// HangSecs: no progress on one case for that long is a hang (default 120).
	HangSecs int
}

// Prop is one property: id and the spaces deciding it.
type Prop struct {
	ID     string
	Level  string
	Rule   string
	Bounds string
	Assume []string
	Spaces func(tier string) []*Space
	// Extra is called in the parent after all spaces, to add evidence fields.
	MemLimitMB int
	// Env is added to the environment of the worker processes.
	Env []string
}

// Failure is one counterexample.
type Failure struct {
	Space  string `json:"space"`
	Case   int64  `json:"case"`
	Key    string `json:"key"`
	Detail string `json:"detail"`
	Desc   string `json:"desc,omitempty"`
	Crash  bool   `json:"crash,omitempty"`
}

// Ctx is handed to each case.
type Ctx struct {
	w        *worker
	space    *Space
	idx      int64
	failures []Failure
}

// Fail records a violation. key identifies the failing input class precisely
// (it is what the known-findings file lists).
func (c *Ctx) Fail(key, format string, a ...any) {
	c.failures = append(c.failures, Failure{Space: c.space.Name, Case: c.idx, Key: key, Detail: fmt.Sprintf(format, a...)})
}
func (c *Ctx) Failed() bool { return len(c.failures) > 0 }

// State records a distinct observed state.
func (c *Ctx) State(h uint64) {
	if len(c.w.states) < maxStates {
		c.w.states[h] = struct{}{}
	} else {
		c.w.res.StatesCapped = true
	}
}
func (c *Ctx) StateBytes(bs ...[]byte) {
	h := uint64(14695981039346656037)
	for _, b := range bs {
		for _, x := range b {
			h ^= uint64(x)
			h *= 1099511628211
		}
		h ^= 0xff51
		h *= 1099511628211
	}
	c.State(h)
}
func (c *Ctx) StateStr(s string) { c.StateBytes(unsafe.Slice(unsafe.StringData(s), len(s))) }

// Trans counts operations executed on the real code.
func (c *Ctx) Trans(n int) { c.w.res.Transitions += int64(n) }

// Trace counts complete histories compared between model and implementation.
func (c *Ctx) Trace(n int) { c.w.res.Traces += int64(n) }

// Count increments a named counter that ends up in the evidence.
func (c *Ctx) Count(name string, n int64) { c.w.res.Counters[name] += n }

// Crumb notes what is about to be executed (survives a crash of the process).
func (c *Ctx) Crumb(s string) { c.w.j.note(s) }

const maxStates = 1 << 21

type result struct {
	Done         bool
	Deadline     bool
	Cases        map[string]int64
	Transitions  int64
	Traces       int64
	Counters     map[string]int64
	StatesCapped bool
	Failures     []Failure
	Samples      []string
}

type worker struct {
	res    result
	states map[uint64]struct{}
	j      *journal
}

// journal is a small shared-memory file telling the parent what is running.
type journal struct{ b []byte }

const journalSize = 4096

func openJournal(path string, create bool) *journal {
	fl := os.O_RDWR
	if create {
		fl |= os.O_CREATE | os.O_TRUNC
	}
	f, err := os.OpenFile(path, fl, 0600)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if create {
		if err := f.Truncate(journalSize); err != nil {
			panic(err)
		}
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return &journal{b: b}
}
func (j *journal) close() { _ = syscall.Munmap(j.b) }
func (j *journal) set(space, idx int64) {
	if j == nil {
		return
	}
	p := (*[3]int64)(unsafe.Pointer(&j.b[0]))
	p[0] = space
	p[1] = idx
	p[2]++
	j.b[24] = 0
	j.b[25] = 0
}
func (j *journal) get() (space, idx, seq int64, note string) {
	p := (*[3]int64)(unsafe.Pointer(&j.b[0]))
	n := int(j.b[24]) | int(j.b[25])<<8
	if n > journalSize-32 {
		n = 0
	}
	return p[0], p[1], p[2], string(j.b[26 : 26+n])
}
func (j *journal) note(s string) {
	if j == nil {
		return
	}
	if len(s) > journalSize-64 {
		s = s[:journalSize-64]
	}
	copy(j.b[26:], s)
	j.b[24] = byte(len(s))
	j.b[25] = byte(len(s) >> 8)
}

func runCase(w *worker, s *Space, si int, i int64) []Failure {
	c := &Ctx{w: w, space: s, idx: i}
	w.j.set(int64(si), i)
	func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				c.Fail("panic:"+panicKey(r), "panic: %v\n%s", r, trimStack(st))
				c.failures[len(c.failures)-1].Crash = true
			}
		}()
		s.Run(i, c)
	}()
	if len(c.failures) > 0 && s.Describe != nil {
		d := safeDescribe(s, i)
		for k := range c.failures {
			c.failures[k].Desc = d
		}
	}
	return c.failures
}

func safeDescribe(s *Space, i int64) (d string) {
	defer func() {
		if r := recover(); r != nil {
			d = fmt.Sprintf("(describe panicked: %v)", r)
		}
	}()
	return s.Describe(i)
}

func panicKey(r any) string {
	s := fmt.Sprint(r)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// ---- worker side ----

func WorkerMain(p *Prop, tier string, shard, nshards int, jpath, outpath string, deadline time.Time) {
	debug.SetPanicOnFault(true)
	// a goroutine stack beyond this is runaway recursion; far below physical memory
	debug.SetMaxStack(256 << 20)
	w := &worker{states: map[uint64]struct{}{}, j: openJournal(jpath, false)}
	w.res.Cases = map[string]int64{}
	w.res.Counters = map[string]int64{}
	spaces := p.Spaces(tier)
	nfail := 0
	keys := map[string]int{}
	for si, s := range spaces {
		blk := s.Block
		if blk <= 0 {
			blk = 64
		}
		if s.Serial && shard != si%nshards {
			continue
		}
		var n int64
		for b := int64(0); b*blk < s.N; b++ {
			if !s.Serial && int(b%int64(nshards)) != (shard+si)%nshards {
				continue
			}
			for i := b * blk; i < s.N && i < (b+1)*blk; i++ {
				if n&15 == 0 && time.Now().After(deadline) {
					w.res.Deadline = true
					goto next
				}
				ff := runCase(w, s, si, i)
				n++
				for _, f := range ff {
					keys[f.Key]++
					if keys[f.Key] <= 2 && nfail < 200 {
						w.res.Failures = append(w.res.Failures, f)
						nfail++
					}
				}
			}
		}
	next:
		w.res.Cases[s.Name] += n
		if s.Describe != nil && s.N > 0 && shard == si%nshards {
			w.res.Samples = append(w.res.Samples, s.Name+": "+clip(safeDescribe(s, s.N/2), 300))
		}
	}
	w.res.Done = true
	b, _ := json.Marshal(&w.res)
	if err := os.WriteFile(outpath, b, 0600); err != nil {
		panic(err)
	}
	st := make([]uint64, 0, len(w.states))
	for h := range w.states {
		st = append(st, h)
	}
	if len(st) > 0 {
		raw := unsafe.Slice((*byte)(unsafe.Pointer(&st[0])), len(st)*8)
		_ = os.WriteFile(outpath+".states", raw, 0600)
	}
}

// OneMain re-runs single cases (space:case) in this process and prints failures as JSON.
func OneMain(p *Prop, tier, space string, idx int64, out string) {
	debug.SetPanicOnFault(true)
	debug.SetMaxStack(256 << 20)
	w := &worker{states: map[uint64]struct{}{}}
	w.res.Cases = map[string]int64{}
	w.res.Counters = map[string]int64{}
	for si, s := range p.Spaces(tier) {
		if s.Name != space {
			continue
		}
		ff := runCase(w, s, si, idx)
		b, _ := json.MarshalIndent(ff, "", " ")
		if out == "" {
			os.Stdout.Write(append(b, '\n'))
		} else {
			_ = os.WriteFile(out, b, 0600)
		}
		return
	}
	fmt.Println("no such space", space)
	os.Exit(3)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- parent side ----

type known struct {
	Kind     string `json:"kind"` // known | fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(path string) map[string]known {
	m := map[string]known{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] != '{' {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Kind == "known" {
			m[k.Property+"|"+k.Key] = k
		}
	}
	return m
}

type Config struct {
	Verif   string // /verif
	Tier    string
	Seed    int
	Shards  int
	Budget  time.Duration
	Self    string
	Verbose bool
}

type shardState struct {
	cmd     *exec.Cmd
	j       *journal
	jpath   string
	out     string
	errpath string
	done    chan struct{}
	err     error
	lastSeq int64
	lastT   time.Time
	hung    bool
}

// ParentMain runs the whole check. Returns the exit code.
func ParentMain(p *Prop, cfg Config) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+p.ID+"-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	spaces := p.Spaces(cfg.Tier)
	deadline := start.Add(cfg.Budget)
	ss := make([]*shardState, cfg.Shards)
	for k := range ss {
		ss[k] = startShard(p, cfg, dir, k, deadline, "")
	}
	watch(ss, spaces)

	var fails []Failure
	agg := result{Cases: map[string]int64{}, Counters: map[string]int64{}}
	states := map[uint64]struct{}{}
	collect := func(k int, s *shardState) bool {
		b, err := os.ReadFile(s.out)
		var r result
		if err != nil || json.Unmarshal(b, &r) != nil || !r.Done {
			return false
		}
		for n, c := range r.Cases {
			agg.Cases[n] += c
		}
		for n, c := range r.Counters {
			agg.Counters[n] += c
		}
		agg.Transitions += r.Transitions
		agg.Traces += r.Traces
		agg.Deadline = agg.Deadline || r.Deadline
		agg.StatesCapped = agg.StatesCapped || r.StatesCapped
		agg.Samples = append(agg.Samples, r.Samples...)
		fails = append(fails, r.Failures...)
		if raw, err := os.ReadFile(s.out + ".states"); err == nil && len(raw) >= 8 {
			for _, h := range unsafe.Slice((*uint64)(unsafe.Pointer(&raw[0])), len(raw)/8) {
				states[h] = struct{}{}
			}
		}
		return true
	}
	incomplete := false
	for k, s := range ss {
		if collect(k, s) {
			continue
		}
		// the worker died: classify
		si, idx, _, note := s.j.get()
		tail := tailFile(s.errpath, 4000)
		what := "worker process died"
		if s.hung {
			what = "no progress (hang)"
		}
		if int(si) >= len(spaces) {
			fmt.Printf("ERROR %s: shard %d died before its first case: %v\n%s\n", p.ID, k, s.err, tail)
			return 3
		}
		sp := spaces[si]
		if isEnded(tail, s.err) && !s.hung {
			// killed by the sandbox's memory guard or similar: not a verdict
			fmt.Printf("NOTE %s: shard %d was killed externally (%v) at %s/%d\n", p.ID, k, s.err, sp.Name, idx)
		}
		f := Failure{Space: sp.Name, Case: idx, Key: "crash:" + crashKey(tail, s.hung), Crash: true,
			Detail: what + " " + note + "\n" + tail, Desc: ""}
		if sp.Describe != nil {
			f.Desc = safeDescribe(sp, idx)
		}
		// confirm on the single case
		hit := 0
		for r := 0; r < 3; r++ {
			died, ff := rerun(p, cfg, dir, sp, idx)
			if died {
				hit++
			} else if len(ff) > 0 {
				fails = append(fails, ff...)
				hit++
			}
		}
		if hit == 0 {
			// needs the shard's history: replay the shard once
			s2 := startShard(p, cfg, dir, k, time.Now().Add(cfg.Budget), "r")
			watch([]*shardState{s2}, spaces)
			if collect(k, s2) {
				fmt.Printf("NOTE %s: shard %d died once at %s/%d and did not die again; not reported\n%s\n", p.ID, k, sp.Name, idx, clip(tail, 1500))
				continue
			}
			f.Detail = "(reproduces only with the shard's history: -shard " + strconv.Itoa(k) + ") " + f.Detail
		}
		fails = append(fails, f)
		incomplete = true
	}

	// confirm, classify against known findings
	kn := loadKnown(filepath.Join(cfg.Verif, "known_findings.jsonl"))
	seenKnown := map[string]Failure{}
	var viol []Failure
	perKey := map[string]int{}
	sort.SliceStable(fails, func(a, b int) bool {
		if fails[a].Space != fails[b].Space {
			return fails[a].Space < fails[b].Space
		}
		return fails[a].Case < fails[b].Case
	})
	for _, f := range fails {
		if k, ok := kn[p.ID+"|"+f.Key]; ok {
			if _, dup := seenKnown[k.Key]; !dup {
				seenKnown[k.Key] = f
			}
			continue
		}
		perKey[f.Key]++
		if perKey[f.Key] > 1 {
			continue
		}
		viol = append(viol, f)
	}
	var knownKeys []string
	for k := range seenKnown {
		knownKeys = append(knownKeys, k)
	}
	sort.Strings(knownKeys)
	for _, k := range knownKeys {
		fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", p.ID, kn[p.ID+"|"+k].What, k)
	}
	nviol := 0
	rdir := filepath.Join(cfg.Verif, "evidence", "replay")
	var lines []string
	for n, f := range viol {
		if n >= 12 {
			break
		}
		sp := findSpace(spaces, f.Space)
		if !f.Crash && sp != nil && !sp.Serial {
			// re-run: a violation must reproduce
			hits := 0
			for r := 0; r < 5; r++ {
				died, ff := rerun(p, cfg, dir, sp, f.Case)
				if died || hasKey(ff, f.Key) {
					hits++
				}
			}
			f.Detail = fmt.Sprintf("[reproduced %d/5] ", hits) + f.Detail
		}
		nviol++
		_ = os.MkdirAll(rdir, 0755)
		h := fnv.New32a()
		h.Write([]byte(f.Key))
		path := filepath.Join(rdir, fmt.Sprintf("%s-%08x.json", p.ID, h.Sum32()))
		b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "tier": cfg.Tier, "space": f.Space, "case": f.Case,
			"key": f.Key, "detail": f.Detail, "input": f.Desc,
			"rerun": fmt.Sprintf("bash run.sh %s --one %s %d --tier %s", p.ID, f.Space, f.Case, cfg.Tier)}, "", " ")
		_ = os.WriteFile(path, b, 0644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, path))
		fmt.Printf("--- %s %s/%d key=%s\n%s\ninput: %s\n", p.ID, f.Space, f.Case, f.Key, clip(f.Detail, 1500), clip(f.Desc, 400))
	}

	var cases int64
	full := true
	per := map[string]any{}
	for _, s := range spaces {
		cases += agg.Cases[s.Name]
		per[s.Name] = fmt.Sprintf("%d/%d", agg.Cases[s.Name], s.N)
		if agg.Cases[s.Name] != s.N {
			full = false
		}
	}
	if incomplete {
		full = false
	}
	cov := map[string]any{
		"states":                        len(states),
		"transitions":                   agg.Transitions,
		"traces_validated_against_impl": agg.Traces,
		"evaluations":                   cases,
		"exhaustive":                    full && !agg.Deadline,
		"spaces":                        per,
		"samples":                       samples(agg.Samples),
		"rule":                          p.Rule,
		"bounds":                        p.Bounds,
	}
	if agg.StatesCapped {
		cov["states_note"] = "the distinct-state set was capped; the count is a lower bound"
	}
	for n, c := range agg.Counters {
		cov["n_"+n] = c
	}
	ev := map[string]any{
		"property": p.ID, "tier": cfg.Tier, "seed": cfg.Seed, "level": p.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": p.Assume,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(cfg.Verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(cfg.Verif, "evidence", p.ID+".json"), b, 0644); err != nil {
		fmt.Println("ERROR writing evidence:", err)
		return 3
	}
	fmt.Printf("%s tier=%s cases=%d states=%d transitions=%d traces=%d exhaustive=%v violations=%d known=%d wall=%.1fs\n",
		p.ID, cfg.Tier, cases, len(states), agg.Transitions, agg.Traces, full && !agg.Deadline, nviol, len(seenKnown), time.Since(start).Seconds())
	for _, s := range spaces {
		fmt.Printf("  space %-28s %v\n", s.Name, per[s.Name])
	}
	for n, c := range agg.Counters {
		fmt.Printf("  %s=%d\n", n, c)
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func samples(s []string) []string {
	sort.Strings(s)
	if len(s) > 12 {
		s = s[:12]
	}
	if len(s) == 0 {
		s = []string{"(see spaces)"}
	}
	return s
}

func hasKey(ff []Failure, k string) bool {
	for _, f := range ff {
		if f.Key == k {
			return true
		}
	}
	return false
}

func findSpace(ss []*Space, n string) *Space {
	for _, s := range ss {
		if s.Name == n {
			return s
		}
	}
	return nil
}

func isEnded(tail string, err error) bool {
	return err != nil && strings.Contains(err.Error(), "killed") && !strings.Contains(tail, "goroutine")
}

func crashKey(tail string, hung bool) string {
	if hung {
		return "hang"
	}
	for _, l := range strings.Split(tail, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") || strings.HasPrefix(l, "checkptr") || strings.Contains(l, "ERROR: AddressSanitizer") {
			return clip(l, 80)
		}
	}
	return "died"
}

func tailFile(path string, n int) string {
	b, err := os.ReadFile(path)
	if err != nil {
		return ""
	}
	// the head of a Go crash is the informative part
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

func startShard(p *Prop, cfg Config, dir string, k int, deadline time.Time, sfx string) *shardState {
	s := &shardState{done: make(chan struct{})}
	s.jpath = filepath.Join(dir, fmt.Sprintf("j%d%s", k, sfx))
	s.out = filepath.Join(dir, fmt.Sprintf("o%d%s", k, sfx))
	s.errpath = filepath.Join(dir, fmt.Sprintf("e%d%s", k, sfx))
	s.j = openJournal(s.jpath, true)
	(*[3]int64)(unsafe.Pointer(&s.j.b[0]))[0] = 1 << 40
	ef, _ := os.Create(s.errpath)
	s.cmd = exec.Command(cfg.Self, "-worker", "-prop", p.ID, "-tier", cfg.Tier, "-shard", strconv.Itoa(k), "-nshards", strconv.Itoa(cfg.Shards),
		"-journal", s.jpath, "-out", s.out, "-deadline", strconv.FormatInt(deadline.Unix(), 10))
	s.cmd.Stdout = ef
	s.cmd.Stderr = ef
	mem := p.MemLimitMB
	if mem == 0 {
		mem = 2500
	}
	s.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", fmt.Sprintf("GOMEMLIMIT=%dMiB", mem), "GOTRACEBACK=single")
	s.cmd.Env = append(s.cmd.Env, p.Env...)
	s.lastT = time.Now()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	go func() {
		s.err = s.cmd.Wait()
		ef.Close()
		close(s.done)
	}()
	return s
}

func watch(ss []*shardState, spaces []*Space) {
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	for {
		alive := false
		for _, s := range ss {
			select {
			case <-s.done:
				continue
			default:
			}
			alive = true
			si, _, seq, _ := s.j.get()
			lim := 150
			if si >= 0 && int(si) < len(spaces) && spaces[si].HangSecs > 0 {
				lim = spaces[si].HangSecs
			}
			if seq != s.lastSeq {
				s.lastSeq = seq
				s.lastT = time.Now()
			} else if time.Since(s.lastT) > time.Duration(lim)*time.Second && !s.hung && int(si) < len(spaces) {
				s.hung = true
				_ = s.cmd.Process.Kill()
			}
		}
		if !alive {
			return
		}
		<-t.C
	}
}

// rerun executes one case in a fresh process.
func rerun(p *Prop, cfg Config, dir string, s *Space, idx int64) (died bool, ff []Failure) {
	out := filepath.Join(dir, "one.json")
	_ = os.Remove(out)
	cmd := exec.Command(cfg.Self, "-one", "-prop", p.ID, "-tier", cfg.Tier, "-space", s.Name, "-case", strconv.FormatInt(idx, 10), "-out", out)
	cmd.Env = append(append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single"), p.Env...)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	ch := make(chan error, 1)
	go func() { ch <- cmd.Wait() }()
	var err error
	var once sync.Once
	lim := s.HangSecs
	if lim == 0 {
		lim = 150
	}
	select {
	case err = <-ch:
	case <-time.After(time.Duration(lim) * time.Second):
		once.Do(func() { _ = cmd.Process.Kill() })
		<-ch
		return true, nil
	}
	b, e2 := os.ReadFile(out)
	if err != nil || e2 != nil {
		return true, nil
	}
	_ = json.Unmarshal(b, &ff)
	return false, ff
}

func NumShards() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	return n
}
