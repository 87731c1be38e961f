package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	caseCPULimit = 25 * time.Second // processor time one case may take
	exitHang     = 41
	exitRace     = 66
)

type result struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Parts       map[string]int `json:"parts"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Truncated   bool           `json:"truncated"`
	Violation   *Case          `json:"violation,omitempty"`
	Error       string         `json:"error,omitempty"`
	Done        bool           `json:"done"`
}

// ---- worker ------------------------------------------------------------------

type worker struct {
	prop     *Prop
	shard    int
	shards   int
	seed     uint64
	factor   float64
	deadline time.Time
	shrink   time.Duration
	res      *result
	hashes   map[uint64]struct{}
	shm      []byte
	failed   bool
	best     *Case
	bestErr  string
	inCase   int64 // case number, for the watchdog
	partSeen map[string]int
}

// fakeTB lets rapid run outside a test.
type fakeTB struct {
	failed bool
	msg    string
}

type tbStop struct{}

func (*fakeTB) Helper()                     {}
func (*fakeTB) Name() string                { return "check" }
func (*fakeTB) Logf(string, ...any)         {}
func (*fakeTB) Log(...any)                  {}
func (*fakeTB) Skipf(string, ...any)        { panic(tbStop{}) }
func (*fakeTB) Skip(...any)                 { panic(tbStop{}) }
func (*fakeTB) SkipNow()                    { panic(tbStop{}) }
func (b *fakeTB) Errorf(f string, a ...any) { b.failed, b.msg = true, b.msg+fmt.Sprintf(f, a...) }
func (b *fakeTB) Error(...any)              { b.failed = true }
func (b *fakeTB) Fatalf(f string, a ...any) { b.Errorf(f, a...); panic(tbStop{}) }
func (b *fakeTB) Fatal(...any)              { b.failed = true; panic(tbStop{}) }
func (b *fakeTB) FailNow()                  { b.failed = true; panic(tbStop{}) }
func (b *fakeTB) Fail()                     { b.failed = true }
func (b *fakeTB) Failed() bool              { return b.failed }

func mix(a uint64, s string) uint64 {
	h := a ^ 0x9e3779b97f4a7c15
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 0x100000001b3
		h ^= h >> 29
	}
	h ^= h >> 32
	h *= 0xd6e8feb86659fd93
	h ^= h >> 32
	if h == 0 {
		h = 1
	}
	return h
}

// announce writes the case where the driver finds it should this process die.
func (w *worker) announce(c *Case) {
	if w.shm == nil {
		return
	}
	b, err := json.Marshal(c)
	if err != nil || len(b)+8 > len(w.shm) {
		binary.LittleEndian.PutUint64(w.shm, 0)
		return
	}
	copy(w.shm[8:], b)
	binary.LittleEndian.PutUint64(w.shm, uint64(len(b)))
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch ends the process when one case takes too much processor time.
func (w *worker) watch() {
	last, since := int64(-1), cpuTime()
	for {
		time.Sleep(500 * time.Millisecond)
		n := atomic.LoadInt64(&w.inCase)
		if n == 0 || n != last {
			last, since = n, cpuTime()
			continue
		}
		if cpuTime()-since > caseCPULimit {
			os.Exit(exitHang)
		}
	}
}

func size(c *Case) int {
	n := len(c.N)
	for _, s := range c.In {
		n += len(s) + 1
	}
	return n
}

// one judges a case; it returns true when it holds.
func (w *worker) one(p *Part, c *Case) bool {
	c.Prop, c.Part = w.prop.id, p.name
	w.announce(c)
	o := &Obs{}
	atomic.StoreInt64(&w.inCase, int64(w.res.Evaluations)+1)
	err := runJudge(p, c, o)
	atomic.StoreInt64(&w.inCase, 0)
	if err != nil {
		w.failed = true
		if w.best == nil || size(c) <= size(w.best) {
			w.best, w.bestErr = c, err.Error()
		}
		return false
	}
	if w.failed {
		return true // shrinking
	}
	w.res.Evaluations++
	w.res.Parts[p.name]++
	for _, l := range o.labels {
		w.res.Labels[p.name+"/"+l]++
	}
	for _, l := range c.Tags {
		w.res.Labels[p.name+"/gen:"+l]++
	}
	if o.nontrivial {
		w.res.Nontrivial++
		w.hashes[hashCase(c)] = struct{}{}
		k := w.partSeen[p.name] + 1
		w.partSeen[p.name] = k
		if w.shard == 0 && (k == 3 || k == 20 || k == 150) {
			var in []string
			for i, s := range c.In {
				if i == 6 {
					break
				}
				in = append(in, strconv.Quote(clip(string(s), 220)))
			}
			s := p.name + ": " + strings.Join(in, " | ")
			if len(c.N) > 0 {
				s += " n=" + clip(fmt.Sprint(c.N), 80)
			}
			w.res.Samples = append(w.res.Samples, s)
		}
	}
	return true
}

func (w *worker) runPart(p *Part) {
	if p.enum != nil {
		i := 0
		p.enum(func(c *Case) bool {
			i++
			if i%w.shards != w.shard {
				return true
			}
			if i%512 == 0 && time.Now().After(w.deadline) {
				w.res.Truncated = true
				return false
			}
			return w.one(p, c)
		})
		return
	}
	n := int(float64(p.n)*w.factor) / w.shards
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(mix(w.seed, fmt.Sprintf("%s/%s/%d", w.prop.id, p.name, w.shard)), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", w.shrink.String())
	tick := 0
	expired := false
	tb := &fakeTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if expired {
				return
			}
			if tick++; tick%64 == 0 && !w.failed && time.Now().After(w.deadline) {
				expired, w.res.Truncated = true, true
				return
			}
			g := &G{t: t}
			c := p.gen(g)
			if c == nil {
				return
			}
			c.Tags = g.tagList()
			if !w.one(p, c) {
				t.Fatalf("violation")
			}
		})
	}()
	if tb.failed && !w.failed {
		w.res.Error = "rapid failed without a violation in " + p.name + ": " + clip(tb.msg, 1500)
	}
}

func work(args []string) int {
	fs := flag.NewFlagSet("work", flag.ExitOnError)
	id := fs.String("prop", "", "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	seed := fs.Uint64("seed", 1, "")
	factor := fs.Float64("factor", 1, "")
	dir := fs.String("dir", "", "")
	only := fs.String("only", "", "")
	wall := fs.Duration("wall", 5*time.Minute, "")
	race := fs.Bool("race", false, "")
	shrink := fs.Duration("shrink", 8*time.Second, "")
	fs.Parse(args)
	testing.Init()
	flag.CommandLine.Parse(nil)
	runtime.GOMAXPROCS(2)
	if !*race {
		limitMemory()
	}
	os.MkdirAll(*dir, 0o755)
	os.Chdir(*dir) // rapid looks for testdata in the working directory

	thorough = *factor >= 10
	w := &worker{prop: props[*id], shard: *shard, shards: *shards, seed: *seed, factor: *factor,
		deadline: time.Now().Add(*wall), shrink: *shrink,
		res:    &result{Parts: map[string]int{}, Labels: map[string]int{}},
		hashes: map[uint64]struct{}{}, partSeen: map[string]int{}}
	base := filepath.Join(*dir, fmt.Sprintf("shard%d", *shard))
	if f, err := os.OpenFile(base+".case", os.O_RDWR|os.O_CREATE, 0o644); err == nil {
		f.Truncate(4 << 20)
		w.shm, _ = syscall.Mmap(int(f.Fd()), 0, 4<<20, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	go w.watch()
	for _, p := range w.prop.parts {
		if *only != "" && p.name != *only || *race != p.race {
			continue
		}
		w.runPart(p)
		if w.failed {
			w.res.Violation, w.res.Error = w.best, w.bestErr
			break
		}
	}
	w.res.Done = true
	hb := make([]byte, 0, 8*len(w.hashes))
	for h := range w.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	os.WriteFile(base+".hash", hb, 0o644)
	b, _ := json.Marshal(w.res)
	os.WriteFile(base+".json", b, 0o644)
	return 0
}

// limitMemory keeps a runaway case from taking the machine with it.
func limitMemory() {
	const lim = 6 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	debug.SetGCPercent(200)
}

// ---- replay ------------------------------------------------------------------

func findPart(prop, part string) *Part {
	if p := props[prop]; p != nil {
		for _, q := range p.parts {
			if q.name == part {
				return q
			}
		}
	}
	return nil
}

// replay judges one saved case: exit 0 holds, 1 violated.
func replay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	times := fs.Int("times", 1, "")
	race := fs.Bool("race", false, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		fmt.Println(err)
		return 2
	}
	if c.Rerun != nil {
		self, _ := os.Executable()
		dir, err := os.MkdirTemp("", "rerun-")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		defer os.RemoveAll(dir)
		if _, err := os.Stat(self + ".race"); err == nil && c.Rerun.Race {
			self += ".race"
		}
		msg := again(self, dir, c)
		if msg == "" {
			return 0
		}
		fmt.Println(msg)
		return 1
	}
	p := findPart(c.Prop, c.Part)
	if p == nil {
		fmt.Println("no such part", c.Prop, c.Part)
		return 2
	}
	if !*race {
		limitMemory()
	}
	w := &worker{inCase: 1}
	go w.watch()
	for i := 0; i < *times; i++ {
		if err := runJudge(p, c, &Obs{}); err != nil {
			fmt.Printf("%s/%s: %s\n", c.Prop, c.Part, clip(err.Error(), 4000))
			for i, s := range c.In {
				fmt.Printf("  in[%d] = %s\n", i, strconv.Quote(clip(string(s), 1500)))
			}
			return 1
		}
	}
	return 0
}

// again runs a whole worker again, for a violation that needs what the worker
// did before. It returns what went wrong, or nothing.
func again(bin, dir string, c *Case) string {
	r := c.Rerun
	a := []string{"work", "-prop", c.Prop, "-shard", strconv.Itoa(r.Shard), "-shards", strconv.Itoa(r.Shards),
		"-seed", strconv.FormatUint(r.Seed, 10), "-factor", fmt.Sprint(r.Factor), "-dir", dir, "-wall", r.Wall, "-shrink", "1ms"}
	if r.Race {
		a = append(a, "-race")
	}
	if r.Only != "" {
		a = append(a, "-only", r.Only)
	}
	cmd := exec.Command(bin, a...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
	out, err := cmd.CombinedOutput()
	res := &result{}
	b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("shard%d.json", r.Shard)))
	if rerr == nil {
		rerr = json.Unmarshal(b, res)
	}
	if rerr != nil || !res.Done {
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() > 0 {
			return fmt.Sprintf("%s/%s: the process died again with code %d: %s", c.Prop, c.Part, ee.ExitCode(), clip(string(out), 2000))
		}
		return "" // ended from outside
	}
	if res.Violation == nil {
		return ""
	}
	s := fmt.Sprintf("%s/%s (after %d other cases in the same process): %s", c.Prop, res.Violation.Part, res.Evaluations, clip(res.Error, 3000))
	for i, in := range res.Violation.In {
		s += fmt.Sprintf("\n  in[%d] = %s", i, strconv.Quote(clip(string(in), 1500)))
	}
	return s
}

// ---- driver ------------------------------------------------------------------

type evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        uint64         `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

func drive(args []string) int {
	id := args[0]
	prop := props[id]
	if prop == nil {
		fmt.Println("unknown property", id, "have", propIDs())
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if len(args) > 1 {
		tier = args[1]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	factor, wall := 3.0, 400*time.Second
	if tier == "thorough" {
		factor, wall = 40, 40*time.Minute
	}
	if f, err := strconv.ParseFloat(os.Getenv("VERIF_FACTOR"), 64); err == nil {
		factor = f
	}
	shards := 8
	start := time.Now()
	dir, err := os.MkdirTemp(filepath.Join(verif, ".build"), "run-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()

	type job struct {
		cmd   *exec.Cmd
		base  string
		race  bool
		err   error
		out   string
		shard int
	}
	var jobs []*job
	mk := func(bin string, shard, n int, race bool) *job {
		sub := dir
		if race {
			sub = filepath.Join(dir, "race")
		}
		a := []string{"work", "-prop", id, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(n),
			"-seed", strconv.FormatUint(seed, 10), "-factor", fmt.Sprint(factor), "-dir", sub, "-wall", wall.String()}
		if race {
			a = append(a, "-race")
		}
		if only := os.Getenv("VERIF_ONLY"); only != "" {
			a = append(a, "-only", only)
		}
		cmd := exec.Command(bin, a...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
		return &job{cmd: cmd, base: filepath.Join(sub, fmt.Sprintf("shard%d", shard)), race: race, shard: shard}
	}
	hasRace := false
	for _, p := range prop.parts {
		hasRace = hasRace || p.race
	}
	for i := 0; i < shards; i++ {
		jobs = append(jobs, mk(self, i, shards, false))
	}
	raceBin := self + ".race"
	if hasRace {
		if _, err := os.Stat(raceBin); err != nil {
			raceBin = self
		}
		for i := 0; i < 4; i++ {
			jobs = append(jobs, mk(raceBin, i, 4, true))
		}
	}
	done := make(chan *job)
	for _, j := range jobs {
		go func(j *job) {
			f, _ := os.Create(filepath.Join(dir, fmt.Sprintf("out-%d-%v", j.shard, j.race)))
			j.cmd.Stdout, j.cmd.Stderr = f, f
			if j.err = j.cmd.Start(); j.err == nil {
				j.err = j.cmd.Wait()
			}
			f.Close()
			b, _ := os.ReadFile(f.Name())
			j.out = string(b)
			done <- j
		}(j)
	}
	for range jobs {
		<-done
	}

	total := &result{Parts: map[string]int{}, Labels: map[string]int{}}
	hashes := map[uint64]struct{}{}
	replays := filepath.Join(verif, "replays")
	os.MkdirAll(replays, 0o755)
	violations := 0
	var lines []string
	broken := ""
	reruns := 0
	confirm := func(c *Case, msg string, j *job, times int) {
		race := j.race
		path := filepath.Join(replays, fmt.Sprintf("%s-%s-%016x.json", id, c.Part, hashCase(c)))
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(path, b, 0o644)
		bin, a := self, []string{"replay", "-times", strconv.Itoa(times)}
		if race {
			bin = raceBin
			a = append(a, "-race")
		}
		cmd := exec.Command(bin, append(a, path)...)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
		out, rerr := cmd.CombinedOutput()
		code := 0
		if rerr != nil {
			code = -1
			if ee, ok := rerr.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		if code == 0 && reruns < 2 {
			// the case alone holds: what came before it may matter
			reruns++
			n := shards
			if race {
				n = 4
			}
			c.Rerun = &Rerun{Seed: seed, Shard: j.shard, Shards: n, Factor: factor, Race: race, Wall: wall.String(), Only: os.Getenv("VERIF_ONLY")}
			b, _ := json.MarshalIndent(c, "", " ")
			os.WriteFile(path, b, 0o644)
			sub := filepath.Join(dir, fmt.Sprintf("again%d", reruns))
			if s := again(bin, sub, c); s != "" {
				code, out = 1, []byte(s+"\n")
			}
		}
		if code == 0 {
			broken = fmt.Sprintf("%s: not reproduced from %s: %s", id, path, clip(msg, 2000))
			return
		}
		violations++
		if violations <= 3 {
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, path), clip(string(out), 3000))
		}
	}
	sort.SliceStable(jobs, func(i, j int) bool { return !jobs[i].race && jobs[j].race })
	for _, j := range jobs {
		r := &result{}
		b, err := os.ReadFile(j.base + ".json")
		if err == nil {
			err = json.Unmarshal(b, r)
		}
		if err != nil || !r.Done {
			// the worker died: look at the case it had in hand
			c := &Case{}
			if cb, cerr := os.ReadFile(j.base + ".case"); cerr == nil && len(cb) > 8 {
				n := binary.LittleEndian.Uint64(cb)
				if n > 0 && n < uint64(len(cb)-8) && json.Unmarshal(cb[8:8+n], c) == nil && findPart(c.Prop, c.Part) != nil {
					if violations < 1 { // judging it again may take as long as it took
						confirm(c, "worker died: "+j.out, j, 1)
					}
					continue
				}
			}
			broken = fmt.Sprintf("%s: worker %d died without a case: %v %s", id, j.shard, j.err, clip(j.out, 2000))
			continue
		}
		total.Evaluations += r.Evaluations
		total.Nontrivial += r.Nontrivial
		total.Truncated = total.Truncated || r.Truncated
		for k, v := range r.Parts {
			total.Parts[k] += v
		}
		for k, v := range r.Labels {
			total.Labels[k] += v
		}
		total.Samples = append(total.Samples, r.Samples...)
		if hb, err := os.ReadFile(j.base + ".hash"); err == nil {
			for i := 0; i+8 <= len(hb); i += 8 {
				hashes[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
			}
		}
		if r.Violation != nil && violations < 3 {
			confirm(r.Violation, r.Error, j, 200)
		} else if r.Error != "" && r.Violation == nil {
			broken = r.Error
		}
	}
	if len(total.Samples) > 40 {
		total.Samples = total.Samples[:40]
	}
	about := map[string]string{}
	for _, p := range prop.parts {
		about[p.name] = p.about
	}
	ev := &evidence{Property: id, Tier: tier, Seed: seed, Level: levelOf(id),
		Coverage: map[string]any{
			"evaluations":          total.Evaluations,
			"distinct_nontrivial":  len(hashes),
			"rule":                 prop.rule,
			"samples":              total.Samples,
			"cases_per_part":       total.Parts,
			"parts":                about,
			"labels":               total.Labels,
			"truncated_by_time":    total.Truncated,
			"dictionary_constants": len(dict.ints) + len(dict.strs),
		},
		Assumptions: []string{
			"generated inputs stand for all inputs: absence of a violation is not proof",
			"the reference lexer, parser and type rules in harness/ref_*.go state the intended language",
		},
		WallS: time.Since(start).Seconds(), Violations: violations}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", id+".json"), eb, 0o644)
	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs\n",
		id, tier, seed, total.Evaluations, len(hashes), violations, time.Since(start).Seconds())
	switch {
	case violations > 0:
		return 1
	case broken != "":
		fmt.Println("BROKEN CHECK:", broken)
		return 2
	}
	return 0
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: geoqlcheck C01 [quick|thorough] | replay FILE | list | literals")
		os.Exit(2)
	}
	if os.Args[1] == "child" {
		os.Exit(child(os.Args[2]))
	}
	mineLiterals()
	switch os.Args[1] {
	case "work":
		os.Exit(work(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
			for _, p := range props[id].parts {
				fmt.Printf("  %-22s %8d  %s\n", p.name, p.n, p.about)
			}
		}
	case "literals":
		fmt.Println(strings.Join(collectLiterals(), "\n"))
	default:
		os.Exit(drive(os.Args[1:]))
	}
}

func levelOf(id string) string {
	if id == "C09" {
		return "fault_enumeration"
	}
	return "exploration"
}
