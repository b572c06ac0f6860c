package pbt

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Part is one generator+oracle of a property.
type Part struct {
	Name     string
	Check    Check
	Quick    int // cases in the quick tier
	Thorough int // cases in the thorough tier
}

// Probe is one specific input on which a listed known finding shows.
// It returns nil when the behaviour is right.
type Probe struct {
	Name string
	Run  func() error
}

// Property is one property and everything that decides it.
type Property struct {
	ID          string
	Rule        string
	Parts       []Part
	Probes      []Probe
	Assumptions []string
	Workers     int           // 0: one per CPU, at most 8
	CaseTimeout time.Duration // 0: 60 s
	Env         []string
}

// Registry holds all properties of the binary.
var Registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) {
	if Registry[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	Registry[p.ID] = p
}

type replayFile struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Probe    string   `json:"probe,omitempty"`
	Choices  []uint64 `json:"choices"`
	Message  string   `json:"message"`
	Case     string   `json:"case"`
	// When the single case does not fail on its own in a fresh process, the
	// shard prefix that led to it.
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier,omitempty"`
	Shard    int    `json:"shard,omitempty"`
	Shards   int    `json:"shards,omitempty"`
	UpTo     int    `json:"up_to,omitempty"`
	Isolated bool   `json:"isolated"`
}

type workerReport struct {
	Evals     int                       `json:"evals"`
	Discards  map[string]int            `json:"discards"`
	Labels    map[string]map[string]int `json:"labels"`
	Excluded  map[string]int            `json:"excluded"`
	Distinct  []uint64                  `json:"distinct"`
	PerPart   map[string]int            `json:"per_part"`
	Samples   map[string][]string       `json:"samples"`
	Failed    bool                      `json:"failed"`
	FailCase  int                       `json:"fail_case"`
	FailPart  string                    `json:"fail_part"`
	FailMsg   string                    `json:"fail_msg"`
	FailDesc  string                    `json:"fail_desc"`
	Choices   []uint64                  `json:"choices"`
	DoneCases int                       `json:"done"`
	Once      []onceFailure             `json:"once"`
}

// onceFailure is a case that failed and then passed on every repetition.
type onceFailure struct {
	Case    int      `json:"case"`
	Part    string   `json:"part"`
	Msg     string   `json:"msg"`
	Desc    string   `json:"desc"`
	Choices []uint64 `json:"choices"`
}

// repetitions of a failing case before it counts as not reproducible
const repetitions = 20

func (p *Property) total(tier string) int {
	n := 0
	for _, q := range p.Parts {
		n += q.count(tier)
	}
	return n
}
func (q Part) count(tier string) int {
	if tier == "thorough" {
		return q.Thorough
	}
	return q.Quick
}

// locate maps a global case index to its part, cases being interleaved over
// the parts so that every shard sees all of them.
func (p *Property) schedule(tier string) []int {
	total := p.total(tier)
	left := make([]int, len(p.Parts))
	cnt := make([]int, len(p.Parts))
	for i, q := range p.Parts {
		cnt[i] = q.count(tier)
	}
	out := make([]int, 0, total)
	for len(out) < total {
		for i := range p.Parts {
			// proportional interleave
			want := (len(out) + 1) * cnt[i] / total
			if left[i] < cnt[i] && left[i] <= want {
				out = append(out, i)
				left[i]++
				if len(out) == total {
					break
				}
			}
		}
	}
	return out
}

// Main is the entry point of a check binary.
func Main() {
	var (
		prop   = flag.String("property", "", "property id")
		tier   = flag.String("tier", "", "quick or thorough")
		root   = flag.String("root", "/verif", "where evidence goes")
		worker = flag.Bool("worker", false, "internal")
		shard  = flag.Int("shard", 0, "internal")
		shards = flag.Int("shards", 1, "internal")
		upto   = flag.Int("upto", -1, "internal")
		only   = flag.String("part", "", "restrict to one part (development)")
		cases  = flag.Int("cases", 0, "override the number of cases per part (development)")
		replay = flag.String("replay", "", "replay a file")
		one    = flag.String("one", "", "internal: run the replay file in this process")
		list   = flag.Bool("list", false, "list properties")
		record = flag.String("record", "", "internal: stream the choices of one case to a file")
		recIdx = flag.Int("record-case", 0, "internal")
	)
	flag.Parse()
	if *list {
		var ids []string
		for id := range Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, q := range Registry[id].Parts {
				fmt.Println(id, q.Name, q.Quick, q.Thorough)
			}
		}
		return
	}
	if *one != "" {
		os.Exit(runReplayHere(*one))
	}
	if *replay != "" {
		abs, _ := filepath.Abs(*replay)
		b, err := os.ReadFile(abs)
		if err != nil {
			die("%v", err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			die("%v", err)
		}
		out, st := spawnOne(abs, Registry[rf.Property], 5*time.Minute)
		fmt.Print(out)
		if st == "fail" {
			fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *replay)
			os.Exit(1)
		}
		if st == "pass" {
			fmt.Println("replay passes")
			os.Exit(0)
		}
		die("replay ended with %s", st)
	}
	p := Registry[*prop]
	if p == nil {
		die("unknown property %q", *prop)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseUint(s, 10, 63)
		if err != nil {
			die("bad VERIF_SEED %q", s)
		}
		seed = v
	}
	if *record != "" {
		f, err := os.Create(*record)
		if err != nil {
			die("%v", err)
		}
		for _, q := range p.Parts {
			if q.Name == os.Getenv("VH_PART") {
				src := newRandom(mix(seed, uint64(*recIdx), p.ID+"/"+q.Name))
				src.stream = f
				runOne(q.Check, src)
			}
		}
		return
	}
	if *only != "" || *cases > 0 {
		var ps []Part
		for _, q := range p.Parts {
			if *only == "" || q.Name == *only {
				if *cases > 0 {
					q.Quick, q.Thorough = *cases, *cases
				}
				ps = append(ps, q)
			}
		}
		p.Parts = ps
	}
	if *worker {
		runWorker(p, *tier, seed, *shard, *shards, *upto)
		return
	}
	drive(p, *tier, seed, *root, *only, *cases, false)
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(2)
}

const maxSamplesPerPart = 3

func runWorker(p *Property, tier string, seed uint64, shard, shards, upto int) {
	out := bufio.NewWriter(os.NewFile(3, "report"))
	rep := &workerReport{Discards: map[string]int{}, Labels: map[string]map[string]int{}, Excluded: map[string]int{}, PerPart: map[string]int{}, Samples: map[string][]string{}}
	sched := p.schedule(tier)
	distinct := map[uint64]bool{}
	for i := shard; i < len(sched); i += shards {
		if upto >= 0 && i > upto {
			break
		}
		fmt.Fprintf(out, "S %d\n", i)
		out.Flush()
		q := p.Parts[sched[i]]
		caseSeed := mix(seed, uint64(i), p.ID+"/"+q.Name)
		res := runOne(q.Check, newRandom(caseSeed))
		rep.Evals++
		rep.PerPart[q.Name]++
		if res.outcome == "discard" {
			rep.Discards[q.Name+": "+res.msg]++
		}
		lm := rep.Labels[q.Name]
		if lm == nil {
			lm = map[string]int{}
			rep.Labels[q.Name] = lm
		}
		for l := range res.t.labels {
			lm[l]++
		}
		for l, n := range res.t.excluded {
			rep.Excluded[l] += n
		}
		if res.t.nontrivial && res.outcome != "discard" {
			distinct[res.distinct] = true
			if ss := rep.Samples[q.Name]; len(ss) < maxSamplesPerPart {
				d := res.t.Desc()
				if len(d) > 600 {
					d = d[:600] + "..."
				}
				rep.Samples[q.Name] = append(ss, d)
			}
		}
		if res.outcome == "fail" {
			if upto < 0 {
				fmt.Fprintf(out, "F %d\n", i)
				out.Flush()
				again := false
				for k := 0; k < repetitions && !again; k++ {
					again = runOne(q.Check, newReplay(res.choices)).outcome == "fail"
				}
				if !again {
					rep.Once = append(rep.Once, onceFailure{i, q.Name, res.msg, res.t.Desc(), res.choices})
					continue
				}
			}
			best := res.choices
			if upto < 0 {
				best = shrink(res.choices, func(c []uint64) ([]uint64, bool) {
					r := runOne(q.Check, newReplay(c))
					return r.choices, r.outcome == "fail"
				}, 3000, 15*time.Second)
			}
			final := runOne(q.Check, newReplay(best))
			if final.outcome != "fail" {
				final, best = res, res.choices
			}
			rep.Failed, rep.FailCase, rep.FailPart = true, i, q.Name
			rep.FailMsg, rep.FailDesc, rep.Choices = final.msg, final.t.Desc(), best
			break
		}
		rep.DoneCases++
	}
	for k := range distinct {
		rep.Distinct = append(rep.Distinct, k)
	}
	b, err := json.Marshal(rep)
	if err != nil {
		die("%v", err)
	}
	fmt.Fprintf(out, "R %s\n", b)
	out.Flush()
}

func runReplayHere(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	p := Registry[rf.Property]
	if p == nil {
		die("unknown property")
	}
	if rf.Probe != "" {
		for _, pr := range p.Probes {
			if pr.Name == rf.Probe {
				err, _ := Try(pr.Run)
				if err != nil {
					fmt.Printf("FAIL probe %s: %v\n", pr.Name, err)
					return 10
				}
				return 0
			}
		}
		die("unknown probe")
	}
	if !rf.Isolated {
		// re-run the shard prefix
		sched := p.schedule(rf.Tier)
		for i := rf.Shard; i < len(sched) && i <= rf.UpTo; i += rf.Shards {
			q := p.Parts[sched[i]]
			r := runOne(q.Check, newRandom(mix(rf.Seed, uint64(i), p.ID+"/"+q.Name)))
			if r.outcome == "fail" {
				fmt.Printf("FAIL case %d\n%s\n%s\n", i, r.t.Desc(), r.msg)
				return 10
			}
		}
		return 0
	}
	echo = true
	for _, q := range p.Parts {
		if q.Name == rf.Part {
			r := runOne(q.Check, newReplay(rf.Choices))
			if r.outcome == "fail" {
				fmt.Printf("FAIL %s\n%s\n", r.t.Desc(), r.msg)
				return 10
			}
			return 0
		}
	}
	die("unknown part")
	return 2
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		die("%v", err)
	}
	return s
}

// spawnOne runs a replay file in a fresh process: pass, fail, crash, oom, hang.
func spawnOne(path string, p *Property, limit time.Duration) (string, string) {
	dir, err := os.MkdirTemp("", "vh-replay-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(self(), "-one", path)
	cmd.Dir = dir
	if p != nil {
		cmd.Env = append(os.Environ(), p.Env...)
	}
	var buf tail
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return buf.String(), "hang"
	}
	return buf.String(), classify(err, buf.String())
}

func classify(err error, out string) string {
	if err == nil {
		return "pass"
	}
	if ee, ok := err.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() && (ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM) {
			return "oom"
		}
		if strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory") {
			return "oom"
		}
		if ws.Exited() && ws.ExitStatus() == 10 {
			return "fail"
		}
		if ws.Exited() && ws.ExitStatus() == 2 && strings.Contains(out, "ERROR: ") && !strings.Contains(out, "goroutine ") {
			return "error"
		}
		return "crash"
	}
	return "error"
}

// tail keeps the head and the end of a stream.
type tail struct {
	mu   sync.Mutex
	head []byte
	end  []byte
}

func (t *tail) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 8192 {
		n := 8192 - len(t.head)
		if n > len(b) {
			n = len(b)
		}
		t.head = append(t.head, b[:n]...)
		t.end = append(t.end, b[n:]...)
	} else {
		t.end = append(t.end, b...)
	}
	if len(t.end) > 16384 {
		t.end = append([]byte(nil), t.end[len(t.end)-8192:]...)
	}
	return len(b), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.end)
}

type shardState struct {
	cmd     *exec.Cmd
	out     tail
	cur     int
	curAt   time.Time
	failing bool
	rep     *workerReport
	status  string
	mu      sync.Mutex
}

func drive(p *Property, tier string, seed uint64, root, only string, cases int, second bool) {
	start := time.Now()
	workers := p.Workers
	if workers == 0 {
		workers = runtime.NumCPU()
		if workers > 8 {
			workers = 8
		}
	}
	scratch, err := os.MkdirTemp("", "vh-"+p.ID+"-")
	if err != nil {
		die("%v", err)
	}
	defer os.RemoveAll(scratch)
	exit := func(code int) {
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	limit := p.CaseTimeout
	if limit == 0 {
		limit = 60 * time.Second
	}

	// known findings first
	known := loadKnown(root, p.ID)
	var knownLines []string
	evdir := filepath.Join(root, "evidence")
	os.MkdirAll(evdir, 0o755)
	for _, pr := range p.Probes {
		rf := replayFile{Property: p.ID, Probe: pr.Name, Isolated: true, Seed: seed}
		path := filepath.Join(evdir, p.ID+".replay.json")
		writeJSON(path, rf)
		out, st := spawnOne(path, p, limit)
		switch st {
		case "pass":
			os.Remove(path)
			if _, ok := known[pr.Name]; ok {
				fmt.Printf("note: listed finding %s no longer shows\n", pr.Name)
			}
		case "oom", "error":
			fmt.Print(out)
			die("probe %s ended with %s", pr.Name, st)
		default:
			if what, ok := known[pr.Name]; ok {
				line := fmt.Sprintf("KNOWN-FINDING: property=%s %s: %s", p.ID, pr.Name, what)
				fmt.Println(line)
				knownLines = append(knownLines, line)
				os.Remove(path)
			} else {
				fmt.Print(out)
				rf.Message = out
				writeJSON(path, rf)
				writeEvidence(p, tier, seed, root, nil, knownLines, time.Since(start), 1)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				exit(1)
			}
		}
	}

	states := make([]*shardState, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		st := &shardState{cur: -1, curAt: time.Now()}
		states[w] = st
		dir := filepath.Join(scratch, fmt.Sprint(w))
		os.MkdirAll(dir, 0o755)
		args := []string{"-worker", "-property", p.ID, "-tier", tier, "-shard", fmt.Sprint(w), "-shards", fmt.Sprint(workers)}
		if only != "" {
			args = append(args, "-part", only)
		}
		if cases > 0 {
			args = append(args, "-cases", fmt.Sprint(cases))
		}
		st.cmd = exec.Command(self(), args...)
		st.cmd.Dir = dir
		st.cmd.Env = append(append(os.Environ(), "VERIF_SEED="+fmt.Sprint(seed), "GOMAXPROCS=2"), p.Env...)
		st.cmd.Stdout, st.cmd.Stderr = &st.out, &st.out
		r, pw, err := os.Pipe()
		if err != nil {
			die("%v", err)
		}
		st.cmd.ExtraFiles = []*os.File{pw}
		if err := st.cmd.Start(); err != nil {
			die("%v", err)
		}
		pw.Close()
		wg.Add(1)
		go func() {
			defer wg.Done()
			rd := bufio.NewReaderSize(r, 1<<20)
			for {
				line, err := rd.ReadString('\n')
				if len(line) > 2 {
					switch line[0] {
					case 'S':
						n, _ := strconv.Atoi(strings.TrimSpace(line[2:]))
						st.mu.Lock()
						st.cur, st.curAt = n, time.Now()
						st.mu.Unlock()
					case 'F':
						st.mu.Lock()
						st.failing, st.curAt = true, time.Now()
						st.mu.Unlock()
					case 'R':
						rep := &workerReport{}
						if json.Unmarshal([]byte(line[2:]), rep) == nil {
							st.mu.Lock()
							st.rep = rep
							st.mu.Unlock()
						}
					}
				}
				if err != nil {
					if err != io.EOF {
						fmt.Fprintln(os.Stderr, "pipe:", err)
					}
					break
				}
			}
			err := st.cmd.Wait()
			st.mu.Lock()
			if st.status == "" {
				st.status = classify(err, st.out.String())
			}
			st.mu.Unlock()
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(200 * time.Millisecond)
	anyFail := -1
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			for w, st := range states {
				st.mu.Lock()
				l := limit
				if st.failing {
					l = limit + 60*time.Second
				}
				if st.status == "" && st.rep == nil && time.Since(st.curAt) > l {
					st.status = "hang"
					// ask for the goroutine dump before killing
					st.cmd.Process.Signal(syscall.SIGQUIT)
					time.Sleep(300 * time.Millisecond)
					st.cmd.Process.Kill()
				}
				bad := st.status != "" && st.status != "pass" && st.status != "stopped" || st.rep != nil && st.rep.Failed
				st.mu.Unlock()
				if bad && anyFail < 0 {
					anyFail = w
					for v, o := range states {
						if v != w {
							o.mu.Lock()
							if o.status == "" && o.rep == nil {
								o.status = "stopped"
								o.cmd.Process.Kill()
							}
							o.mu.Unlock()
						}
					}
				}
			}
		}
	}
	if anyFail < 0 {
		for w, st := range states {
			if st.status != "pass" || st.rep == nil || st.rep.Failed {
				anyFail = w
			}
		}
	}
	if anyFail >= 0 {
		st := states[anyFail]
		if st.rep == nil && (st.status == "oom" || st.status == "error" || st.status == "pass" || st.status == "stopped") {
			fmt.Print(st.out.String())
			die("worker ended with %s at case %d", st.status, st.cur)
		}
		path := filepath.Join(evdir, p.ID+".replay.json")
		sched := p.schedule(tier)
		rf := replayFile{Property: p.ID, Seed: seed, Tier: tier, Shard: anyFail, Shards: workers, Isolated: true}
		if st.rep != nil && st.rep.Failed {
			rf.Part, rf.Choices, rf.Message, rf.Case, rf.UpTo = st.rep.FailPart, st.rep.Choices, st.rep.FailMsg, st.rep.FailDesc, st.rep.FailCase
			writeJSON(path, rf)
			if _, s := spawnOne(path, p, limit+60*time.Second); s != "fail" && s != "crash" && s != "hang" {
				rf.Isolated = false // depends on what ran before it
				writeJSON(path, rf)
			}
			fmt.Printf("case: %s\n%s\n", rf.Case, rf.Message)
			writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			exit(1)
		}
		// crash or hang: must show again in a fresh process
		if st.cur < 0 || st.cur >= len(sched) {
			fmt.Print(st.out.String())
			die("worker ended with %s before its first case", st.status)
		}
		q := p.Parts[sched[st.cur]]
		rf.Part, rf.UpTo = q.Name, st.cur
		rf.Message = st.status + "\n" + st.out.String()
		rf.Isolated = true
		rf.Choices = recordChoices(p, q, seed, st.cur, scratch)
		if rf.Choices != nil {
			writeJSON(path, rf)
			o, s := spawnOne(path, p, 2*limit)
			if s == "crash" || s == "hang" || s == "fail" {
				if s != "hang" {
					// shrink in fresh processes
					c := shrink(rf.Choices, func(cand []uint64) ([]uint64, bool) {
						rf.Choices = cand
						writeJSON(path, rf)
						o2, s2 := spawnOne(path, p, limit)
						if s2 == s {
							o = o2
						}
						return cand, s2 == s
					}, 1500, 20*time.Second)
					rf.Choices = c
				}
				rf.Message = s + "\n" + o
				writeJSON(path, rf)
				fmt.Print(rf.Message)
				writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				exit(1)
			}
		}
		rf.Isolated = false
		writeJSON(path, rf)
		_, s := spawnOne(path, p, 2*limit+5*time.Minute)
		if s == "crash" || s == "fail" {
			fmt.Print(rf.Message)
			writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			exit(1)
		}
		fmt.Print(st.out.String())
		if st.status == "crash" && strings.Contains(st.out.String(), "DATA RACE") || strings.Contains(st.out.String(), "fatal error: concurrent") {
			writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			exit(1)
		}
		if st.status == "crash" && !second {
			fmt.Println("note: that crash did not show again; starting over")
			os.RemoveAll(scratch)
			drive(p, tier, seed, root, only, cases, true)
		}
		if st.status == "crash" {
			writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			exit(1)
		}
		die("worker %s at case %d did not show again", st.status, st.cur)
	}
	// Failures that did not repeat: two of them, or one that the same history of
	// cases brings back, are a violation; a single one is only noted.
	once := 0
	var of onceFailure
	shard := 0
	for w, st := range states {
		if n := len(st.rep.Once); n > 0 {
			once += n
			of, shard = st.rep.Once[0], w
		}
	}
	if once > 0 {
		path := filepath.Join(evdir, p.ID+".replay.json")
		rf := replayFile{Property: p.ID, Seed: seed, Tier: tier, Shard: shard, Shards: workers, UpTo: of.Case, Part: of.Part, Choices: of.Choices, Message: of.Msg, Case: of.Desc}
		writeJSON(path, rf)
		bad := once > 1
		if !bad {
			_, s := spawnOne(path, p, 2*limit+5*time.Minute)
			bad = s == "fail" || s == "crash"
		}
		fmt.Printf("case: %s\n%s\n", of.Desc, of.Msg)
		if bad {
			writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 1)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			exit(1)
		}
		fmt.Printf("note: that failure did not show again in %d repetitions nor in its history\n", repetitions)
	}
	writeEvidence(p, tier, seed, root, states, knownLines, time.Since(start), 0)
	os.Remove(filepath.Join(evdir, p.ID+".replay.json"))
	exit(0)
}

// recordChoices finds the choice list of a case that crashes the process: the
// child streams each draw before using it.
func recordChoices(p *Property, q Part, seed uint64, idx int, scratch string) []uint64 {
	// The random source is a pure function of the seed, so a long enough
	// prefix of raw draws cannot be known without running the case; stream it.
	path := filepath.Join(scratch, "choices")
	os.Remove(path)
	cmd := exec.Command(self(), "-record", path, "-record-case", fmt.Sprint(idx), "-property", p.ID)
	cmd.Env = append(append(os.Environ(), "VERIF_SEED="+fmt.Sprint(seed), "VH_PART="+q.Name), p.Env...)
	cmd.Dir = scratch
	var buf tail
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if cmd.Start() != nil {
		return nil
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := p.CaseTimeout
	if limit == 0 {
		limit = 60 * time.Second
	}
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []uint64
	for _, f := range strings.Fields(string(b)) {
		v, err := strconv.ParseUint(f, 10, 64)
		if err != nil {
			break
		}
		out = append(out, v)
	}
	return out
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// loadKnown reads "known: property=<id> probe=<name> <what fails>" lines.
func loadKnown(root, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "known:" || f[1] != "property="+id || !strings.HasPrefix(f[2], "probe=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "probe=")] = strings.Join(f[3:], " ")
	}
	return out
}

func writeEvidence(p *Property, tier string, seed uint64, root string, states []*shardState, known []string, wall time.Duration, violations int) {
	evals := 0
	distinct := map[uint64]bool{}
	discards, excluded, per := map[string]int{}, map[string]int{}, map[string]int{}
	labels := map[string]map[string]int{}
	samples := map[string][]string{}
	once := []string{}
	for _, st := range states {
		if st == nil || st.rep == nil {
			continue
		}
		r := st.rep
		evals += r.Evals
		for _, o := range r.Once {
			once = append(once, o.Desc+": "+o.Msg)
		}
		for _, d := range r.Distinct {
			distinct[d] = true
		}
		for k, v := range r.Discards {
			discards[k] += v
		}
		for k, v := range r.Excluded {
			excluded[k] += v
		}
		for k, v := range r.PerPart {
			per[k] += v
		}
		for k, m := range r.Labels {
			if labels[k] == nil {
				labels[k] = map[string]int{}
			}
			for l, n := range m {
				labels[k][l] += n
			}
		}
		for k, s := range r.Samples {
			if len(samples[k]) < maxSamplesPerPart {
				samples[k] = append(samples[k], s...)
			}
		}
	}
	var flat []interface{}
	for _, q := range p.Parts {
		ss := samples[q.Name]
		if len(ss) > maxSamplesPerPart {
			ss = ss[:maxSamplesPerPart]
		}
		for _, s := range ss {
			flat = append(flat, map[string]string{"part": q.Name, "case": s})
		}
	}
	if flat == nil {
		flat = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": p.Rule,
			"samples": flat, "discards": discards, "excluded_by_construction": excluded,
			"classes": labels, "cases_per_part": per, "known_findings": append([]string{}, known...),
			"exhaustive": false, "failed_once": once,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      wall.Seconds(), "violations": violations,
	}
	writeJSON(filepath.Join(root, "evidence", p.ID+".json"), ev)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs\n", p.ID, tier, seed, evals, len(distinct), wall.Seconds())
}
