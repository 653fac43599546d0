package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	stallSeconds   = 150 // a case silent for that long is killed and run again alone
	aloneCPU       = 100 // CPU seconds a case alone may take
	maxFailures    = 12
	childASLimit   = 12 << 30
	maxChildDeaths = 6
)

type childMsg struct {
	Start  string           `json:"s,omitempty"`
	Pos    int              `json:"p,omitempty"`
	Fail   *failure         `json:"f,omitempty"`
	Done   bool             `json:"d,omitempty"`
	Events map[string]int64 `json:"e,omitempty"`
	Dist   []uint64         `json:"u,omitempty"`
	Samp   []string         `json:"a,omitempty"`
	Cases  int              `json:"n,omitempty"`
}

type parentState struct {
	prop     *Prop
	tier     string
	seed     int64
	mu       sync.Mutex
	events   map[string]int64
	dist     map[uint64]struct{}
	samples  []string
	cases    int
	fails    []failure
	inconcl  []string
	outDir   string
	coverDir string
}

func main() {
	var (
		child    = flag.Bool("child", false, "")
		propID   = flag.String("prop", "", "property")
		tier     = flag.String("tier", "quick", "quick or thorough")
		seed     = flag.Int64("seed", 1, "")
		shard    = flag.Int("shard", 0, "")
		shards   = flag.Int("shards", 1, "")
		from     = flag.Int("from", 0, "")
		only     = flag.String("only", "", "family/index")
		out      = flag.String("evidence", "", "evidence file")
		replayTo = flag.String("replaydir", "", "where to save failing cases")
		known    = flag.String("known", "", "known findings file")
		replay   = flag.String("replay", "", "replay file")
		list     = flag.Bool("list", false, "")
		fam      = flag.String("family", "", "only that family")
		nshards  = flag.Int("j", 0, "processes")
	)
	flag.Parse()
	if *list {
		for _, id := range propIDs() {
			p := props[id]
			for _, f := range p.Families {
				fmt.Println(id, f.Name, f.Quick, f.Thorough)
			}
		}
		return
	}
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}
	if *fam != "" {
		var fs []Family
		for _, f := range p.Families {
			if f.Name == *fam {
				fs = append(fs, f)
			}
		}
		p.Families = fs
		p.Min = nil
	}
	if *child {
		runChild(p, *tier, *seed, *shard, *shards, *from, *only)
		return
	}
	os.Exit(runParent(p, *tier, *seed, *out, *replayTo, *known, *fam, *nshards))
}

// caseList enumerates (family, index) pairs, interleaving families so that shards are balanced.
type caseRef struct {
	fam   int
	index int
}

func caseList(p *Prop, tier string) []caseRef {
	var l []caseRef
	for fi := range p.Families {
		n := p.Families[fi].count(tier)
		for i := 0; i < n; i++ {
			l = append(l, caseRef{fi, i})
		}
	}
	return l
}

func runChild(p *Prop, tier string, seed int64, shard, shards, from int, only string) {
	w := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(w)
	events := map[string]int64{}
	dist := map[uint64]struct{}{}
	var samples []string
	cases := 0
	nfail := 0
	run := func(pos int, r caseRef) {
		f := &p.Families[r.fam]
		enc.Encode(childMsg{Start: fmt.Sprintf("%s/%d", f.Name, r.index), Pos: pos})
		w.Flush()
		c := &Ctx{Prop: p.ID, Family: f.Name, Index: r.index, Tier: tier, Seed: seed,
			Rng: caseRng(seed, p.ID, f.Name, r.index), events: events, distinct: dist}
		runCase(c, f)
		cases++
		if r.index < 2 {
			samples = append(samples, c.samples...)
		}
		for i := range c.fails {
			nfail++
			enc.Encode(childMsg{Fail: &c.fails[i]})
		}
		if len(c.fails) > 0 {
			w.Flush()
		}
	}
	l := caseList(p, tier)
	if only != "" {
		i := strings.LastIndex(only, "/")
		idx, _ := strconv.Atoi(only[i+1:])
		for fi := range p.Families {
			if p.Families[fi].Name == only[:i] {
				run(0, caseRef{fi, idx})
			}
		}
	} else {
		for pos := shard; pos < len(l); pos += shards {
			if pos < from {
				continue
			}
			run(pos, l[pos])
			if nfail >= maxFailures {
				break
			}
		}
	}
	m := childMsg{Done: true, Events: events, Samp: samples, Cases: cases}
	for h := range dist {
		m.Dist = append(m.Dist, h)
	}
	enc.Encode(m)
	w.Flush()
}

func (ps *parentState) childCmd(extra ...string) *exec.Cmd {
	self, _ := os.Executable()
	args := []string{"-child", "-prop", ps.prop.ID, "-tier", ps.tier, "-seed", strconv.FormatInt(ps.seed, 10)}
	args = append(args, extra...)
	// limits are applied by a small shell prefix, so that they only concern the child
	sh := fmt.Sprintf("ulimit -c 0; ulimit -v %d; exec \"$0\" \"$@\"", childASLimit/1024)
	if ps.prop.Race {
		sh = "ulimit -c 0; exec \"$0\" \"$@\"" // the race detector reserves a huge address space
	}
	cmd := exec.Command("/bin/bash", append([]string{"-c", sh, self}, args...)...)
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMAXPROCS="+strconv.Itoa(ps.childProcs()))
	if ps.coverDir != "" {
		cmd.Env = append(cmd.Env, "GOCOVERDIR="+ps.coverDir)
	}
	if ps.prop.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66")
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	return cmd
}

func (ps *parentState) childProcs() int {
	if ps.prop.Race || ps.prop.Serial {
		return runtime.NumCPU()
	}
	return 2
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 64<<10 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

type childResult struct {
	done    bool
	last    string
	lastPos int
	stderr  string
	err     error
	stalled bool
	cpu     float64
}

func (ps *parentState) runOne(args []string, cpuLimit int) childResult {
	// Pdeathsig is tied to the thread that starts the child
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var res childResult
	cmd := ps.childCmd(args...)
	if cpuLimit > 0 {
		cmd.Args[2] = fmt.Sprintf("ulimit -t %d; ", cpuLimit) + cmd.Args[2]
	}
	so, err := cmd.StdoutPipe()
	if err != nil {
		res.err = err
		return res
	}
	se := &tailBuf{}
	cmd.Stderr = se
	if err := cmd.Start(); err != nil {
		res.err = err
		return res
	}
	tick := make(chan struct{}, 1)
	stop := make(chan struct{})
	go func() {
		limit := stallSeconds * time.Second
		if cpuLimit > 0 {
			limit = time.Duration(cpuLimit*3) * time.Second
		}
		t := time.NewTimer(limit)
		for {
			select {
			case <-tick:
				t.Reset(limit)
			case <-t.C:
				res.stalled = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			case <-stop:
				t.Stop()
				return
			}
		}
	}()
	rd := bufio.NewReaderSize(so, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 && err == nil {
			var m childMsg
			if json.Unmarshal(line, &m) == nil {
				ps.mu.Lock()
				switch {
				case m.Start != "":
					res.last, res.lastPos = m.Start, m.Pos
				case m.Fail != nil:
					ps.fails = append(ps.fails, *m.Fail)
				case m.Done:
					res.done = true
					ps.cases += m.Cases
					for k, v := range m.Events {
						ps.events[k] += v
					}
					for _, h := range m.Dist {
						ps.dist[h] = struct{}{}
					}
					ps.samples = append(ps.samples, m.Samp...)
				}
				ps.mu.Unlock()
				select {
				case tick <- struct{}{}:
				default:
				}
			}
		}
		if err != nil {
			break
		}
	}
	res.err = cmd.Wait()
	close(stop)
	if cmd.ProcessState != nil {
		res.cpu = (cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()).Seconds()
	}
	res.stderr = string(se.b)
	return res
}

func (ps *parentState) runShard(shard, shards int, fam string) {
	from := 0
	deaths := 0
	for {
		args := []string{"-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards), "-from", strconv.Itoa(from)}
		if fam != "" {
			args = append(args, "-family", fam)
		}
		res := ps.runOne(args, 0)
		if res.done && (res.err == nil || ps.prop.Race && !strings.Contains(res.stderr, "DATA RACE")) {
			return
		}
		deaths++
		// The child died or stalled during res.last: run that case alone to tell which it is.
		if strings.Contains(res.stderr, "harness panic in") || res.last == "" {
			ps.addInconclusive(fmt.Sprintf("harness error: %v\n%s", res.err, res.stderr))
			return
		}
		i := strings.LastIndex(res.last, "/")
		idx, _ := strconv.Atoi(res.last[i+1:])
		if ps.prop.Race && strings.Contains(res.stderr, "DATA RACE") {
			ps.addFail(failure{Sig: "race:" + raceSite(res.stderr), Msg: res.stderr, Family: res.last[:i], Index: idx})
			return
		}
		alone := ps.runOne(append([]string{"-only", res.last}, famArg(fam)...), aloneCPU)
		switch {
		case alone.done && alone.err == nil:
			// It works alone, perhaps memory was short. Observed nothing wrong with this case.
			ps.addNote("case " + res.last + " died in its shard but passed alone: " + firstLine(res.stderr))
		case alone.cpu >= aloneCPU*0.9 || alone.stalled && alone.cpu > 30:
			ps.addFail(failure{Sig: "hang:" + res.last[:i], Msg: fmt.Sprintf("does not end: more than %.0f s of CPU alone", alone.cpu), Family: res.last[:i], Index: idx})
		case strings.Contains(alone.stderr, "tc-hib/winres"):
			ps.addFail(failure{Sig: "crash:" + panicSite(alone.stderr), Msg: fmt.Sprintf("fatal: %v\n%s", alone.err, clip(alone.stderr, 6000)), Family: res.last[:i], Index: idx})
		default:
			ps.addInconclusive(fmt.Sprintf("case %s: %v stalled=%v cpu=%.1f\n%s", res.last, alone.err, alone.stalled, alone.cpu, clip(alone.stderr, 3000)))
		}
		if deaths >= maxChildDeaths {
			return
		}
		from = res.lastPos + 1
	}
}

func famArg(fam string) []string {
	if fam == "" {
		return nil
	}
	return []string{"-family", fam}
}

func raceSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/tc-hib/winres") {
			return strings.TrimSuffix(strings.TrimPrefix(l, "github.com/tc-hib/"), "()")
		}
	}
	return "?"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func (ps *parentState) addFail(f failure) {
	ps.mu.Lock()
	ps.fails = append(ps.fails, f)
	ps.mu.Unlock()
}

func (ps *parentState) addInconclusive(s string) {
	ps.mu.Lock()
	ps.inconcl = append(ps.inconcl, s)
	ps.mu.Unlock()
}

func (ps *parentState) addNote(s string) {
	ps.mu.Lock()
	ps.samples = append(ps.samples, "note: "+s)
	ps.mu.Unlock()
}

// knownFindings reads lines "finding: property=<id> sig=<sig> <text>".
func knownFindings(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 3 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "sig=") {
			continue
		}
		m[strings.TrimPrefix(f[2], "sig=")] = strings.Join(f[3:], " ")
	}
	return m
}

func runParent(p *Prop, tier string, seed int64, out, replayDir, known, fam string, j int) int {
	start := time.Now()
	ps := &parentState{prop: p, tier: tier, seed: seed, events: map[string]int64{}, dist: map[uint64]struct{}{}}
	ps.coverDir = os.Getenv("VRUN_COVERDIR")
	total := len(caseList(p, tier))
	n := runtime.NumCPU()
	if p.Race || p.Serial {
		n = 2
	}
	if j > 0 {
		n = j
	}
	if n > total {
		n = total
	}
	if n < 1 {
		n = 1
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ps.runShard(i, n, fam)
		}(i)
	}
	wg.Wait()
	if p.Finish != nil {
		p.Finish(ps)
	}

	// deterministic order of failures
	famIdx := map[string]int{}
	for i, f := range p.Families {
		famIdx[f.Name] = i
	}
	sort.SliceStable(ps.fails, func(a, b int) bool {
		fa, fb := ps.fails[a], ps.fails[b]
		if famIdx[fa.Family] != famIdx[fb.Family] {
			return famIdx[fa.Family] < famIdx[fb.Family]
		}
		return fa.Index < fb.Index
	})
	kf := knownFindings(known, p.ID)
	printed := map[string]bool{}
	var bad []failure
	for _, f := range ps.fails {
		if text, ok := kf[f.Sig]; ok {
			if !printed[f.Sig] {
				printed[f.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, text, f.Sig)
			}
			continue
		}
		bad = append(bad, f)
	}
	var low []string
	for k, v := range p.Min {
		if tier == "quick" || tier == "thorough" {
			if ps.events[k] < v {
				low = append(low, fmt.Sprintf("%s: %d < %d", k, ps.events[k], v))
			}
		}
	}
	sort.Strings(low)
	wall := time.Since(start).Seconds()
	if out != "" {
		writeEvidence(ps, out, wall, len(bad))
	}
	keys := make([]string, 0, len(ps.events))
	for k := range ps.events {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: %d cases, %d distinct, %.1fs\n", p.ID, tier, ps.cases, len(ps.dist), wall)
	for _, k := range keys {
		fmt.Printf("  %-42s %d\n", k, ps.events[k])
	}
	if len(bad) > 0 {
		seen := map[string]int{}
		for _, f := range bad {
			seen[f.Sig]++
		}
		printedSig := map[string]bool{}
		first := true
		for _, f := range bad {
			if printedSig[f.Sig] || len(printedSig) >= 8 {
				continue
			}
			printedSig[f.Sig] = true
			path := saveReplay(ps, replayDir, f)
			if first {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				first = false
			} else {
				fmt.Printf("also: %s replay=%s\n", f.Sig, path)
			}
			fmt.Printf("  [%s x%d] %s/%d: %s\n", f.Sig, seen[f.Sig], f.Family, f.Index, clip(f.Msg, 1500))
		}
		return 1
	}
	if len(ps.inconcl) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: %s\n", p.ID, clip(ps.inconcl[0], 4000))
		return 2
	}
	if len(low) > 0 {
		fmt.Printf("INCONCLUSIVE property=%s: too few observations: %s\n", p.ID, strings.Join(low, "; "))
		return 2
	}
	return 0
}

func saveReplay(ps *parentState, dir string, f failure) string {
	if dir == "" {
		dir = os.TempDir()
	}
	name := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, fmt.Sprintf("%s-%s-%d-%s", ps.prop.ID, f.Family, f.Index, clip(f.Sig, 40)))
	os.MkdirAll(dir, 0o777)
	path := filepath.Join(dir, name+".json")
	att := map[string]string{}
	for k, b := range f.Attached {
		ap := filepath.Join(dir, name+"."+k)
		os.WriteFile(ap, b, 0o666)
		att[k] = ap
	}
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": ps.prop.ID, "tier": ps.tier, "seed": ps.seed, "family": f.Family, "index": f.Index,
		"sig": f.Sig, "message": f.Msg, "attached": att,
		"how": "bash /verif/check.sh " + ps.prop.ID + " replay " + path,
	}, "", " ")
	os.WriteFile(path, b, 0o666)
	return path
}

func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var r struct {
		Property string
		Tier     string
		Seed     int64
		Family   string
		Index    int
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	p := props[r.Property]
	for fi := range p.Families {
		f := &p.Families[fi]
		if f.Name != r.Family {
			continue
		}
		c := &Ctx{Prop: p.ID, Family: f.Name, Index: r.Index, Tier: r.Tier, Seed: r.Seed,
			Rng: caseRng(r.Seed, p.ID, f.Name, r.Index), events: map[string]int64{}, distinct: map[uint64]struct{}{}}
		runCase(c, f)
		for _, f := range c.fails {
			fmt.Printf("VIOLATION property=%s replay=%s\n  [%s] %s\n", p.ID, path, f.Sig, f.Msg)
		}
		if len(c.fails) > 0 {
			return 1
		}
	}
	return 0
}

func writeEvidence(ps *parentState, out string, wall float64, violations int) {
	cov := map[string]interface{}{
		"evaluations":         ps.cases,
		"distinct_nontrivial": len(ps.dist),
		"rule":                ps.prop.Rule,
		"samples":             sampleList(ps.samples),
		"observed":            ps.events,
	}
	fams := map[string]int{}
	for _, f := range ps.prop.Families {
		fams[f.Name] = f.count(ps.tier)
	}
	cov["families"] = fams
	if pct := coverage(ps.coverDir); pct != nil {
		cov["repo_statement_coverage"] = pct
	}
	if len(ps.inconcl) > 0 {
		cov["inconclusive"] = ps.inconcl
	}
	ev := map[string]interface{}{
		"property": ps.prop.ID, "tier": ps.tier, "seed": ps.seed, "level": ps.prop.Level,
		"coverage": cov, "wall_s": math.Round(wall*100) / 100, "violations": violations,
	}
	if len(ps.prop.Notes) > 0 {
		ev["assumptions"] = ps.prop.Notes
	}
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	e.Encode(ev)
	os.MkdirAll(filepath.Dir(out), 0o777)
	os.WriteFile(out, buf.Bytes(), 0o666)
}

func sampleList(s []string) []string {
	if len(s) == 0 {
		return []string{"(none)"}
	}
	sort.Strings(s)
	if len(s) > 24 {
		step := float64(len(s)) / 24
		var r []string
		for i := 0; i < 24; i++ {
			r = append(r, s[int(float64(i)*step)])
		}
		return r
	}
	return s
}

func coverage(dir string) interface{} {
	if dir == "" {
		return nil
	}
	b, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil || len(bytes.TrimSpace(b)) == 0 {
		return nil
	}
	var l []string
	for _, s := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		l = append(l, strings.Join(strings.Fields(s), " "))
	}
	return l
}
