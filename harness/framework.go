package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sort"
	"strings"
)

// A Prop is one property: families of deterministic cases, each of which drives the real code and
// observes it with an oracle.
type Prop struct {
	ID       string
	Rule     string           // how cases are made, what makes one non-trivial
	Level    string           // evidence level
	Families []Family         //
	Min      map[string]int64 // minimum number of observations of each event; fewer is inconclusive
	Notes    []string         // assumptions
	Race     bool             // run with the race detector
	Serial   bool             // one process at a time (heavy)
	Finish   func(p *parentState)
}

type Family struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *Ctx)
}

func (f Family) count(tier string) int {
	if tier == "thorough" {
		return f.Thorough
	}
	return f.Quick
}

type failure struct {
	Sig      string            `json:"sig"`
	Msg      string            `json:"msg"`
	Family   string            `json:"family"`
	Index    int               `json:"index"`
	Attached map[string][]byte `json:"attached,omitempty"`
}

// Ctx is handed to each case.
type Ctx struct {
	Prop     string
	Family   string
	Index    int
	Tier     string
	Seed     int64
	Rng      *rand.Rand
	events   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	fails    []failure
	attach   map[string][]byte
	maxSamp  int
}

type stopCase struct{}

// Failf records a violation and ends the case.
func (c *Ctx) Failf(sig, format string, a ...interface{}) {
	c.Report(sig, format, a...)
	panic(stopCase{})
}

// Report records a violation and goes on.
func (c *Ctx) Report(sig, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 8000 {
		msg = msg[:8000] + "..."
	}
	f := failure{Sig: sig, Msg: msg, Family: c.Family, Index: c.Index}
	if len(c.attach) > 0 {
		f.Attached = map[string][]byte{}
		for k, v := range c.attach {
			if len(v) <= 4<<20 {
				f.Attached[k] = v
			}
		}
	}
	c.fails = append(c.fails, f)
}

// Attach keeps bytes that will be saved if the case fails.
func (c *Ctx) Attach(name string, b []byte) {
	if c.attach == nil {
		c.attach = map[string][]byte{}
	}
	c.attach[name] = append([]byte(nil), b...)
}

// Event counts an observation made by a monitor.
func (c *Ctx) Event(name string, n int) { c.events[name] += int64(n) }

// Nontrivial records a distinct non-trivial execution, identified by key.
func (c *Ctx) Nontrivial(key ...interface{}) {
	h := sha256.New()
	fmt.Fprint(h, c.Family, "|")
	for _, k := range key {
		switch k := k.(type) {
		case []byte:
			h.Write(k)
		case string:
			h.Write([]byte(k))
		default:
			fmt.Fprint(h, k)
		}
		h.Write([]byte{0})
	}
	c.distinct[binary.LittleEndian.Uint64(h.Sum(nil))] = struct{}{}
}

// Sample writes a case out in the evidence.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if len(c.samples) >= 4 && c.Index > 1 {
		return
	}
	if len(c.samples) >= 12 {
		return
	}
	s := fmt.Sprintf(format, a...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.samples = append(c.samples, fmt.Sprintf("%s/%d: %s", c.Family, c.Index, s))
}

func (c *Ctx) subRng(salt string) *rand.Rand {
	return caseRng(c.Seed, c.Prop+"/"+salt, c.Family, c.Index)
}

func caseRng(seed int64, prop, family string, index int) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%s|%d", seed, prop, family, index)))
	return rand.New(rand.NewSource(int64(binary.LittleEndian.Uint64(h[:]) >> 1)))
}

// runCase runs one case, turning a panic into a violation.
func runCase(c *Ctx, f *Family) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(stopCase); ok {
			return
		}
		st := string(debug.Stack())
		if isHarnessPanic(st) {
			// not in the code under test: an error of the harness, reported as such.
			panic(fmt.Sprintf("harness panic in %s/%s/%d: %v\n%s", c.Prop, c.Family, c.Index, r, st))
		}
		c.Report("panic:"+panicSite(st), "panic: %v\n%s", r, trimStack(st))
	}()
	f.Run(c)
}

// isHarnessPanic tells whether no frame of the code under test is above the harness's frames.
func isHarnessPanic(st string) bool {
	lines := strings.Split(st, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic {
			continue
		}
		if strings.HasPrefix(l, "github.com/tc-hib/winres") {
			return false
		}
		if strings.HasPrefix(l, "main.") {
			// a harness frame comes first; a callback called by the library counts as harness
			return true
		}
	}
	return false
}

func panicSite(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/tc-hib/winres") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/tc-hib/")
		}
	}
	return "?"
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

var props = map[string]*Prop{}

// quickScale multiplies the number of cases of quick runs, except in families that enumerate something.
var quickScale = map[string]int{
	"C01": 18, "C02": 8, "C03": 36, "C04": 30, "C05": 25, "C06": 14, "C07": 18, "C08": 20, "C09": 60, "C10": 40,
	"C11": 5, "C12": 30, "C13": 8, "C14": 6, "C15": 5, "C16": 2, "C17": 4, "C18": 12, "C19": 5, "C20": 16,
	"C21": 4, "C22": 120, "C23": 300, "C24": 200, "C25": 200, "C26": 16, "C27": 120, "C28": 8, "C29": 1, "C30": 5, "C31": 3,
}

func register(p *Prop) {
	for i := range p.Families {
		if f := &p.Families[i]; f.Thorough > 5*f.Quick && quickScale[p.ID] > 1 {
			f.Quick *= quickScale[p.ID]
		}
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	props[p.ID] = p
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}
