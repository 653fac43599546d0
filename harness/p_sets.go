package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/tc-hib/winres"
)

func writeObj(c *Ctx, rs *winres.ResourceSet, arch string) []byte {
	var b bytes.Buffer
	if err := rs.WriteObject(&b, winres.Arch(arch)); err != nil {
		c.Failf("writeobject-error", "WriteObject(%s): %v", arch, err)
	}
	return b.Bytes()
}

var sectionRVAs = []uint32{0, 1, 0x1000, 0x2000, 0x12345000, 0x7FFFF000, 0x10, 0x0FFF0000, 0x00ABC000}

// checkObject decides C01/C02/C03 for one object file.
func checkObject(c *Ctx, obj []byte, arch string, m model, rva uint32) *rsrcTree {
	o, err := parseCOFF(obj, arch)
	if err != nil {
		c.Attach("obj", obj)
		c.Failf("coff", "%s: %v (%s)", arch, err, m.describe())
	}
	sec := o.link(rva)
	t, err := decodeRsrc(sec, rva, true)
	if err != nil {
		c.Attach("obj", obj)
		c.Failf("rsrc-dir", "%s at %#x: %v (%s)", arch, rva, err, m.describe())
	}
	if s := compareEntries(t.entries, m); s != "" {
		c.Attach("obj", obj)
		c.Failf("content", "%s at %#x: %s (%s)", arch, rva, s, m.describe())
	}
	if err := o.checkRelocSites(t); err != nil {
		c.Attach("obj", obj)
		c.Failf("reloc-sites", "%s: %v (%s)", arch, err, m.describe())
	}
	if int(t.end) > len(sec) {
		c.Failf("rsrc-end", "content ends at %#x, section is %#x bytes", t.end, len(sec))
	}
	c.Event("objects decoded", 1)
	c.Event("resources compared", len(t.entries))
	c.Event("relocations applied", len(o.relocs))
	c.Event("binary searches", len(t.entries))
	return t
}

func objectsCase(c *Ctx) {
	m := genModelFit(c.Rng)
	rs := m.build(c, c.Rng)
	for _, a := range archs {
		obj := writeObj(c, rs, a)
		rva := sectionRVAs[c.Rng.Intn(len(sectionRVAs))]
		checkObject(c, obj, a, m, rva)
	}
	noteModel(c, m)
	if len(m) > 0 {
		c.Nontrivial(m.describe(), len(m), m.totalSize())
	}
	c.Sample("%s", m.describe())
}

func noteModel(c *Ctx, m model) {
	named, empty, hi := 0, 0, 0
	for k, v := range m {
		if k.typ.isName || k.res.isName {
			named++
		}
		if len(v) == 0 {
			empty++
		}
		if k.lang >= 0x8000 || k.typ.id >= 0x8000 || k.res.id >= 0x8000 {
			hi++
		}
	}
	c.Event("named resources", named)
	c.Event("empty resources", empty)
	c.Event("identifiers with the high bit", hi)
}

// objectsAfterHistory writes objects in the middle of a history of operations.
func objectsAfterHistory(c *Ctx) {
	h := newHistory(c)
	n := 3 + c.Rng.Intn(6)
	for i := 0; i < n; i++ {
		h.steps(5 + c.Rng.Intn(25))
		a := archs[c.Rng.Intn(4)]
		checkObject(c, writeObj(c, h.rs, a), a, h.m, 0x3000)
	}
	c.Event("objects in the middle of a history", n)
	c.Nontrivial(h.log.String())
}

type megaSpec struct {
	name string
	mk   func(m model)
	ok   bool // an object can hold it
	okX  bool // an executable can hold it
}

func megaSpecs() []megaSpec {
	d := []byte{1}
	langs := func(n int, t, r ident) func(model) {
		return func(m model) {
			for i := 0; i < n; i++ {
				m[rkey{t, r, uint16(i)}] = d
			}
		}
	}
	ids := func(n int, t ident) func(model) {
		return func(m model) {
			for i := 1; i <= n; i++ {
				m[rkey{t, idn(uint16(i)), 0x409}] = d
			}
		}
	}
	names := func(n int, t ident) func(model) {
		return func(m model) {
			for i := 0; i < n; i++ {
				m[rkey{t, nam(fmt.Sprintf("R%X", i)), 0}] = d
			}
		}
	}
	types := func(n int) func(model) {
		return func(m model) {
			for i := 1; i <= n; i++ {
				m[rkey{idn(uint16(i)), idn(1), 0}] = d
			}
		}
	}
	typeNames := func(n int) func(model) {
		return func(m model) {
			for i := 1; i <= n; i++ {
				m[rkey{nam(fmt.Sprint("T", i)), idn(1), 0}] = d
			}
		}
	}
	both := func(f ...func(model)) func(model) {
		return func(m model) {
			for _, g := range f {
				g(m)
			}
		}
	}
	return []megaSpec{
		{"65535 languages", langs(65535, idn(10), idn(1)), true, true},
		{"65536 languages", langs(65536, idn(10), idn(1)), false, false},
		{"65535 ids", ids(65535, idn(10)), true, true},
		{"65535 ids and one more resource", both(ids(65535, idn(10)), langs(1, idn(11), idn(1))), false, true},
		{"65535 names", names(65535, idn(10)), true, true},
		{"65536 names", names(65536, idn(10)), false, false},
		{"65535 types", types(65535), true, true},
		{"65536 named types", typeNames(65536), false, false},
		{"40000 names and 40000 ids", both(names(40000, idn(10)), ids(40000, idn(10))), false, true},
		{"30000 names and 30000 ids", both(names(30000, idn(10)), ids(30000, idn(10))), true, true},
		{"65534 resources in two types", both(ids(32767, idn(10)), ids(32767, idn(11))), true, true},
		{"65536 resources in two types", both(ids(32768, idn(10)), ids(32768, idn(11))), false, true},
		{"70000 resources", both(ids(35000, idn(10)), ids(35000, nam("T"))), false, true},
		{"131072 resources in three types", both(langs(65535, idn(10), idn(1)), langs(65535, idn(11), idn(1)), langs(2, idn(12), idn(1))), false, true},
	}
}

func objectsMega(c *Ctx) {
	specs := megaSpecs()
	s := specs[c.Index%len(specs)]
	m := model{}
	s.mk(m)
	rs := m.build(c, c.Rng)
	as := archs
	if c.Tier == "quick" {
		as = archs[c.Index%4 : c.Index%4+1]
	}
	for _, a := range as {
		var b bytes.Buffer
		err := rs.WriteObject(&b, winres.Arch(a))
		if s.ok {
			if err != nil {
				c.Failf("mega-error", "%s: %v", s.name, err)
			}
			checkObject(c, b.Bytes(), a, m, 0x5000)
			c.Event("sets at the limits held", 1)
		} else {
			if err == nil {
				_, perr := parseCOFF(b.Bytes(), a)
				c.Failf("limit-silent", "%s: WriteObject(%s) reports success although the format cannot hold them (reading back: %v)", s.name, a, perr)
			}
			c.Event("sets beyond the limits refused", 1)
		}
	}
	c.Nontrivial(s.name)
	c.Sample("%s, object can hold it: %v", s.name, s.ok)
}

// hugeObjects: sets around the 4 GB that 32-bit fields can hold. The data is not kept.
func hugeObjects(c *Ctx) {
	a := archs[c.Index%len(archs)]
	rs := &winres.ResourceSet{}
	mb := []int{4096, 2047, 4080, 4095 + c.Rng.Intn(2), 8192 + c.Rng.Intn(100), 2049 + c.Rng.Intn(1000), 4097 + c.Rng.Intn(300), 65536}[c.Index%8]
	n := fillHuge(rs, mb)
	w := &headTail{head: make([]byte, 0, 1<<16)}
	err := rs.WriteObject(w, winres.Arch(a))
	if err != nil {
		if n < 1<<32-16<<20 {
			c.Failf("huge-error", "%d MB: %v", n>>20, err)
		}
		c.Event("sets of more than 4 GB refused", 1)
		return
	}
	if n > 1<<32 {
		c.Failf("huge-silent", "WriteObject(%s) reports success with %d MB of resources, which the format cannot hold", a, n>>20)
	}
	size, relPtr, symPtr := int64(le.Uint32(w.head[20+16:])), int64(le.Uint32(w.head[20+24:])), int64(le.Uint32(w.head[8:]))
	ptr, nrel := int64(le.Uint32(w.head[20+20:])), int64(le.Uint16(w.head[20+32:]))
	if size < n || ptr+size > relPtr || relPtr+10*nrel > symPtr || symPtr+18+4 != w.n {
		c.Failf("huge-layout", "%d MB: section of %#x bytes at %#x, %d relocations at %#x, symbols at %#x, file of %#x", n>>20, size, ptr, nrel, relPtr, symPtr, w.n)
	}
	sec := w.head[ptr:]
	dir := func(o uint32) (l []uint32) {
		for i := uint32(0); i < uint32(le.Uint16(sec[o+14:])); i++ {
			l = append(l, le.Uint32(sec[o+16+8*i+4:])&0x7FFFFFFF)
		}
		return l
	}
	var end int64
	for _, t := range dir(0) {
		for _, r := range dir(t) {
			for _, e := range dir(r) {
				o, s := int64(le.Uint32(sec[e:])), int64(le.Uint32(sec[e+4:]))
				if o < end || o+s > size {
					c.Failf("huge-data", "%d MB: data at %#x, %#x bytes, after %#x in a section of %#x", n>>20, o, s, end, size)
				}
				end = o + s
			}
		}
	}
	if end < n {
		c.Failf("huge-data", "%d MB: data ends at %#x", n>>20, end)
	}
	c.Event("sets of nearly 4 GB held", 1)
	c.Nontrivial(a, n)
}

// headTail counts what is written, and keeps the beginning.
type headTail struct {
	head []byte
	n    int64
}

func (w *headTail) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	if k := cap(w.head) - len(w.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		w.head = append(w.head, p[:k]...)
	}
	return len(p), nil
}

// objectsSweep gives each 16-bit value to types, names, languages and sizes, in slices of 2048.
func objectsSweep(c *Ctx) {
	m := model{}
	lo := c.Index * 2048 % 65536
	for v := lo; v < lo+2048; v++ {
		d := make([]byte, v%19)
		for i := range d {
			d[i] = byte(v >> (i & 7))
		}
		switch c.Index / 32 % 3 {
		case 0:
			m[rkey{idn(10), nam("X"), uint16(v)}] = d
		case 1:
			if v > 0 {
				m[rkey{idn(10), idn(uint16(v)), 0}] = d
			}
		case 2:
			if v > 0 {
				m[rkey{idn(uint16(v)), idn(1), 0}] = d
			}
		}
	}
	rs := m.build(c, c.Rng)
	a := archs[c.Index%4]
	checkObject(c, writeObj(c, rs, a), a, m, 0x1000)
	c.Event("16-bit values swept", len(m))
	c.Nontrivial("sweep", c.Index)
}

// objectsSizes sweeps data sizes, including big ones.
func objectsSizes(c *Ctx) {
	m := model{}
	base := c.Index * 64
	for i := 0; i < 64; i++ {
		m[rkey{idn(10), idn(uint16(1 + i)), 0}] = randBytes(c.Rng, base+i)
	}
	if c.Index%8 == 3 {
		n := []int{1 << 16, 1<<16 - 1, 1<<16 + 1, 1 << 20, 1<<20 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1}[c.Index/8%8]
		m[rkey{idn(10), nam("BIG"), 0}] = randBytes(c.Rng, n)
	}
	rs := m.build(c, c.Rng)
	a := archs[c.Index%4]
	checkObject(c, writeObj(c, rs, a), a, m, 0x1000)
	c.Nontrivial("sizes", c.Index)
	c.Event("data sizes swept", 64)
}

// objectsNames sweeps name lengths and code units.
func objectsNames(c *Ctx) {
	m := model{}
	rng := c.Rng
	switch c.Index % 4 {
	case 0: // lengths
		for i := 0; i < 40; i++ {
			n := 1 + (c.Index/4*40+i)%700
			m[rkey{nam(strings.Repeat("N", n)), nam(strings.Repeat("é", n)), 0}] = []byte{byte(i)}
		}
	case 1: // code units
		base := c.Index / 4 * 512
		for i := 0; i < 512; i++ {
			r := rune((base + i) % 0x10000)
			if r == 0 || r >= 0xD800 && r < 0xE000 {
				r = 0x10000 + r
			}
			m[rkey{idn(10), nam(string(r)), 0}] = []byte{byte(i)}
			m[rkey{idn(10), nam("A" + string(r)), 0}] = []byte{byte(i)}
		}
	case 2: // very long names
		n := []int{255, 256, 4096, 32767, 32768, 65534, 65535}[c.Index/4%7]
		m[rkey{nam(strings.Repeat("L", n)), idn(1), 0}] = []byte("x")
		m[rkey{idn(10), nam(strings.Repeat("M", n)), 0}] = []byte("y")
		if n%2 == 0 {
			m[rkey{idn(10), nam(strings.Repeat("\U0001F600", n/2)), 0}] = []byte("z")
		}
	case 3:
		for i := 0; i < 60; i++ {
			m[rkey{nam(genName(rng)), nam(genName(rng)), genLang(rng)}] = genData(rng, 20)
		}
	}
	rs := m.build(c, c.Rng)
	a := archs[rng.Intn(4)]
	checkObject(c, writeObj(c, rs, a), a, m, 0x1000)
	c.Event("names compared", 2*len(m))
	c.Nontrivial("names", c.Index)
}

func objectsUnknownArch(c *Ctx) {
	rs := genModel(c.Rng).build(c, c.Rng)
	for _, a := range []string{"", "x86", "AMD64", "mips", "arm ", "riscv64"} {
		var b bytes.Buffer
		if err := rs.WriteObject(&b, winres.Arch(a)); err == nil {
			c.Failf("unknown-arch", "WriteObject accepts architecture %q", a)
		}
		c.Event("unknown architectures refused", 1)
	}
}

// ------------------------------------------------------------- histories

type history struct {
	c     *Ctx
	rng   *rand.Rand
	rs    *winres.ResourceSet
	m     model
	types []ident
	ress  []ident
	langs []uint16
	log   strings.Builder
	nops  int
	given [][]byte // some slices given to the set
}

func newHistory(c *Ctx) *history {
	h := &history{c: c, rng: c.Rng, rs: &winres.ResourceSet{}, m: model{}}
	h.universe()
	return h
}

func (h *history) universe() {
	rng := h.rng
	nt, nr, nl := 1+rng.Intn(4), 1+rng.Intn(5), 1+rng.Intn(5)
	if rng.Intn(8) == 0 {
		nr, nl = 1+rng.Intn(20), 1+rng.Intn(30)
	}
	for i := 0; i < nt; i++ {
		t := genType(rng)
		if rng.Intn(6) == 0 {
			t = idn([]uint16{1, 3, 12, 14}[rng.Intn(4)])
		}
		h.types = append(h.types, t)
	}
	for i := 0; i < nr; i++ {
		h.ress = append(h.ress, genIdent(rng))
	}
	if rng.Intn(3) == 0 {
		h.ress = append(h.ress, h.types[0]) // same identifier at two levels
	}
	for i := 0; i < nl; i++ {
		h.langs = append(h.langs, genLang(rng))
	}
}

func (h *history) key() rkey {
	if len(h.m) > 0 && h.rng.Intn(3) == 0 { // a live key
		l := h.m.sorted()
		return l[h.rng.Intn(len(l))].rkey
	}
	return rkey{h.types[h.rng.Intn(len(h.types))], h.ress[h.rng.Intn(len(h.ress))], h.langs[h.rng.Intn(len(h.langs))]}
}

func (h *history) set(k rkey, d []byte) {
	if err := h.rs.Set(k.typ.wr(), k.res.wr(), k.lang, d); err != nil {
		h.c.Failf("set-refused", "Set(%s): %v\nhistory: %s", k, err, h.log.String())
	}
	if d == nil {
		delete(h.m, k)
	} else {
		h.m[k] = append([]byte{}, d...) // the library keeps d
		if len(h.given) < 16 {
			h.given = append(h.given, d)
		} else {
			h.given[h.nops%16] = d
		}
	}
}

// stepFail reports a wrong answer of one operation: only C05 is about that.
func (h *history) stepFail(sig, format string, a ...interface{}) {
	if h.c.Prop == "C05" {
		h.fail(sig, format, a...)
	}
}

func (h *history) fail(sig, format string, a ...interface{}) {
	s := h.log.String()
	if len(s) > 4000 {
		s = "..." + s[len(s)-4000:]
	}
	h.c.Failf(sig, format+"\nhistory: %s", append(a, s)...)
}

// steps runs n random operations, each checked as far as its own result goes.
func (h *history) steps(n int) {
	for i := 0; i < n; i++ {
		h.step()
	}
}

func (h *history) step() {
	rng := h.rng
	h.nops++
	h.c.Event("operations", 1)
	switch op := rng.Intn(20); op {
	case 0, 1, 2, 3, 4, 5:
		k := h.key()
		d := genData(rng, 64)
		if old, ok := h.m[k]; ok && rng.Intn(3) == 0 {
			d = randBytes(rng, len(old))
		} else if len(h.given) > 0 && rng.Intn(4) == 0 {
			d = append([]byte{}, h.given[rng.Intn(len(h.given))]...)
			if rng.Intn(2) == 0 { // the very slice of another resource
				d = h.given[rng.Intn(len(h.given))]
				h.c.Event("slices given again", 1)
			}
		}
		fmt.Fprintf(&h.log, "set %s [%d]; ", k, len(d))
		if _, ok := h.m[k]; ok {
			h.c.Event("op replace", 1)
		} else {
			h.c.Event("op add", 1)
		}
		h.set(k, d)
	case 6, 7, 8, 9:
		k := h.key()
		fmt.Fprintf(&h.log, "del %s; ", k)
		if _, ok := h.m[k]; ok {
			h.c.Event("op delete live", 1)
		} else {
			h.c.Event("op delete absent", 1)
		}
		h.set(k, nil)
	case 10, 11:
		k := h.key()
		fmt.Fprintf(&h.log, "get %s; ", k)
		d := h.rs.Get(k.typ.wr(), k.res.wr(), k.lang)
		w, ok := h.m[k]
		if ok != (d != nil) || !bytes.Equal(w, d) {
			h.stepFail("get", "Get(%s) gave %d bytes (nil=%v), want %d (present=%v)", k, len(d), d == nil, len(w), ok)
		}
		h.c.Event("op get", 1)
	case 12, 13:
		h.log.WriteString("walk; ")
		h.checkWalk()
	case 14:
		t := h.types[rng.Intn(len(h.types))]
		fmt.Fprintf(&h.log, "walktype %s; ", t)
		h.checkWalkType(t)
	case 15:
		h.log.WriteString("count; ")
		if n := h.rs.Count(); n != len(h.m) {
			h.stepFail("count", "Count is %d, want %d", n, len(h.m))
		}
		h.c.Event("op count", 1)
	case 16:
		n := 0
		if len(h.m) > 0 {
			n = rng.Intn(len(h.m))
		}
		fmt.Fprintf(&h.log, "walk stopping at %d; ", n)
		calls := 0
		h.rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool {
			calls++
			return calls <= n
		})
		want := n + 1
		if want > len(h.m) {
			want = len(h.m)
		}
		if calls != want {
			h.stepFail("walk-stop", "walk stopped after %d calls made %d calls (%d resources)", n+1, calls, len(h.m))
		}
		h.c.Event("op walk stopped early", 1)
	case 17:
		h.badSet()
	case 18:
		var b bytes.Buffer
		if rng.Intn(3) == 0 {
			h.failedWrite()
			return
		}
		h.log.WriteString("write; ")
		if err := h.rs.WriteObject(&b, winres.Arch(archs[rng.Intn(4)])); err != nil {
			h.stepFail("write", "WriteObject: %v", err)
		}
		h.c.Event("op write", 1)
	case 19:
		h.iconLookup()
	}
}

// failedWrite writes to a destination that gets full, or patches what cannot be.
func (h *history) failedWrite() {
	rng := h.c.Rng
	var full bytes.Buffer
	if err := h.rs.WriteObject(&full, winres.ArchAMD64); err != nil {
		h.stepFail("write", "WriteObject: %v", err)
	}
	w := &fullW{room: rng.Intn(full.Len()), limit: true, nice: rng.Intn(2) == 0, err: errInjected}
	switch rng.Intn(4) {
	case 0:
		h.log.WriteString("patch of garbage; ")
		if err := h.rs.WriteToEXE(w, bytes.NewReader(make([]byte, rng.Intn(300)))); err == nil {
			h.stepFail("garbage", "WriteToEXE accepts garbage")
		}
	default:
		fmt.Fprintf(&h.log, "write that fails after %d bytes; ", w.room)
		if err := h.rs.WriteObject(w, winres.ArchAMD64); err == nil {
			h.stepFail("failed-write", "WriteObject says nothing of a full destination")
		}
	}
	h.c.Event("op failed write", 1)
}

// iconLookup makes lookups that go through the first language of a resource.
func (h *history) iconLookup() {
	k := h.key()
	fmt.Fprintf(&h.log, "lookup icon and cursor %s; ", k.res)
	h.rs.GetIcon(k.res.wr())
	h.rs.GetCursor(k.res.wr())
	h.c.Event("op icon lookup", 1)
}

func (h *history) checkWalk() {
	got := walkEntries(h.rs)
	if s := compareEntries(got, h.m); s != "" {
		h.stepFail("walk", "Walk: %s", s)
	}
	for i := 1; i < len(got); i++ {
		if cmpKey(got[i-1].rkey, got[i].rkey) >= 0 {
			h.stepFail("walk-order", "Walk gave %s before %s", got[i-1].rkey, got[i].rkey)
		}
	}
	h.c.Event("op walk", 1)
}

func (h *history) checkWalkType(t ident) {
	sub := model{}
	for k, v := range h.m {
		if k.typ == t {
			sub[k] = v
		}
	}
	var got []rentry
	stop := -1
	if h.rng.Intn(3) == 0 && len(sub) > 0 {
		stop = h.rng.Intn(len(sub))
	}
	h.rs.WalkType(t.wr(), func(r winres.Identifier, lang uint16, d []byte) bool {
		got = append(got, rentry{rkey{t, fromWr(r), lang}, d})
		return stop < 0 || len(got) <= stop
	})
	for i := 1; i < len(got); i++ {
		if cmpKey(got[i-1].rkey, got[i].rkey) >= 0 {
			h.stepFail("walktype-order", "WalkType(%s) gave %s before %s", t, got[i-1].rkey, got[i].rkey)
		}
	}
	if stop >= 0 {
		if len(got) != stop+1 {
			h.stepFail("walktype-stop", "WalkType(%s) stopped at call %d made %d calls", t, stop+1, len(got))
		}
		for i, e := range sub.sorted() {
			if i >= len(got) {
				break
			}
			if got[i].rkey != e.rkey || !bytes.Equal(got[i].data, e.data) {
				h.stepFail("walktype", "WalkType(%s): call %d gave %s, want %s", t, i, got[i].rkey, e.rkey)
			}
		}
	} else if s := compareEntries(got, sub); s != "" {
		h.stepFail("walktype", "WalkType(%s): %s", t, s)
	}
	h.c.Event("op walktype", 1)
}

// invalidIdents are refused, whatever else is given.
func invalidIdents() []winres.Identifier {
	l := []winres.Identifier{
		winres.ID(0), winres.Name(""), winres.Name("\x00"), winres.Name("A\x00"), winres.Name("\x00A"), winres.Name("A\x00B"),
		winres.Name(strings.Repeat("Z", 300) + "\x00"),
		// what UTF-16 cannot hold exactly
		winres.Name("\xff"), winres.Name("A\xffB"), winres.Name("\xc3"), winres.Name("\xed\xa0\x80"), winres.Name("\xf4\x90\x80\x80"), winres.Name("\xc0\x80"), winres.Name("abc\xe2\x82"),
	}
	return l
}

func longInvalidIdents() []winres.Identifier {
	return []winres.Identifier{
		winres.Name(strings.Repeat("A", 65536)),
		winres.Name(strings.Repeat("é", 65536)),
		winres.Name(strings.Repeat("\U0001F600", 32768)),
		winres.Name(strings.Repeat("A", 131072)),
		winres.Name(strings.Repeat("A", 65534) + "\U0001F600"),
		winres.Name(strings.Repeat("A", 65536+70)),
	}
}

func (h *history) badSet() {
	bad := invalidIdents()
	b := bad[h.rng.Intn(len(bad))]
	k := h.key()
	t, r := k.typ.wr(), k.res.wr()
	if h.rng.Intn(2) == 0 {
		t = b
	} else {
		r = b
	}
	var d []byte
	if h.rng.Intn(4) > 0 {
		d = genData(h.rng, 10)
	}
	fmt.Fprintf(&h.log, "set invalid %.30q/%.30q; ", fmt.Sprint(t), fmt.Sprint(r))
	if err := h.rs.Set(t, r, k.lang, d); err == nil {
		h.stepFail("invalid-accepted", "Set accepts type %q, name %q", t, r)
	}
	if h.rs.Get(t, r, k.lang) != nil {
		h.stepFail("invalid-stored", "Set refused type %q, name %q but stored it", t, r)
	}
	h.c.Event("op invalid identifier", 1)
}

func historyCase(c *Ctx) {
	h := newHistory(c)
	rounds := 4 + c.Rng.Intn(10)
	for i := 0; i < rounds; i++ {
		h.steps(1 + c.Rng.Intn(20))
		if s := checkSet(h.rs, h.m); s != "" {
			h.fail("state", "%s", s)
		}
		for _, t := range h.types {
			h.checkWalkType(t)
		}
		// absent keys
		for j := 0; j < 5; j++ {
			k := rkey{genType(c.Rng), genIdent(c.Rng), genLang(c.Rng)}
			if _, ok := h.m[k]; !ok && h.rs.Get(k.typ.wr(), k.res.wr(), k.lang) != nil {
				h.fail("get-absent", "Get(%s) gives something never set", k)
			}
		}
	}
	c.Event("states compared", rounds)
	c.Nontrivial(h.log.String())
	c.Sample("%s", clip(h.log.String(), 500))
}

// exhaustiveHistories enumerates all sequences of a small alphabet over few keys.
func exhaustiveHistories(c *Ctx) {
	// alphabet: set or delete one of 4 keys, walk, write, walktype
	keys := []rkey{
		{idn(10), nam("A"), 0}, {idn(10), nam("A"), 0x409}, {idn(10), idn(3), 0}, {nam("T"), idn(3), 0},
	}
	const nops = 11
	length := 5
	total := 1
	for i := 0; i < length; i++ {
		total *= nops
	}
	per := total / 64
	lo := c.Index * per
	hi := lo + per
	if c.Index == 63 {
		hi = total
	}
	for seq := lo; seq < hi; seq++ {
		rs := &winres.ResourceSet{}
		m := model{}
		s := seq
		var ops [8]int
		for i := 0; i < length; i++ {
			ops[i] = s % nops
			s /= nops
		}
		for i := 0; i < length; i++ {
			op := ops[i]
			switch {
			case op < 4:
				d := []byte{byte(i), byte(op)}
				k := keys[op]
				rs.Set(k.typ.wr(), k.res.wr(), k.lang, d)
				m[k] = d
			case op < 8:
				k := keys[op-4]
				rs.Set(k.typ.wr(), k.res.wr(), k.lang, nil)
				delete(m, k)
			case op == 8:
				rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool { return true })
			case op == 9:
				rs.WalkType(winres.ID(10), func(winres.Identifier, uint16, []byte) bool { return true })
			case op == 10:
				rs.Count()
			}
		}
		if s := checkSet(rs, m); s != "" {
			c.Failf("state", "operations %v: %s", ops[:length], s)
		}
	}
	c.Event("exhaustive short histories", hi-lo)
	c.Nontrivial("exhaustive", c.Index)
}

// constants checks that the names the package gives to types, languages and architectures have the values that
// Windows defines: resources stored under them must be found by their numbers.
func constants(c *Ctx) {
	types := []struct {
		name string
		got  winres.ID
		want uint16
	}{
		{"RT_CURSOR", winres.RT_CURSOR, 1}, {"RT_BITMAP", winres.RT_BITMAP, 2}, {"RT_ICON", winres.RT_ICON, 3}, {"RT_MENU", winres.RT_MENU, 4},
		{"RT_DIALOG", winres.RT_DIALOG, 5}, {"RT_STRING", winres.RT_STRING, 6}, {"RT_FONTDIR", winres.RT_FONTDIR, 7}, {"RT_FONT", winres.RT_FONT, 8},
		{"RT_ACCELERATOR", winres.RT_ACCELERATOR, 9}, {"RT_RCDATA", winres.RT_RCDATA, 10}, {"RT_MESSAGETABLE", winres.RT_MESSAGETABLE, 11},
		{"RT_GROUP_CURSOR", winres.RT_GROUP_CURSOR, 12}, {"RT_GROUP_ICON", winres.RT_GROUP_ICON, 14}, {"RT_VERSION", winres.RT_VERSION, 16},
		{"RT_PLUGPLAY", winres.RT_PLUGPLAY, 19}, {"RT_VXD", winres.RT_VXD, 20}, {"RT_ANICURSOR", winres.RT_ANICURSOR, 21},
		{"RT_ANIICON", winres.RT_ANIICON, 22}, {"RT_HTML", winres.RT_HTML, 23}, {"RT_MANIFEST", winres.RT_MANIFEST, 24},
	}
	rs := &winres.ResourceSet{}
	want := model{}
	for i, t := range types {
		d := []byte(t.name)
		if err := rs.Set(t.got, winres.ID(i+1), winres.LCIDDefault, d); err != nil {
			c.Failf("constant", "%s is refused as a type: %v", t.name, err)
		}
		want[rkey{idn(t.want), idn(uint16(i + 1)), 0x409}] = d
		if err := rs.Set(t.got, winres.ID(i+1), winres.LCIDNeutral, d); err != nil {
			c.Failf("constant", "%s is refused as a type: %v", t.name, err)
		}
		want[rkey{idn(t.want), idn(uint16(i + 1)), 0}] = d
		c.Event("constants compared", 1)
	}
	if s := checkSet(rs, want); s != "" {
		c.Failf("constant", "resources stored under the named types and languages: %s", s)
	}
	if winres.ArchI386 != "386" || winres.ArchAMD64 != "amd64" || winres.ArchARM != "arm" || winres.ArchARM64 != "arm64" {
		c.Failf("constant", "architectures are not GOARCH values")
	}
}

// bigSet keeps more resources than 16 bits count, in types, resources and languages of every proportion, and deletes
// a part of them.
func bigSet(c *Ctx) {
	rng := c.Rng
	shape := [][3]int{{1, 65535, 2}, {300, 220, 1}, {2, 2, 16500}, {40, 41, 42}, {65535, 1, 1}, {1, 3, 65536}}[c.Index%6]
	rs := &winres.ResourceSet{}
	m := model{}
	off := rng.Intn(65536)
	for t := 0; t < shape[0]; t++ {
		for r := 0; r < shape[1]; r++ {
			for l := 0; l < shape[2]; l++ {
				k := rkey{idn(uint16(1 + t)), idn(uint16(1 + r)), uint16(l + off)}
				d := []byte{byte(t), byte(r), byte(r >> 8), byte(l), byte(l >> 8)}
				if err := rs.Set(k.typ.wr(), k.res.wr(), k.lang, d); err != nil {
					c.Failf("valid-refused", "Set(%s) refused: %v", k, err)
				}
				m[k] = d
			}
		}
	}
	if s := checkSet(rs, m); s != "" {
		c.Failf("big-set", "set of %v types, resources and languages: %s", shape, s)
	}
	keys := m.sorted()
	for i := 0; i < len(keys); i += 1 + rng.Intn(40) {
		k := keys[i].rkey
		if err := rs.Set(k.typ.wr(), k.res.wr(), k.lang, nil); err != nil {
			c.Failf("delete-refused", "deleting %s is refused: %v", k, err)
		}
		delete(m, k)
	}
	if s := checkSet(rs, m); s != "" {
		c.Failf("big-set", "set of %v types, resources and languages after deletions: %s", shape, s)
	}
	c.Event("states compared", 2)
	c.Event("resources of big sets", len(keys))
	c.Nontrivial("bigset", c.Index, off)
}

func identifierLimits(c *Ctx) {
	rs := &winres.ResourceSet{}
	m := model{}
	add := func(k rkey) {
		d := []byte(k.String()[:1])
		if err := rs.Set(k.typ.wr(), k.res.wr(), k.lang, d); err != nil {
			c.Failf("valid-refused", "Set(%s) refused: %v", k, err)
		}
		m[k] = d
		c.Event("valid identifiers at the limits", 1)
	}
	for _, n := range []int{1, 255, 256, 32767, 32768, 65534, 65535} {
		add(rkey{nam(strings.Repeat("A", n)), idn(1), 0})
		add(rkey{idn(1), nam(strings.Repeat("é", n)), 0xFFFF})
		if n%2 == 0 {
			add(rkey{idn(1), nam(strings.Repeat("\U0001F600", n/2)), 0xFFFF})
		} else {
			add(rkey{idn(1), nam("B" + strings.Repeat("\U0001F600", n/2)), 0xFFFF})
		}
	}
	add(rkey{idn(0xFFFF), idn(0xFFFF), 0xFFFF})
	add(rkey{idn(1), idn(1), 0})
	add(rkey{nam("\uFFFD"), nam("\uFFFD"), 0}) // a legitimate replacement character
	for _, b := range append(invalidIdents(), longInvalidIdents()...) {
		for _, d := range [][]byte{{1}, {}, nil} {
			if rs.Set(b, winres.ID(1), 0, d) == nil {
				c.Failf("invalid-accepted", "Set accepts type %.40q (%d bytes)", b, len(fmt.Sprint(b)))
			}
			if rs.Set(winres.ID(1), b, 0, d) == nil {
				c.Failf("invalid-accepted", "Set accepts name %.40q (%d bytes)", b, len(fmt.Sprint(b)))
			}
			c.Event("invalid identifiers refused", 2)
		}
		if s := checkSet(rs, m); s != "" {
			c.Failf("invalid-changed", "after refusing %.40q: %s", b, s)
		}
	}
	// every rune at the borders of what UTF-16 can hold
	for _, r := range []rune{1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF} {
		add(rkey{nam(string(r)), nam("x" + string(r) + "y"), 0})
	}
	if s := checkSet(rs, m); s != "" {
		c.Failf("state", "%s", s)
	}
	c.Nontrivial("limits", c.Index)
}

// sameOutputCase compares two sets holding the same resources, with different histories.
func sameOutputCase(c *Ctx) {
	h := newHistory(c)
	if c.Index%25 == 13 {
		for i, n := 0, 40+c.Rng.Intn(300); i < n; i++ {
			k := rkey{h.types[c.Rng.Intn(len(h.types))], nam(fmt.Sprintf("%d-%x", i%7, c.Rng.Uint32())), h.langs[c.Rng.Intn(len(h.langs))]}
			if c.Rng.Intn(20) == 0 {
				k.typ = nam(fmt.Sprintf("T%d", c.Rng.Intn(100)))
			}
			h.set(k, genData(c.Rng, 16))
		}
		c.Event("histories with many names", 1)
	}
	h.steps(5 + c.Rng.Intn(120))
	direct := h.m.build(c, c.Rng)
	checkSame(c, h, direct)
	// continue the history with both, and compare again
	for i := 0; i < 3; i++ {
		before := h.m.clone()
		h.steps(1 + c.Rng.Intn(20))
		for k := range before {
			if _, ok := h.m[k]; !ok {
				direct.Set(k.typ.wr(), k.res.wr(), k.lang, nil)
			}
		}
		for k, v := range h.m {
			direct.Set(k.typ.wr(), k.res.wr(), k.lang, dirty(c.Rng, v))
		}
		checkSame(c, h, direct)
	}
	c.Nontrivial(h.log.String())
	c.Sample("%s", clip(h.log.String(), 400))
}

func checkSame(c *Ctx, h *history, direct *winres.ResourceSet) {
	a, b := walkEntries(h.rs), walkEntries(direct)
	if len(a) != len(b) {
		h.fail("walk-differs", "walks give %d and %d resources", len(a), len(b))
	}
	for i := range a {
		if a[i].rkey != b[i].rkey || !bytes.Equal(a[i].data, b[i].data) {
			h.fail("walk-differs", "walks differ at %d: %s and %s", i, a[i].rkey, b[i].rkey)
		}
	}
	for _, arch := range archs {
		x, y := writeObj(c, h.rs, arch), writeObj(c, direct, arch)
		if !bytes.Equal(x, y) {
			h.fail("object-differs", "objects for %s differ: %d and %d bytes, first difference at %d", arch, len(x), len(y), firstDiff(x, y))
		}
		if z := writeObj(c, h.rs, arch); !bytes.Equal(x, z) {
			h.fail("rewrite-differs", "writing twice for %s differs at %d", arch, firstDiff(x, z))
		}
		c.Event("object pairs compared", 2)
	}
	checkObject(c, writeObj(c, direct, "amd64"), "amd64", h.m, 0x1000)
	// Patched executables
	spec := genPE(c.Rng, peProfile{})
	src := spec.build()
	opts := spec.options(c.Rng)
	x, errx := patch(h.rs, src, opts)
	y, erry := patch(direct, src, opts)
	if (errx == nil) != (erry == nil) || !bytes.Equal(x, y) {
		h.fail("exe-differs", "patched executables differ: %d bytes, %v and %d bytes, %v; first difference at %d", len(x), errx, len(y), erry, firstDiff(x, y))
	}
	z, errz := patch(h.rs, src, opts)
	if (errx == nil) != (errz == nil) || !bytes.Equal(x, z) {
		h.fail("exe-rewrite-differs", "patching twice differs at %d", firstDiff(x, z))
	}
	if errx == nil {
		c.Event("executable pairs compared", 2)
	}
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "resource sets drawn from 20 profiles (identifiers, languages, names and sizes at the limits of their encodings), written for each architecture, linked at several addresses and decoded by an independent reader; non-trivial: holds at least one resource, distinct by content summary",
		Min:  map[string]int64{"objects decoded": 1000, "resources compared": 20000, "16-bit values swept": 60000, "sets at the limits held": 3, "sets beyond the limits refused": 3, "named resources": 1000},
		Families: []Family{
			{"random", 700, 20000, objectsCase},
			{"history", 150, 3000, objectsAfterHistory},
			{"sweep", 96, 96, objectsSweep},
			{"sizes", 64, 256, objectsSizes},
			{"names", 80, 600, objectsNames},
			{"limits", len(megaSpecs()), len(megaSpecs()), objectsMega},
			{"huge", 8, 40, hugeObjects},
		},
	})
	register(&Prop{
		ID:   "C03",
		Rule: "objects and executables written for random sets, decoded by a strict directory reader that checks order, regions, alignment and levels and searches every resource as Windows does; non-trivial: distinct set",
		Min:  map[string]int64{"objects decoded": 800, "executables decoded": 100, "binary searches": 20000, "names compared": 5000},
		Families: []Family{
			{"random", 400, 10000, objectsCase},
			{"history", 150, 3000, objectsAfterHistory},
			{"names", 120, 600, objectsNames},
			{"sweep", 12, 96, objectsSweep},
			{"exe", 150, 3000, exeDirCase},
			{"limits", 4, len(megaSpecs()), objectsMega},
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "random histories of additions, replacements, deletions, walks, lookups, refused calls, writes and failed writes, compared with a set built directly: walks, objects for 4 architectures and patched executables; non-trivial: distinct history",
		Min:  map[string]int64{"object pairs compared": 3000, "executable pairs compared": 300, "op delete live": 500, "op walk": 500, "op write": 200, "op failed write": 100},
		Families: []Family{
			{"histories", 250, 6000, sameOutputCase},
			{"icons", 60, 1500, sameOutputIcons},
		},
	})
	register(&Prop{
		ID:   "C05",
		Rule: "random and exhaustive short histories against a map model, every answer and the whole state compared; identifiers at and beyond every limit; non-trivial: distinct history",
		Min:  map[string]int64{"operations": 50000, "states compared": 3000, "op delete live": 2000, "exhaustive short histories": 100000, "op invalid identifier": 500, "invalid identifiers refused": 50, "constants compared": 20, "op walk stopped early": 500, "resources of big sets": 250000},
		Families: []Family{
			{"histories", 800, 20000, historyCase},
			{"exhaustive", 64, 64, exhaustiveHistories},
			{"identifiers", 1, 1, identifierLimits},
			{"constants", 1, 1, constants},
			{"bigset", 4, 24, bigSet},
		},
	})
}
