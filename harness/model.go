package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
)

// ident is the harness's own identifier: an ID, or a name held as UTF-16 units.
type ident struct {
	isName bool
	id     uint16
	name   string // UTF-16LE units packed in a string, so that idents are comparable
}

func idn(n uint16) ident { return ident{id: n} }

func nam(s string) ident { return ident{isName: true, name: packU16(utf16.Encode([]rune(s)))} }

func packU16(u []uint16) string {
	b := make([]byte, 2*len(u))
	for i, v := range u {
		b[2*i], b[2*i+1] = byte(v), byte(v>>8)
	}
	return string(b)
}

func unpackU16(s string) []uint16 {
	u := make([]uint16, len(s)/2)
	for i := range u {
		u[i] = uint16(s[2*i]) | uint16(s[2*i+1])<<8
	}
	return u
}

func (i ident) wr() winres.Identifier {
	if i.isName {
		return winres.Name(string(utf16.Decode(unpackU16(i.name))))
	}
	return winres.ID(i.id)
}

func fromWr(i winres.Identifier) ident {
	switch v := i.(type) {
	case winres.ID:
		return ident{id: uint16(v)}
	case winres.Name:
		return nam(string(v))
	}
	panic(fmt.Sprintf("harness: unexpected identifier %T", i))
}

func (i ident) String() string {
	if i.isName {
		s := fmt.Sprintf("%q", string(utf16.Decode(unpackU16(i.name))))
		if len(s) > 60 {
			s = fmt.Sprintf("%s...(%d units)", s[:40], len(i.name)/2)
		}
		return s
	}
	return fmt.Sprint(i.id)
}

// cmpU16 compares two packed UTF-16 strings unit by unit.
func cmpU16(a, b string) int {
	ua, ub := unpackU16(a), unpackU16(b)
	for i := 0; i < len(ua) && i < len(ub); i++ {
		if ua[i] != ub[i] {
			if ua[i] < ub[i] {
				return -1
			}
			return 1
		}
	}
	return len(ua) - len(ub)
}

// cmpIdent is the order of a resource directory: names first, by UTF-16 code unit, then IDs.
func cmpIdent(a, b ident) int {
	switch {
	case a.isName && b.isName:
		return cmpU16(a.name, b.name)
	case a.isName:
		return -1
	case b.isName:
		return 1
	}
	return int(a.id) - int(b.id)
}

type rkey struct {
	typ, res ident
	lang     uint16
}

func (k rkey) String() string { return fmt.Sprintf("%s/%s/%#x", k.typ, k.res, k.lang) }

func cmpKey(a, b rkey) int {
	if c := cmpIdent(a.typ, b.typ); c != 0 {
		return c
	}
	if c := cmpIdent(a.res, b.res); c != 0 {
		return c
	}
	return int(a.lang) - int(b.lang)
}

type rentry struct {
	rkey
	data []byte
}

// model is the reference resource set.
type model map[rkey][]byte

func (m model) clone() model {
	n := model{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m model) sorted() []rentry {
	l := make([]rentry, 0, len(m))
	for k, v := range m {
		l = append(l, rentry{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return cmpKey(l[i].rkey, l[j].rkey) < 0 })
	return l
}

func (m model) describe() string {
	l := m.sorted()
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d resources:", len(l))
	for i, e := range l {
		if i >= 6 {
			sb.WriteString(" ...")
			break
		}
		fmt.Fprintf(&sb, " %s[%d]", e.rkey, len(e.data))
	}
	return sb.String()
}

func (m model) totalSize() int {
	n := 0
	for _, v := range m {
		n += len(v)
	}
	return n
}

// build makes a ResourceSet by adding entries in a random order.
func (m model) build(c *Ctx, rng *rand.Rand) *winres.ResourceSet {
	rs := &winres.ResourceSet{}
	l := m.sorted()
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	set := func(k rkey, d []byte) {
		if err := rs.Set(k.typ.wr(), k.res.wr(), k.lang, d); err != nil {
			c.Failf("set-refused", "Set(%s) failed: %v", k, err)
		}
	}
	if len(l) > 0 && len(l) < 300 && rng.Intn(4) == 0 {
		// The set was something else before, and it was written.
		var extra []rkey
		for _, e := range l {
			switch rng.Intn(4) {
			case 0:
				set(e.rkey, make([]byte, rng.Intn(40)))
			case 1:
				if len(e.data) < 4096 {
					set(e.rkey, dirty(rng, e.data))
				}
			case 2:
				k := e.rkey
				switch rng.Intn(3) {
				case 0:
					k.lang ^= uint16(1 << uint(rng.Intn(16)))
				case 1:
					k.res = idn(uint16(1 + rng.Intn(0xFFFF)))
				default:
					k.res = nam("X" + string(rune('A'+rng.Intn(60))))
				}
				if _, ok := m[k]; !ok && k.typ != idn(1) && k.typ != idn(3) {
					set(k, make([]byte, rng.Intn(20)))
					extra = append(extra, k)
				}
			}
		}
		for i, n := 0, 1+rng.Intn(3); i < n; i++ {
			switch rng.Intn(5) {
			case 0:
				rs.Walk(func(typ, res winres.Identifier, lang uint16, d []byte) bool { return rng.Intn(10) != 0 })
			case 1:
				e := l[rng.Intn(len(l))]
				rs.Get(e.typ.wr(), e.res.wr(), e.lang)
				rs.WalkType(e.typ.wr(), func(res winres.Identifier, lang uint16, d []byte) bool { return true })
				rs.Count()
			case 2:
				// Refused, unless it succeeds
				rs.WriteToEXE(io.Discard, bytes.NewReader(genPE(rng, peProfile{keepSmall: true}).build()))
			default:
				if err := rs.WriteObject(io.Discard, "amd64"); err != nil {
					c.Failf("write-refused", "WriteObject: %v", err)
				}
			}
		}
		for _, k := range extra {
			if err := rs.Set(k.typ.wr(), k.res.wr(), k.lang, nil); err != nil {
				c.Failf("set-refused", "Set(%s, nil) failed: %v", k, err)
			}
		}
		c.Event("sets that were written before", 1)
	}
	for _, e := range l {
		if len(e.data) < 4096 {
			set(e.rkey, dirty(rng, e.data))
		} else {
			set(e.rkey, e.data)
		}
	}
	return rs
}

// dirty gives a copy of data, which may be followed by anything up to its capacity.
func dirty(rng *rand.Rand, data []byte) []byte {
	d := make([]byte, len(data)+rng.Intn(24))
	for i := copy(d, data); i < len(d); i++ {
		d[i] = byte(1 + rng.Intn(255))
	}
	return d[:len(data)]
}

// compareEntries compares what was found with what is expected; it returns "" if they agree.
func compareEntries(got []rentry, want model) string {
	seen := map[rkey]bool{}
	for _, e := range got {
		if seen[e.rkey] {
			return fmt.Sprintf("%s found twice", e.rkey)
		}
		seen[e.rkey] = true
		w, ok := want[e.rkey]
		if !ok {
			return fmt.Sprintf("unexpected resource %s [%d bytes]", e.rkey, len(e.data))
		}
		if !bytes.Equal(w, e.data) {
			return fmt.Sprintf("%s: data differs (%d bytes, want %d; first difference at %d)", e.rkey, len(e.data), len(w), firstDiff(e.data, w))
		}
	}
	for k := range want {
		if !seen[k] {
			return fmt.Sprintf("%s missing (found %d resources, want %d)", k, len(got), len(want))
		}
	}
	return ""
}

func firstDiff(a, b []byte) int {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			return i
		}
	}
	if len(a) == len(b) {
		return -1
	}
	return n
}

// walkEntries reads a set through Walk.
func walkEntries(rs *winres.ResourceSet) []rentry {
	var l []rentry
	rs.Walk(func(t, r winres.Identifier, lang uint16, data []byte) bool {
		l = append(l, rentry{rkey{fromWr(t), fromWr(r), lang}, data})
		return true
	})
	return l
}

func entriesModel(l []rentry) model {
	m := model{}
	for _, e := range l {
		m[e.rkey] = e.data
	}
	return m
}

// checkSet compares a ResourceSet with the model through Walk, Count and Get.
func checkSet(rs *winres.ResourceSet, m model) string {
	if n := rs.Count(); n != len(m) {
		return fmt.Sprintf("Count is %d, want %d", n, len(m))
	}
	got := walkEntries(rs)
	if s := compareEntries(got, m); s != "" {
		return "Walk: " + s
	}
	for i := 1; i < len(got); i++ {
		if cmpKey(got[i-1].rkey, got[i].rkey) >= 0 {
			return fmt.Sprintf("Walk: %s before %s", got[i-1].rkey, got[i].rkey)
		}
	}
	for k, v := range m {
		d := rs.Get(k.typ.wr(), k.res.wr(), k.lang)
		if d == nil || !bytes.Equal(d, v) {
			return fmt.Sprintf("Get(%s) gave %d bytes (nil=%v), want %d", k, len(d), d == nil, len(v))
		}
	}
	return ""
}

// ---------------------------------------------------------------- generators

var edgeIDs = []uint16{1, 2, 3, 4, 5, 6, 10, 12, 14, 15, 16, 24, 127, 128, 255, 256, 257, 0x3FF, 0x400, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF}
var edgeLangs = []uint16{0, 1, 4, 0x400, 0x401, 0x404, 0x409, 0x40C, 0x40A, 0x7F, 0xFF, 0x100, 0x800, 0x809, 0x80C, 0xC00, 0x1000, 0x1409, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF}

var namePool = []string{
	"A", "B", "AA", "AB", "a", "b", "ICON", "ICONA", "ICON1", "Icon", "APPICON", "TYPELIB", "REGISTRY", "WEVT_TEMPLATE",
	"_", "-", "0", "1", "10", "2", "#1", " ", "  x ", "MUI", "é", "É", "ß", "Ω", "日本", "日本語", "\uFFFD", "\uFFFE", "\uE000", "\uF8FF", "\uFB01", "\uFF21", "\uFFFF",
	"\U00010000", "\U0001F600", "\U0010FFFF", "A\U0001F600", "A\uFF21", "A\uE000", "A\uD7FF", "\uD7FF", "\uD7FFz", "\x01", "\x7f", "\u0080", "\u00ff", "\u0100", "A\tB", "A/B", "AA\u0100",
}

func genName(rng *rand.Rand) string {
	switch rng.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		return namePool[rng.Intn(len(namePool))]
	case 6: // prefix relations
		return namePool[rng.Intn(len(namePool))] + namePool[rng.Intn(len(namePool))]
	case 7:
		n := []int{1, 2, 3, 7, 8, 15, 16, 31, 127, 128, 255, 256, 257, 300, 1000}[rng.Intn(15)]
		if rng.Intn(12) == 0 {
			n = []int{511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048, 2049}[rng.Intn(10)]
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[rng.Intn(37)]
		}
		return string(b)
	case 8:
		return fmt.Sprintf("N%d", rng.Intn(30))
	default:
		n := 1 + rng.Intn(6)
		r := make([]rune, n)
		for i := range r {
			r[i] = genRune(rng)
		}
		return string(r)
	}
}

// genRune gives any rune UTF-16 can hold, except NUL.
func genRune(rng *rand.Rand) rune {
	switch rng.Intn(8) {
	case 0, 1, 2:
		return rune(0x20 + rng.Intn(0x5F))
	case 3:
		return rune(1 + rng.Intn(0xFF))
	case 4:
		return rune(0x100 + rng.Intn(0xD800-0x100))
	case 5:
		return rune(0xE000 + rng.Intn(0x2000))
	case 6:
		return rune(0x10000 + rng.Intn(0x100000))
	default:
		return []rune{0xD7FF, 0xE000, 0xFFFF, 0xFFFD, 0x10000, 0x10FFFF, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800}[rng.Intn(12)]
	}
}

func genID(rng *rand.Rand) uint16 {
	switch rng.Intn(4) {
	case 0:
		return edgeIDs[rng.Intn(len(edgeIDs))]
	case 1:
		return uint16(1 + rng.Intn(0xFFFF))
	default:
		return uint16(1 + rng.Intn(30))
	}
}

func genLang(rng *rand.Rand) uint16 {
	switch rng.Intn(5) {
	case 0:
		return uint16(rng.Intn(0x10000))
	case 1, 2:
		return []uint16{0, 0x409, 0x40C}[rng.Intn(3)]
	default:
		return edgeLangs[rng.Intn(len(edgeLangs))]
	}
}

func genIdent(rng *rand.Rand) ident {
	if rng.Intn(2) == 0 {
		return idn(genID(rng))
	}
	return nam(genName(rng))
}

func genType(rng *rand.Rand) ident {
	if rng.Intn(3) == 0 {
		return nam(genName(rng))
	}
	if rng.Intn(2) == 0 {
		return idn([]uint16{2, 4, 5, 6, 10, 16, 24, 23, 9}[rng.Intn(9)])
	}
	return idn(genID(rng))
}

var edgeSizes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097}

func genData(rng *rand.Rand, max int) []byte {
	var n int
	switch rng.Intn(4) {
	case 0:
		n = edgeSizes[rng.Intn(len(edgeSizes))]
	case 1:
		n = rng.Intn(300)
	default:
		n = rng.Intn(40)
	}
	if n > max {
		n = max
	}
	return randBytes(rng, n)
}

// randBytes returns n bytes in a slice with spare capacity, so that appending in place shows.
func randBytes(rng *rand.Rand, n int) []byte {
	b := make([]byte, n, n+16)
	switch rng.Intn(8) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xFF
		}
	default:
		rng.Read(b)
	}
	return b
}

// many is sometimes a great number.
func many(rng *rand.Rand) int {
	if rng.Intn(15) > 0 {
		return 0
	}
	return 1 << uint(9+rng.Intn(4)) >> uint(rng.Intn(2)) * (2 + rng.Intn(2)) / 2
}

// genModel generates a resource set. Profiles vary what is stressed.
func genModel(rng *rand.Rand) model {
	m := model{}
	switch p := rng.Intn(20); p {
	case 0:
		return m // empty
	case 1: // a single resource
		m[rkey{genType(rng), genIdent(rng), genLang(rng)}] = genData(rng, 1<<20)
	case 2: // many types
		for i, n := 0, 20+rng.Intn(60); i < n; i++ {
			m[rkey{genType(rng), genIdent(rng), genLang(rng)}] = genData(rng, 64)
		}
	case 3: // many names in one type, names shared between types and resources
		t := nam(genName(rng))
		if n := many(rng); n > 0 {
			for i := 0; i < n; i++ {
				m[rkey{t, nam(fmt.Sprint("R", rng.Intn(2*n))), genLang(rng)}] = genData(rng, 8)
			}
		}
		for i, n := 0, 20+rng.Intn(100); i < n; i++ {
			m[rkey{t, nam(genName(rng)), genLang(rng)}] = genData(rng, 40)
		}
		m[rkey{idn(10), t, 0}] = genData(rng, 40)
	case 4: // many languages
		t, r := genType(rng), genIdent(rng)
		for i, n := 0, 30+rng.Intn(200)+many(rng); i < n; i++ {
			m[rkey{t, r, uint16(rng.Intn(0x10000))}] = genData(rng, 30)
		}
	case 5: // many IDs
		t := genType(rng)
		for i, n := 0, 200+rng.Intn(400)+many(rng); i < n; i++ {
			m[rkey{t, idn(uint16(1 + rng.Intn(0xFFFF))), genLang(rng)}] = genData(rng, 20)
		}
	case 6: // big data
		for i, n := 0, 1+rng.Intn(4); i < n; i++ {
			m[rkey{genType(rng), genIdent(rng), genLang(rng)}] = randBytes(rng, 60000+rng.Intn(80000))
		}
		if rng.Intn(2) == 0 { // about a power of two
			m[rkey{genType(rng), genIdent(rng), genLang(rng)}] = randBytes(rng, 1<<uint(12+rng.Intn(8))+rng.Intn(7)-3)
		}
	case 7: // only names
		for i, n := 0, 1+rng.Intn(20); i < n; i++ {
			m[rkey{nam(genName(rng)), nam(genName(rng)), genLang(rng)}] = genData(rng, 400)
		}
	case 8: // only empty data
		for i, n := 0, 1+rng.Intn(10); i < n; i++ {
			m[rkey{genType(rng), genIdent(rng), genLang(rng)}] = []byte{}
		}
	default: // small mixed, few keys
		types := []ident{genType(rng), genType(rng), genType(rng)}
		ress := []ident{genIdent(rng), genIdent(rng), genIdent(rng), genIdent(rng)}
		for i, n := 0, 1+rng.Intn(16); i < n; i++ {
			m[rkey{types[rng.Intn(3)], ress[rng.Intn(4)], genLang(rng)}] = genData(rng, 1<<20)
		}
	}
	return m
}

// expectedSectionSize is the size of the section for a set, as a plain sum of its parts: it only serves to aim at
// boundaries, never as an oracle.
func expectedSectionSize(m model) int {
	types := map[ident]bool{}
	ress := map[[2]ident]bool{}
	names := map[string]bool{}
	data := 0
	for k, v := range m {
		types[k.typ] = true
		ress[[2]ident{k.typ, k.res}] = true
		if k.typ.isName {
			names[k.typ.name] = true
		}
		if k.res.isName {
			names[k.res.name] = true
		}
		data += (len(v) + 7) &^ 7
	}
	n := 16 + len(types)*24 + len(ress)*24 + len(m)*24
	s := 0
	for k := range names {
		s += 2 + len(k)
	}
	return n + (s+7)&^7 + data
}

// fitTo adds or resizes one resource so that the section's size lands near a multiple of align.
func fitTo(rng *rand.Rand, m model, align int) {
	delta := []int{-16, -8, -4, 0, 0, 0, 4, 8, 16}[rng.Intn(9)]
	k := rkey{idn(10), idn(0x7ABC), 0x409}
	m[k] = []byte{}
	sz := expectedSectionSize(m)
	target := (sz/align+1+rng.Intn(2))*align + delta
	if target < sz {
		target += align
	}
	m[k] = randBytes(rng, target-sz)
}

// longName adds a resource or a type with a name about as long as names can be.
func longName(rng *rand.Rand, m model) {
	n := []int{1 << 12, 1<<15 - 1, 1 << 15, 1<<15 + rng.Intn(1<<15-1), 1<<16 - 1}[rng.Intn(5)]
	s := []string{"N", "é", "\uFFFD", "\U00010000"}[rng.Intn(4)]
	if s == "\U00010000" {
		n /= 2
	}
	id := nam(strings.Repeat(s, n))
	k := rkey{genType(rng), id, genLang(rng)}
	if rng.Intn(3) == 0 {
		k = rkey{id, genIdent(rng), genLang(rng)}
	}
	m[k] = genData(rng, 100)
}

func genModelFit(rng *rand.Rand) model {
	m := genModel(rng)
	if rng.Intn(120) == 0 {
		longName(rng, m)
	}
	if rng.Intn(3) == 0 {
		fitTo(rng, m, []int{0x200, 0x1000, 0x10000}[rng.Intn(3)])
	}
	return m
}
