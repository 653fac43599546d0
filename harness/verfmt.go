package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// An independent view of version information, with a reader and a writer of VS_VERSIONINFO blocks.

type verModel struct {
	fv, pv [4]uint16
	flags  [5]bool // debug, prerelease, patched, private, special
	typ    int     // 0 app, 1 DLL, 2 other
	ts     uint64  // in 100 ns since 1601, 0 if none
	time   time.Time
	tab    map[uint16]map[string]string
}

var flagBits = [5]uint32{1, 2, 4, 8, 0x20}

func (v *verModel) describe() string {
	n := 0
	for _, t := range v.tab {
		n += len(t)
	}
	return fmt.Sprintf("file %v product %v flags %v type %d time %d, %d languages %d strings", v.fv, v.pv, v.flags, v.typ, v.ts, len(v.tab), n)
}

func (v *verModel) langs() []uint16 {
	var l []uint16
	for k := range v.tab {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (v *verModel) clone() *verModel {
	n := *v
	n.tab = map[uint16]map[string]string{}
	for l, t := range v.tab {
		n.tab[l] = map[string]string{}
		for k, s := range t {
			n.tab[l][k] = s
		}
	}
	return &n
}

// info makes the library's structure, in random order.
func (v *verModel) info(c *Ctx, rng *rand.Rand) *version.Info {
	vi := &version.Info{}
	var empty []string
	for _, l := range v.langs() {
		if len(v.tab[l]) == 0 {
			empty = append(empty, fmt.Sprintf(`"%04X":{}`, l))
		}
	}
	if empty != nil { // only JSON makes them
		if err := vi.UnmarshalJSON([]byte(`{"info":{` + strings.Join(empty, ",") + `}}`)); err != nil {
			c.Failf("json-empty", "languages without strings: %v", err)
		}
	}
	if rng.Intn(3) == 0 {
		v.past(c, rng, vi)
	}
	vi.FileVersion, vi.ProductVersion, vi.Timestamp = v.fv, v.pv, v.time
	vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild = v.flags[0], v.flags[1], v.flags[2], v.flags[3], v.flags[4]
	switch v.typ {
	case 0:
		vi.Type = version.App
	case 1:
		vi.Type = version.DLL
	default:
		vi.Type = version.Unknown
	}
	type kv struct {
		l    uint16
		k, s string
	}
	var l []kv
	for lang, t := range v.tab {
		for k, s := range t {
			l = append(l, kv{lang, k, s})
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].l != l[j].l {
			return l[i].l < l[j].l
		}
		return l[i].k < l[j].k
	})
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	for _, e := range l {
		if err := vi.Set(e.l, e.k, e.s); err != nil {
			c.Failf("set", "Set(%#x, %q, %q): %v", e.l, e.k, e.s, err)
		}
	}
	return vi
}

// past gives the structure another content, that can still become that of v, and uses it.
func (v *verModel) past(c *Ctx, rng *rand.Rand, vi *version.Info) {
	set := func(all bool) {
		for _, l := range v.langs() {
			var keys []string
			for k := range v.tab[l] {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				s := v.tab[l][k]
				if rng.Intn(3) == 0 {
					s = fmt.Sprint("past ", rng.Intn(10))
				}
				if all || rng.Intn(2) == 0 {
					if err := vi.Set(l, k, s); err != nil {
						c.Failf("set", "Set(%#x, %q, %q): %v", l, k, s, err)
					}
				}
			}
		}
	}
	set(rng.Intn(2) == 0)
	for i, n := 0, 1+rng.Intn(5); i < n; i++ {
		switch rng.Intn(9) {
		case 0:
			vi.FileVersion[rng.Intn(4)] = uint16(rng.Intn(0x10000))
		case 1:
			vi.Flags.Debug, vi.Flags.Patched = rng.Intn(2) == 0, rng.Intn(2) == 0
			vi.Type = version.DLL
			vi.Timestamp = time.Unix(1600000000, 0)
		case 2:
			vi.Bytes()
		case 3:
			for _, x := range vi.SplitTranslations() {
				x.Set(7, "past", "x")
			}
		case 4:
			vi.MarshalJSON()
		case 5:
			vi.Table().GetMainTranslation()
		case 6:
			version.MergeTranslations(map[uint16]*version.Info{7: vi, 0: vi}).Set(7, "past", "x")
		case 7:
			(&winres.ResourceSet{}).SetVersionInfo(*vi)
		case 8:
			set(true)
		}
	}
	c.Event("structures with a past", 1)
}

func infoFixed(vi *version.Info) *verModel {
	v := &verModel{fv: vi.FileVersion, pv: vi.ProductVersion, time: vi.Timestamp}
	v.flags = [5]bool{vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild}
	switch vi.Type {
	case version.App:
		v.typ = 0
	case version.DLL:
		v.typ = 1
	default:
		v.typ = 2
	}
	return v
}

// diffInfo compares what the library gives with what is expected. Times may differ by less than tol.
func diffInfo(vi *version.Info, want *verModel, tol time.Duration, fixed bool) string {
	got := infoFixed(vi)
	if fixed {
		if s := diffFixed(got, want, tol); s != "" {
			return s
		}
	}
	tab := map[uint16]map[string]string{}
	for l, st := range vi.Table() {
		if st == nil {
			return fmt.Sprintf("language %#x has a nil table", l)
		}
		tab[l] = map[string]string(*st)
	}
	return diffTables(tab, want.tab)
}

func diffFixed(got, want *verModel, tol time.Duration) string {
	switch {
	case got.fv != want.fv:
		return fmt.Sprintf("file version is %v, want %v", got.fv, want.fv)
	case got.pv != want.pv:
		return fmt.Sprintf("product version is %v, want %v", got.pv, want.pv)
	case got.flags != want.flags:
		return fmt.Sprintf("flags are %v, want %v", got.flags, want.flags)
	case got.typ != want.typ:
		return fmt.Sprintf("type is %d, want %d", got.typ, want.typ)
	case got.time.IsZero() != want.time.IsZero():
		return fmt.Sprintf("time is %v, want %v", got.time, want.time)
	}
	d := got.time.Sub(want.time)
	if tol == 0 && !got.time.Equal(want.time) || d >= tol && d > 0 || d <= -tol && d < 0 {
		return fmt.Sprintf("time is %v, want %v", got.time, want.time)
	}
	return ""
}

func diffTables(got, want map[uint16]map[string]string) string {
	for l, t := range want {
		g, ok := got[l]
		if !ok {
			return fmt.Sprintf("language %#x is missing", l)
		}
		for k, s := range t {
			if x, ok := g[k]; !ok || x != s {
				return fmt.Sprintf("language %#x: %q is %q (present=%v), want %q", l, k, x, ok, s)
			}
		}
		if len(g) != len(t) {
			for k, s := range g {
				if _, ok := t[k]; !ok {
					return fmt.Sprintf("language %#x: unexpected %q=%q", l, k, s)
				}
			}
		}
	}
	for l := range got {
		if _, ok := want[l]; !ok {
			return fmt.Sprintf("unexpected language %#x", l)
		}
	}
	return ""
}

// ---------------------------------------------------------------- generators

var stdKeys = []string{"Comments", "CompanyName", "FileDescription", "FileVersion", "InternalName", "LegalCopyright", "LegalTrademarks", "OriginalFilename", "PrivateBuild", "ProductName", "ProductVersion", "SpecialBuild"}

func genKey(rng *rand.Rand) string {
	if rng.Intn(150) == 0 {
		return genLong(rng, []int{31, 64, 80, 128, 256, 260, 512, 1000, 1024}[rng.Intn(9)])
	}
	switch rng.Intn(5) {
	case 0:
		return genText(rng, 12, true)
	case 1:
		return []string{"a", "ab", "abc", "abcd", "Translation", "VarFileInfo", "StringFileInfo", "VS_VERSION_INFO", "040904B0", "productname", "\U0001F600", "\uFFFF"}[rng.Intn(12)]
	}
	return stdKeys[rng.Intn(len(stdKeys))]
}

// genText gives any text without NUL.
func genText(rng *rand.Rand, max int, nonEmpty bool) string {
	n := rng.Intn(max + 1)
	if n == 0 && nonEmpty {
		n = 1
	}
	if rng.Intn(3) == 0 {
		const abc = "abcdefghijklmnopqrstuvwxyz ABCDEFGH 0123456789.-"
		b := make([]byte, n)
		for i := range b {
			b[i] = abc[rng.Intn(len(abc))]
		}
		return string(b)
	}
	r := make([]rune, n)
	for i := range r {
		r[i] = genRune(rng)
	}
	return string(r)
}

// genLong gives text of about n characters.
func genLong(rng *rand.Rand, n int) string {
	if n += rng.Intn(7) - 3; rng.Intn(3) == 0 {
		n = 1 + rng.Intn(n)
	}
	s := genText(rng, 5, true)
	if rng.Intn(2) == 0 {
		s = genText(rng, 100, true)
	}
	r := []rune(strings.Repeat(s, n/len([]rune(s))+1))[:n]
	if rng.Intn(2) == 0 {
		r[n-1] = genRune(rng) // an end that is not like the rest
	}
	return string(r)
}

func genValue(rng *rand.Rand) string {
	if rng.Intn(150) == 0 {
		return genLong(rng, []int{256, 260, 512, 1024, 2048, 4096, 8192, 10000, 16384, 20000, 30000}[rng.Intn(11)])
	}
	switch rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"1.2.3.4", " ", "x", "\u00A9 2020", "a\nb\r\n", "\t", "\"<&>'", "0", "\U0010FFFF"}[rng.Intn(9)]
	case 2:
		return genText(rng, 200, false)
	}
	return genText(rng, 20, false)
}

const (
	versionAny = iota
	versionSmall
	versionBig
)

// genTime gives a time FILETIME can hold, with its value.
func genTime(rng *rand.Rand) (time.Time, uint64) {
	const epoch = 116444736000000000
	var ts uint64
	switch rng.Intn(9) {
	case 6: // any magnitude
		ts = (rng.Uint64()|1<<63)>>uint(rng.Intn(64))&(1<<63-1) | 1
	case 7: // any magnitude of the halves
		ts = uint64(rng.Uint32())>>uint(rng.Intn(33))<<32 | uint64(rng.Uint32())>>uint(rng.Intn(33))
		if ts &= 1<<63 - 1; ts == 0 {
			ts = 1
		}
	case 8: // around a power of two
		ts = uint64(1)<<uint(3+rng.Intn(60)) + uint64(rng.Intn(3)) - 1
	case 0:
		return time.Time{}, 0
	case 1:
		ts = epoch + uint64(rng.Int63n(60*365*86400))*10000000 // about now
	case 2:
		ts = 1 + uint64(rng.Int63n(1<<62)) // until the year 16214
	case 3:
		ts = []uint64{1, 2, 9999999, 10000000, epoch - 1, epoch, epoch + 1, epoch - 10000000, 1 << 32, 1<<32 - 1, 1 << 33, 1<<57 + 1, 0x7FFFFFFFFFFFFFFF, 1 << 62, 1 << 63, 1<<63 + uint64(rng.Int63n(1<<63-1e7)), 18446744073700000000 - 1}[rng.Intn(17)]
	case 4:
		ts = uint64(rng.Int63n(epoch)) + 1 // before 1970
	default:
		ts = epoch + uint64(rng.Int63n(1<<57))
	}
	t := time.Unix(int64(ts/10000000)-11644473600, int64(ts%10000000)*100)
	switch rng.Intn(4) {
	case 0:
		t = t.UTC()
	case 1:
		t = t.In(time.FixedZone("", (rng.Intn(27*60)-13*60)*60))
	}
	if rng.Intn(3) == 0 {
		t = t.Add(time.Duration(rng.Intn(100)))
	}
	return t, ts
}

func genFixed(rng *rand.Rand) *verModel {
	v := &verModel{tab: map[uint16]map[string]string{}}
	u := func() uint16 {
		return []uint16{0, 0, 1, 2, 255, 256, 0x7FFF, 0x8000, 0xFFFF, uint16(rng.Intn(65536)), uint16(rng.Intn(65536))}[rng.Intn(11)]
	}
	for i := 0; i < 4; i++ {
		v.fv[i], v.pv[i] = u(), u()
	}
	if rng.Intn(6) == 0 {
		v.fv = [4]uint16{}
	}
	if rng.Intn(6) == 0 {
		v.pv = [4]uint16{}
	}
	if rng.Intn(3) > 0 {
		for i := range v.flags {
			v.flags[i] = rng.Intn(2) == 0
		}
	}
	v.typ = rng.Intn(3)
	v.time, v.ts = genTime(rng)
	return v
}

func genVerModel(rng *rand.Rand, profile int) *verModel {
	v := genFixed(rng)
	nl := []int{0, 1, 1, 1, 2, 3, 5}[rng.Intn(7)]
	if profile == versionAny && rng.Intn(30) == 0 {
		nl = []int{32, 40, 64, 65, 128, 250}[rng.Intn(6)]
	}
	for i := 0; i < nl; i++ {
		t := map[string]string{}
		n := 1 + rng.Intn(8)
		if rng.Intn(12) == 0 {
			n = 30
		}
		if profile == versionAny && nl < 6 && rng.Intn(60) == 0 {
			n = []int{64, 65, 128, 256, 400}[rng.Intn(5)]
			for j := 0; j < n; j++ {
				t[fmt.Sprint(genText(rng, 1, false), j)] = genText(rng, 4, false)
			}
			n = 0
		} else if nl > 40 && rng.Intn(4) > 0 {
			n = 1
		}
		for j := 0; j < n; j++ {
			t[genKey(rng)] = genValue(rng)
		}
		v.tab[genLang(rng)] = t
	}
	if profile == versionBig {
		l := genLang(rng)
		if v.tab[l] == nil {
			v.tab[l] = map[string]string{}
		}
		k := genKey(rng)
		v.tab[l][k] = ""
		room := 65534 - v.size()
		if room > 0 {
			n := room / 2
			if rng.Intn(2) == 0 {
				n -= rng.Intn(6)
			} else {
				n = rng.Intn(n + 1)
			}
			if n < 0 {
				n = 0
			}
			v.tab[l][k] = strings.Repeat("z", n)
		}
	}
	for v.size() > 65535 {
		if l := v.langs(); len(l) < 40 {
			delete(v.tab, l[rng.Intn(len(l))])
		} else {
			for _, l := range l[:len(l)/8] {
				delete(v.tab, l)
			}
		}
	}
	return v
}

func genVersion(c *Ctx, profile int) version.Info {
	return *genVerModel(c.Rng, profile).info(c, c.Rng)
}

// size is the size of the encoded block, as the sum of its parts.
func (v *verModel) size() int {
	al := func(n int) int { return (n + 3) &^ 3 }
	node := func(key string, value int) int { return al(6+2*len(utf16.Encode([]rune(key)))+2) + value }
	sfi := 0
	for _, t := range v.tab {
		st := 0
		for k, s := range t {
			st = al(st) + node(k, 2*len(utf16.Encode([]rune(s)))+2)
		}
		sfi = al(sfi) + node("00000000", st)
	}
	return node("VS_VERSION_INFO", 52+al(node("StringFileInfo", sfi))+node("VarFileInfo", node("Translation", 4*len(v.tab)))) + 8
}

// ---------------------------------------------------------------- strict reader

type verNode struct {
	off, len  int
	vlen, typ uint16
	key       string
	value     []byte
	kids      []verNode
}

type verReader struct{ b []byte }

// node reads the node at off, ending at most at end. nval gives the length of its value, in bytes.
func (r *verReader) node(off, end int, path string, nval func(key string, vlen, typ uint16) int) (verNode, error) {
	if off%4 != 0 {
		return verNode{}, fmt.Errorf("%s: node at %d is not aligned", path, off)
	}
	if off+6 > end {
		return verNode{}, fmt.Errorf("%s: no room for a header at %d", path, off)
	}
	n := verNode{off: off, len: int(le.Uint16(r.b[off:])), vlen: le.Uint16(r.b[off+2:]), typ: le.Uint16(r.b[off+4:])}
	if n.len < 8 || off+n.len > end {
		return n, fmt.Errorf("%s: node at %d is %d bytes long, %d are left", path, off, n.len, end-off)
	}
	end = off + n.len
	p := off + 6
	var u []uint16
	for {
		if p+2 > end {
			return n, fmt.Errorf("%s: key at %d has no end", path, off)
		}
		x := le.Uint16(r.b[p:])
		p += 2
		if x == 0 {
			break
		}
		u = append(u, x)
	}
	n.key = string(utf16.Decode(u))
	if bytes.ContainsRune([]byte(n.key), utf8.RuneError) && !hasFFFD(u) {
		return n, fmt.Errorf("%s: key is not UTF-16", path)
	}
	path += "/" + n.key
	if p == end {
		return n, nil
	}
	q, err := r.pad(p, end, path)
	if err != nil {
		return n, err
	}
	v := nval(n.key, n.vlen, n.typ)
	if q+v > end {
		return n, fmt.Errorf("%s: value of %d bytes at %d goes beyond the end of the node, %d", path, v, q, end)
	}
	n.value = r.b[q : q+v]
	p = q + v
	for p < end {
		q, err := r.pad(p, end, path)
		if err != nil {
			return n, err
		}
		if q >= end {
			if q > p && p+3 < q {
				return n, fmt.Errorf("%s: padding at the end", path)
			}
			break
		}
		k, err := r.node(q, end, path, nval)
		if err != nil {
			return n, err
		}
		n.kids = append(n.kids, k)
		p = q + k.len
	}
	return n, nil
}

func hasFFFD(u []uint16) bool {
	for _, x := range u {
		if x == 0xFFFD {
			return true
		}
	}
	return false
}

func (r *verReader) pad(p, end int, path string) (int, error) {
	for p%4 != 0 && p < end {
		if r.b[p] != 0 {
			return 0, fmt.Errorf("%s: padding at %d is not zero", path, p)
		}
		p++
	}
	return p, nil
}

// readVersion decodes a block strictly, as it should be written.
func readVersion(b []byte) (*verModel, error) {
	r := &verReader{b}
	root, err := r.node(0, len(b), "", func(key string, vlen, typ uint16) int {
		if typ == 1 {
			return 2 * int(vlen)
		}
		return int(vlen)
	})
	if err != nil {
		return nil, err
	}
	if root.key != "VS_VERSION_INFO" || root.typ != 0 || root.vlen != 52 || root.len != len(b) {
		return nil, fmt.Errorf("root is %q type %d, value of %d, %d of %d bytes", root.key, root.typ, root.vlen, root.len, len(b))
	}
	v := &verModel{tab: map[uint16]map[string]string{}}
	f := root.value
	w := func(i int) uint32 { return le.Uint32(f[4*i:]) }
	if w(0) != 0xFEEF04BD || w(1) != 0x10000 {
		return nil, fmt.Errorf("signature %#x, structure version %#x", w(0), w(1))
	}
	v.fv = [4]uint16{uint16(w(2) >> 16), uint16(w(2)), uint16(w(3) >> 16), uint16(w(3))}
	v.pv = [4]uint16{uint16(w(4) >> 16), uint16(w(4)), uint16(w(5) >> 16), uint16(w(5))}
	all := uint32(0)
	for i, bit := range flagBits {
		v.flags[i] = w(7)&bit != 0
		all |= bit
		if w(6)&bit == 0 {
			return nil, fmt.Errorf("flags mask %#x", w(6))
		}
	}
	if w(7)&^all != 0 {
		return nil, fmt.Errorf("flags %#x", w(7))
	}
	if w(8) != 0x40004 {
		return nil, fmt.Errorf("file OS %#x", w(8))
	}
	switch w(9) {
	case 1:
		v.typ = 0
	case 2:
		v.typ = 1
	case 0:
		v.typ = 2
	default:
		return nil, fmt.Errorf("file type %d", w(9))
	}
	if w(10) != 0 {
		return nil, fmt.Errorf("file subtype %d", w(10))
	}
	v.ts = uint64(w(11))<<32 | uint64(w(12))
	var trans []uint16
	seen := map[string]bool{}
	for _, k := range root.kids {
		if seen[k.key] || k.vlen != 0 || k.typ != 1 {
			return nil, fmt.Errorf("%q: repeated=%v, value of %d, type %d", k.key, seen[k.key], k.vlen, k.typ)
		}
		seen[k.key] = true
		switch k.key {
		case "StringFileInfo":
			for _, t := range k.kids {
				if len(t.key) != 8 || t.vlen != 0 || t.typ != 1 {
					return nil, fmt.Errorf("string table %q: value of %d, type %d", t.key, t.vlen, t.typ)
				}
				x, err := strconv.ParseUint(t.key, 16, 32)
				if err != nil || x&0xFFFF != 1200 {
					return nil, fmt.Errorf("string table %q", t.key)
				}
				lang := uint16(x >> 16)
				if v.tab[lang] != nil {
					return nil, fmt.Errorf("two tables for language %#x", lang)
				}
				v.tab[lang] = map[string]string{}
				for _, s := range t.kids {
					if s.typ != 1 || len(s.kids) > 0 {
						return nil, fmt.Errorf("string %q: type %d, %d children", s.key, s.typ, len(s.kids))
					}
					u := make([]uint16, len(s.value)/2)
					for i := range u {
						u[i] = le.Uint16(s.value[2*i:])
					}
					if len(u) == 0 || u[len(u)-1] != 0 {
						return nil, fmt.Errorf("string %q has no terminator", s.key)
					}
					u = u[:len(u)-1]
					for _, x := range u {
						if x == 0 {
							return nil, fmt.Errorf("string %q has several terminators", s.key)
						}
					}
					if _, ok := v.tab[lang][s.key]; ok || s.key == "" {
						return nil, fmt.Errorf("string %q repeated or without key", s.key)
					}
					v.tab[lang][s.key] = string(utf16.Decode(u))
				}
			}
		case "VarFileInfo":
			if len(k.kids) != 1 || k.kids[0].key != "Translation" || k.kids[0].typ != 0 || len(k.kids[0].kids) > 0 || len(k.kids[0].value)%4 != 0 {
				return nil, fmt.Errorf("VarFileInfo holds %+v", k.kids)
			}
			t := k.kids[0].value
			for i := 0; i < len(t); i += 4 {
				if le.Uint16(t[i+2:]) != 1200 {
					return nil, fmt.Errorf("translation code page %d", le.Uint16(t[i+2:]))
				}
				trans = append(trans, le.Uint16(t[i:]))
			}
		default:
			return nil, fmt.Errorf("unexpected block %q", k.key)
		}
	}
	if len(v.tab) > 0 || len(trans) > 0 {
		if len(trans) != len(v.tab) {
			return nil, fmt.Errorf("%d translations, %d tables", len(trans), len(v.tab))
		}
		seenT := map[uint16]bool{}
		for _, l := range trans {
			if v.tab[l] == nil || seenT[l] {
				return nil, fmt.Errorf("translation %#x has no table or is repeated", l)
			}
			seenT[l] = true
		}
	}
	return v, nil
}

// ---------------------------------------------------------------- writer of foreign blocks

type foreignVer struct {
	rng   *rand.Rand
	desc  []string
	noFix bool
	plain bool                  // no unknown blocks
	keyOf func(l uint16) string // overrides keys of languages
}

func (f *foreignVer) note(s string) { f.desc = append(f.desc, s) }

// wnode lays a node out at an aligned place. kids are nodes already laid out.
func (f *foreignVer) wnode(typ uint16, key string, vlen int, value []byte, kids [][]byte, endPad bool) []byte {
	b := make([]byte, 6)
	for _, x := range utf16.Encode([]rune(key)) {
		b = append(b, byte(x), byte(x>>8))
	}
	b = append(b, 0, 0)
	if len(value) > 0 || len(kids) > 0 || f.rng.Intn(3) > 0 {
		b = f.pad(b)
	}
	b = append(b, value...)
	for _, k := range kids {
		b = f.pad(b)
		b = append(b, k...)
	}
	if endPad {
		b = f.pad(b)
	}
	le.PutUint16(b, uint16(len(b)))
	le.PutUint16(b[2:], uint16(vlen))
	le.PutUint16(b[4:], typ)
	return b
}

// pad aligns; what padding holds does not matter.
func (f *foreignVer) pad(b []byte) []byte {
	for len(b)%4 != 0 {
		x := byte(0)
		if f.rng.Intn(6) == 0 {
			x = byte(f.rng.Intn(256))
		}
		b = append(b, x)
	}
	return b
}

// block encodes v as another tool might.
func (f *foreignVer) block(v *verModel) []byte {
	rng := f.rng
	var fixed []byte
	if !f.noFix {
		fixed = make([]byte, 52)
		w := func(i int, x uint32) { le.PutUint32(fixed[4*i:], x) }
		w(0, 0xFEEF04BD)
		w(1, 0x10000)
		w(2, uint32(v.fv[0])<<16|uint32(v.fv[1]))
		w(3, uint32(v.fv[2])<<16|uint32(v.fv[3]))
		w(4, uint32(v.pv[0])<<16|uint32(v.pv[1]))
		w(5, uint32(v.pv[2])<<16|uint32(v.pv[3]))
		fl := uint32(0)
		for i, b := range flagBits {
			if v.flags[i] {
				fl |= b
			}
		}
		w(6, []uint32{0x3F, 0x3F, 0x17 | fl, 0x2F | fl}[rng.Intn(4)])
		w(7, fl)
		w(8, []uint32{0x40004, 4, 0x40000, 0}[rng.Intn(4)])
		w(9, []uint32{1, 2, []uint32{0, 3, 4, 5, 7}[rng.Intn(5)]}[v.typ])
		w(10, uint32(rng.Intn(3)))
		w(11, uint32(v.ts>>32))
		w(12, uint32(v.ts))
	} else {
		f.note("no fixed part")
	}
	strType := uint16(1)
	var tables [][]byte
	for _, l := range v.langs() {
		var strs [][]byte
		t := v.tab[l]
		var keys []string
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			u := utf16.Encode([]rune(t[k]))
			term := 1
			switch rng.Intn(6) {
			case 0:
				term = 0
				f.note("no terminator")
			case 1:
				term = 2 + rng.Intn(3)
				f.note("repeated terminators")
			}
			for i := 0; i < term; i++ {
				u = append(u, 0)
			}
			var val []byte
			for _, x := range u {
				val = append(val, byte(x), byte(x>>8))
			}
			strs = append(strs, f.wnode(strType, k, len(u), val, nil, rng.Intn(4) == 0))
		}
		key := fmt.Sprintf("%04x%04x", l, 1200)
		switch rng.Intn(3) {
		case 0:
			key = strings.ToUpper(key)
		case 1:
			key = fmt.Sprintf("%04X%04x", l, 1200)
		}
		if f.keyOf != nil {
			key = f.keyOf(l)
		}
		tables = append(tables, f.wnode(uint16(rng.Intn(2)), key, 0, nil, strs, false))
	}
	rng.Shuffle(len(tables), func(i, j int) { tables[i], tables[j] = tables[j], tables[i] })
	var kids [][]byte
	if len(tables) > 0 || rng.Intn(2) == 0 {
		if len(tables) > 1 && rng.Intn(8) == 0 {
			f.note("two StringFileInfo")
			n := rng.Intn(len(tables) + 1)
			kids = append(kids, f.wnode(uint16(rng.Intn(2)), "StringFileInfo", 0, nil, tables[:n], false))
			tables = tables[n:]
		}
		kids = append(kids, f.wnode(uint16(rng.Intn(2)), "StringFileInfo", 0, nil, tables, false))
	}
	if rng.Intn(4) > 0 {
		var tr []byte
		for _, l := range v.langs() {
			tr = append(tr, byte(l), byte(l>>8), 0xB0, 4)
		}
		if rng.Intn(4) == 0 {
			tr = append(tr, 9, 4, 0xE4, 4)
		}
		var vars [][]byte
		vars = append(vars, f.wnode(0, "Translation", len(tr), tr, nil, false))
		if rng.Intn(4) == 0 {
			vars = append(vars, f.wnode(0, "Other", 6, []byte{1, 2, 3, 4, 5, 6}, nil, false))
		}
		kids = append(kids, f.wnode(uint16(rng.Intn(2)), "VarFileInfo", 0, nil, vars, false))
	} else {
		f.note("no translations")
	}
	for i, n := 0, rng.Intn(8)-5; i < n && !f.plain; i++ {
		f.note("unknown block")
		k := []string{"Unknown", "X", "stringfileinfo2", "040904B0", "ProductName"}[rng.Intn(5)]
		d := randBytes(rng, 2*rng.Intn(20))
		var sub [][]byte
		if rng.Intn(2) == 0 {
			sub = append(sub, f.wnode(1, "Sub", 2, []byte{65, 0, 0, 0}, nil, false))
		}
		kids = append(kids, f.wnode(0, k, len(d), d, sub, false))
	}
	rng.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	b := f.wnode(0, "VS_VERSION_INFO", len(fixed), fixed, kids, false)
	if rng.Intn(3) == 0 {
		f.note("trailing bytes")
		b = append(b, randBytes(rng, rng.Intn(40))...)
	}
	return b
}
