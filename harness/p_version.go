package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// C22 to C25: version information.

func versionCase(profile int) func(c *Ctx) {
	return func(c *Ctx) {
		v := genVerModel(c.Rng, profile)
		vi := v.info(c, c.Rng)
		b := vi.Bytes()
		checkVersionBytes(c, v, b, "Bytes")
		if b2 := vi.Bytes(); !bytes.Equal(b, b2) {
			c.Failf("deterministic", "encoding twice differs at %d (%s)", firstDiff(b, b2), v.describe())
		}
		if b2 := v.info(c, c.Rng).Bytes(); !bytes.Equal(b, b2) {
			c.Failf("deterministic", "encoding the same, set in another order, differs at %d (%s)", firstDiff(b, b2), v.describe())
		}
		vi2, err := version.FromBytes(b)
		if err != nil {
			c.Attach("block", b)
			c.Failf("frombytes", "%v (%s)", err, v.describe())
		}
		if s := diffInfo(vi2, v, 100, true); s != "" {
			c.Attach("block", b)
			c.Failf("frombytes", "%s (%s)", s, v.describe())
		}
		if b2 := vi2.Bytes(); !bytes.Equal(b, b2) {
			c.Failf("deterministic", "encoding what was decoded differs at %d (%s)", firstDiff(b, b2), v.describe())
		}
		// in a set: one block for each language
		c.Event("blocks decoded", 1)
		c.Event("bytes decoded", len(b))
		if len(b) > 60000 {
			c.Event("blocks near the limit", 1)
		}
		if v.ts != 0 && (v.time.Year() < 1678 || v.time.Year() > 2262) {
			c.Event("far timestamps", 1)
		}
		c.Nontrivial(b)
		c.Sample("%s -> %d bytes", v.describe(), len(b))
	}
}

func checkVersionBytes(c *Ctx, v *verModel, b []byte, what string) {
	got, err := readVersion(b)
	if err != nil {
		c.Attach("block", b)
		c.Failf("block", "%s: %v (%s)", what, err, v.describe())
	}
	if s := diffBlock(got, v); s != "" {
		c.Attach("block", b)
		c.Failf("content", "%s: %s (%s)", what, s, v.describe())
	}
	for _, t := range v.tab {
		c.Event("strings compared", len(t))
	}
}

// diffBlock compares what was read in a block with what is expected.
func diffBlock(got, v *verModel) string {
	got.time = v.time
	if s := diffFixed(got, v, 100); s != "" {
		return s
	}
	if got.ts != v.ts && got.ts != v.ts+1 {
		return fmt.Sprintf("timestamp is %d, want %d", got.ts, v.ts)
	}
	return diffTables(got.tab, v.tab)
}

func foreignVersionCase(c *Ctx) {
	v := genVerModel(c.Rng, versionSmall)
	if v.ts != 0 && c.Rng.Intn(10) == 0 {
		v.ts |= 1 << 63
		v.time = time.Unix(int64(v.ts/10000000)-11644473600, int64(v.ts%10000000)*100)
	}
	f := &foreignVer{rng: c.Rng}
	if c.Rng.Intn(10) == 0 {
		f.noFix = true
	}
	b := f.block(v)
	if len(b) > 65000 {
		return
	}
	want := v
	if f.noFix {
		want = &verModel{tab: v.tab}
	}
	c.Attach("block", b)
	desc := fmt.Sprintf("%s; %s", v.describe(), strings.Join(f.desc, ", "))
	vi, err := version.FromBytes(b)
	if err != nil {
		c.Failf("error", "%v (%s)", err, desc)
	}
	if s := diffInfo(vi, want, 100, !f.noFix); s != "" {
		c.Failf("content", "%s (%s)", s, desc)
	}
	// written again, it is still the same
	if got, err := readVersion(vi.Bytes()); err != nil {
		c.Failf("again", "%v (%s)", err, desc)
	} else if !f.noFix {
		if s := diffBlock(got, want); s != "" {
			c.Failf("again", "%s (%s)", s, desc)
		}
	}
	c.Event("foreign blocks read", 1)
	for _, d := range f.desc {
		c.Event("foreign: "+d, 1)
	}
	for _, t := range v.tab {
		c.Event("strings compared", len(t))
		for _, s := range t {
			if s == "" {
				c.Event("empty values", 1)
			}
		}
	}
	c.Nontrivial(b)
	c.Sample("%s", desc)
}

// unsupportedCase: blocks that are not supported give an error.
func unsupportedCase(c *Ctx) {
	rng := c.Rng
	v := genVerModel(rng, versionSmall)
	for len(v.tab) == 0 {
		v = genVerModel(rng, versionSmall)
	}
	kind := []string{"code page", "ansi", "signature", "truncated", "language key"}[c.Index%5]
	f := &foreignVer{rng: rng, plain: true}
	langs := v.langs()
	bad := langs[rng.Intn(len(langs))]
	f.keyOf = func(l uint16) string {
		if l == bad && kind == "code page" {
			return fmt.Sprintf("%04X", l) + []string{"04e4", "0000", "03a4", "fde9", "04b1"}[rng.Intn(5)]
		}
		if l == bad && kind == "language key" {
			return []string{"zzzz04b0", "english_", "----04b0", "04__04b0", "lang", "0409", "x"}[rng.Intn(7)]
		}
		return fmt.Sprintf("%04x04b0", l)
	}
	b := f.block(v)
	if len(b) > 60000 {
		return
	}
	n := int(le.Uint16(b))
	switch kind {
	case "ansi":
		// 16-bit Windows: no type, one byte characters
		b = make([]byte, 4, 120)
		b = append(b, "VS_VERSION_INFO\x00"...)
		fix := make([]byte, 52)
		le.PutUint32(fix, 0xFEEF04BD)
		le.PutUint32(fix[4:], 0x10000)
		b = append(b, fix...)
		sfi := append([]byte{0, 0, 0, 0}, "StringFileInfo\x00\x00"...)
		st := append([]byte{0, 0, 0, 0}, "040904E4\x00\x00\x00\x00"...)
		s := append([]byte{0, 0, 5, 0}, "ProductName\x00abcd\x00\x00\x00\x00"...)
		le.PutUint16(s, uint16(len(s)))
		st = append(st, s...)
		le.PutUint16(st, uint16(len(st)))
		sfi = append(sfi, st...)
		le.PutUint16(sfi, uint16(len(sfi)))
		b = append(b, sfi...)
		le.PutUint16(b, uint16(len(b)))
		le.PutUint16(b[2:], 52)
	case "signature":
		i := bytes.Index(b, []byte{0xBD, 4, 0xEF, 0xFE})
		b[i+rng.Intn(4)] ^= 1 + byte(rng.Intn(255))
	case "truncated":
		b = b[:rng.Intn(n)]
	}
	c.Attach("block", b)
	vi, err := version.FromBytes(b)
	if err == nil {
		c.Failf("unsupported:"+kind, "%s: no error, %s", kind, infoFixed(vi).describe())
	}
	if vi != nil {
		c.Failf("partial:"+kind, "%s: an error along with data", kind)
	}
	c.Event("unsupported: "+kind, 1)
	c.Nontrivial(b)
}

// ---------------------------------------------------------------- C24

func jsonVersionCase(c *Ctx) {
	rng := c.Rng
	v := genVerModel(rng, versionSmall)
	for v.time.Year() > 9999 {
		v.time, v.ts = genTime(rng)
	}
	sparse(rng, v)
	vi := v.info(c, rng)
	b, err := json.Marshal(vi)
	if err != nil {
		c.Failf("marshal", "%v (%s)", err, v.describe())
	}
	c.Attach("json", b)
	// a target that already holds something
	target := &version.Info{}
	if rng.Intn(2) == 0 {
		target = genVerModel(rng, versionSmall).info(c, rng)
		c.Event("targets with older content", 1)
	}
	if err := json.Unmarshal(b, target); err != nil {
		c.Failf("unmarshal", "%v (%s)\n%s", err, v.describe(), clip(string(b), 2000))
	}
	if s := diffInfo(target, v, 0, true); s != "" {
		c.Failf("content", "%s (%s)\n%s", s, v.describe(), clip(string(b), 2000))
	}
	b2, err := json.Marshal(target)
	if err != nil || !bytes.Equal(b, b2) {
		c.Failf("again", "encoding again differs: %v at %d", err, firstDiff(b, b2))
	}
	if !bytes.Equal(target.Bytes(), vi.Bytes()) {
		c.Failf("bytes", "the binary form of what was decoded differs (%s)", v.describe())
	}
	for _, t := range v.tab {
		c.Event("strings compared", len(t))
	}
	c.Event("JSON round trips", 1)
	c.Nontrivial(b)
	c.Sample("%s", clip(string(b), 400))
}

// sparse resets parts of the information, often all but one.
func sparse(rng *rand.Rand, v *verModel) {
	if rng.Intn(2) == 0 {
		return
	}
	keep := rng.Intn(7)
	none := &verModel{}
	none.time, none.ts = time.Time{}, 0
	all := rng.Intn(2) == 0
	drop := func(i int) bool { return i != keep && (all || rng.Intn(2) == 0) }
	if drop(0) {
		v.fv = none.fv
	}
	if drop(1) {
		v.pv = none.pv
	}
	if drop(2) {
		v.flags = none.flags
	}
	if drop(3) {
		v.typ = none.typ
	}
	if drop(4) {
		v.time, v.ts = none.time, none.ts
	}
	if drop(5) {
		v.tab = map[uint16]map[string]string{}
	}
}

var flagNames = []string{"Debug", "Prerelease", "Patched", "PrivateBuild", "SpecialBuild"}

func anyCase(rng *rand.Rand, s string) string {
	switch rng.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s
	}
	b := []byte(s)
	for i := range b {
		if rng.Intn(2) == 0 {
			b[i] = []byte(strings.ToUpper(string(b[i])))[0]
		} else {
			b[i] = []byte(strings.ToLower(string(b[i])))[0]
		}
	}
	return string(b)
}

// jsonForeignVersion: JSON written by hand.
func jsonForeignVersion(c *Ctx) {
	rng := c.Rng
	v := genVerModel(rng, versionSmall)
	for v.time.Year() > 9999 {
		v.time, v.ts = genTime(rng)
	}
	sparse(rng, v)
	type obj = map[string]interface{}
	fixed := obj{}
	ver := func(a [4]uint16) string { return fmt.Sprintf("%d.%d.%d.%d", a[0], a[1], a[2], a[3]) }
	if v.fv != [4]uint16{} || rng.Intn(2) == 0 {
		fixed["file_version"] = ver(v.fv)
	}
	if v.pv != [4]uint16{} || rng.Intn(2) == 0 {
		fixed["product_version"] = ver(v.pv)
	}
	var fl []string
	for i, on := range v.flags {
		if on {
			fl = append(fl, anyCase(rng, flagNames[i]))
		}
	}
	rng.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
	if len(fl) > 0 {
		fixed["flags"] = strings.Join(fl, []string{",", ", ", " "}[rng.Intn(3)])
	}
	switch v.typ {
	case 0:
		if rng.Intn(2) == 0 {
			fixed["type"] = anyCase(rng, "App")
		}
	case 1:
		fixed["type"] = anyCase(rng, "DLL")
	case 2:
		fixed["type"] = anyCase(rng, "Unknown")
	}
	if !v.time.IsZero() {
		fixed["timestamp"] = v.time.Format(time.RFC3339Nano)
	}
	info := obj{}
	for l, t := range v.tab {
		k := fmt.Sprintf([]string{"%04X", "%04x", "%X", "%x"}[rng.Intn(4)], l)
		info[k] = t
	}
	top := obj{}
	if len(fixed) > 0 {
		top["fixed"] = fixed
	}
	if len(info) > 0 || rng.Intn(2) == 0 {
		top["info"] = info
	}
	if rng.Intn(5) == 0 {
		top["unknown"] = []int{1, 2}
	}
	b, err := json.Marshal(top)
	if err != nil {
		panic("harness: " + err.Error())
	}
	c.Attach("json", b)
	vi := genVerModel(rng, versionSmall).info(c, rng)
	if err := json.Unmarshal(b, vi); err != nil {
		c.Failf("foreign", "%v\n%s", err, clip(string(b), 2000))
	}
	if s := diffInfo(vi, v, 0, true); s != "" {
		c.Failf("foreign", "%s\n%s", s, clip(string(b), 2000))
	}
	c.Event("hand-written JSON", 1)
	c.Event("flags in any order", len(fl))
	c.Nontrivial(b)
}

// jsonLanguages: every language number.
func jsonLanguages(c *Ctx) {
	lo := c.Index * 4096
	vi := &version.Info{}
	v := &verModel{tab: map[uint16]map[string]string{}}
	for l := lo; l < lo+4096; l++ {
		k := fmt.Sprint("k", l%7)
		vi.Set(uint16(l), k, fmt.Sprint(l))
		v.tab[uint16(l)] = map[string]string{k: fmt.Sprint(l)}
	}
	b, err := json.Marshal(vi)
	if err != nil {
		c.Failf("marshal", "%v", err)
	}
	var w version.Info
	if err := json.Unmarshal(b, &w); err != nil {
		c.Failf("unmarshal", "%v", err)
	}
	if s := diffInfo(&w, v, 0, true); s != "" {
		c.Failf("content", "%s", s)
	}
	c.Event("language numbers swept", 4096)
	c.Nontrivial("languages", c.Index)
}

// ---------------------------------------------------------------- C25

func splitModel(v *verModel) map[uint16]*verModel {
	def := map[string]string{}
	order := v.langs()
	var prio []uint16
	for _, l := range []uint16{0, 0x409} {
		if v.tab[l] != nil {
			prio = append(prio, l)
		}
	}
	for _, l := range append(prio, order...) {
		for k, s := range v.tab[l] {
			if _, ok := def[k]; !ok {
				def[k] = s
			}
		}
	}
	out := map[uint16]*verModel{}
	for l, t := range v.tab {
		n := *v
		n.tab = map[uint16]map[string]string{l: {}}
		for k, s := range def {
			n.tab[l][k] = s
		}
		for k, s := range t {
			n.tab[l][k] = s
		}
		if len(n.tab[l]) == 0 {
			n.tab = map[uint16]map[string]string{}
		}
		out[l] = &n
	}
	return out
}

// genTranslations has languages that share keys.
func genTranslations(rng *rand.Rand) *verModel {
	v := genFixed(rng)
	keys := []string{"ProductName", "FileVersion", "ProductVersion", "a", "b", genKey(rng)}
	if rng.Intn(4) == 0 { // only some of them differ
		keys = []string{"ProductName", "productname", "PRODUCTNAME", "productName", "a", "a "}
	}
	pool := []uint16{0, 0x409, 0x401, 0x40C, 0x407, 1, 0xFFFF, 0xFFFE, genLang(rng)}
	n := rng.Intn(6)
	switch rng.Intn(40) {
	case 0:
		n = 10 + rng.Intn(60)
		for i := 0; i < n; i++ {
			pool = append(pool, uint16(rng.Intn(0x10000)))
		}
	case 1, 2, 3:
		pool = append(pool, uint16(rng.Intn(0x10000)), uint16(rng.Intn(0x10000)), uint16(rng.Intn(0x500)))
	}
	for i := 0; i < n; i++ {
		t := map[string]string{}
		for j, m := 0, 1+rng.Intn(4); j < m; j++ {
			s := ""
			if rng.Intn(300) == 0 {
				s = genLong(rng, []int{63, 128, 256, 512, 1000}[rng.Intn(5)])
			} else if rng.Intn(4) > 0 {
				s = fmt.Sprintf("v%d %s", rng.Intn(1000), genText(rng, 3, false))
			}
			t[keys[rng.Intn(len(keys))]] = s
		}
		if rng.Intn(15) == 0 {
			t = map[string]string{}
		}
		v.tab[pool[rng.Intn(len(pool))]] = t
	}
	return v
}

func splitCase(c *Ctx) {
	rng := c.Rng
	v := genTranslations(rng)
	vi := v.info(c, rng)
	want := splitModel(v)
	got := vi.SplitTranslations()
	if len(got) != len(want) {
		c.Failf("split", "%d blocks, want %d (%s)", len(got), len(want), v.describe())
	}
	for l, w := range want {
		if got[l] == nil {
			c.Failf("split", "language %#x is missing", l)
		}
		if s := diffInfo(got[l], w, 0, true); s != "" {
			c.Failf("split", "block of language %#x: %s (%v)", l, s, v.tab)
		}
		c.Event("split blocks compared", 1)
	}
	// the source is intact
	if s := diffInfo(vi, v, 0, true); s != "" {
		c.Failf("split-source", "after splitting, %s", s)
	}
	// merging what was split gives the completed languages
	m := version.MergeTranslations(got)
	w := &verModel{tab: map[uint16]map[string]string{}}
	for l, x := range want {
		if len(x.tab[l]) > 0 {
			w.tab[l] = x.tab[l]
		}
		w.fv, w.pv, w.flags, w.typ, w.time, w.ts = v.fv, v.pv, v.flags, v.typ, v.time, v.ts
	}
	if s := diffInfo(m, w, 0, true); s != "" {
		c.Failf("merge-split", "merging what was split: %s (%v)", s, v.tab)
	}
	// in a set
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
	m2 := model{}
	blocks := want
	if len(blocks) == 0 { // the fixed part must not be lost
		blocks = map[uint16]*verModel{0: v}
		c.Event("stored without strings", 1)
	}
	for l, x := range blocks {
		d := rs.Get(winres.RT_VERSION, winres.ID(1), l)
		if d == nil {
			c.Failf("stored", "no version block for language %#x (%s)", l, v.describe())
		}
		g, err := readVersion(d)
		if err != nil {
			c.Failf("stored", "version block of language %#x: %v", l, err)
		}
		if s := diffBlock(g, x); s != "" {
			c.Failf("stored", "version block of language %#x: %s (%v)", l, s, v.tab)
		}
		m2[rkey{idn(16), idn(1), l}] = d
		c.Event("stored blocks compared", 1)
	}
	if s := checkSet(rs, m2); s != "" {
		c.Failf("stored", "%s", s)
	}
	// main translation
	tab := vi.Table()
	mt := tab.GetMainTranslation()
	var wantMT map[string]string
	for _, l := range append([]uint16{0, 0x409}, v.langs()...) {
		if v.tab[l] != nil {
			wantMT = v.tab[l]
			break
		}
	}
	if s := diffTables(map[uint16]map[string]string{0: mt}, map[uint16]map[string]string{0: wantMT}); s != "" {
		c.Failf("main", "main translation: %s (%v)", s, v.tab)
	}
	c.Event("main translations compared", 1)
	// versions
	for i := 0; i < 2; i++ {
		nums := [4]uint16{uint16(rng.Intn(65536)), uint16(rng.Intn(300)), uint16(rng.Intn(3)), uint16(rng.Intn(65536))}
		for j := range nums {
			if rng.Intn(3) == 0 {
				nums[j] = []uint16{0, 0, 1, 9, 10, 90, 100, 1000, 0xFFFF}[rng.Intn(9)]
			}
		}
		parts := 1 + rng.Intn(4)
		var sp []string
		for j := 0; j < 4; j++ {
			if j < parts {
				n := fmt.Sprint(nums[j])
				if rng.Intn(10) == 0 {
					n = "00"[rng.Intn(2):] + n
				}
				sp = append(sp, n)
			} else {
				nums[j] = 0
			}
		}
		s := verPrefixes[rng.Intn(len(verPrefixes))] + strings.Join(sp, ".")
		if parts == 4 && rng.Intn(4) == 0 {
			s += []string{".5", ".0.1", ".6.7.8.9", ".5-rc"}[rng.Intn(4)] // only four numbers count
		} else {
			s += verSuffixes[rng.Intn(len(verSuffixes))]
		}
		if rng.Intn(10) == 0 {
			s, nums = []string{"", "none", "é", "v"}[rng.Intn(4)], [4]uint16{}
		}
		key := "FileVersion"
		if i == 0 {
			vi.SetFileVersion(s)
			v.fv = nums
		} else {
			vi.SetProductVersion(s)
			v.pv = nums
			key = "ProductVersion"
		}
		if len(v.tab) == 0 {
			v.tab[0] = map[string]string{}
		}
		for _, t := range v.tab {
			t[key] = s
		}
		if d := diffInfo(vi, v, 0, true); d != "" {
			c.Failf("setversion", "after setting %s to %q, %s", key, s, d)
		}
		c.Event("versions set", 1)
	}
	c.Nontrivial(fmt.Sprint(v.langs()), v.describe())
	c.Sample("%v", v.tab)
}

// Only ASCII digits make a number: other scripts' digits are text.
var (
	verPrefixes = []string{"", "", "", "v", "version ", "é ", "\u0661: ", "², ", "\uff11 ", "Ⅷ-", "-", ".", "v.", "\U0001d7d9 "}
	verSuffixes = []string{"", "", "", "-beta.2", " (x86)", "+7", "a", "\u0663", ".\u0664", "²", ".", ".x", ",3", "_4"}
)

func mergeCase(c *Ctx) {
	rng := c.Rng
	pool := []uint16{0, 0x409, 0x401, 0x40C, 0xFFFF, 0xFFFE, 1, genLang(rng)}
	models := map[uint16]*verModel{}
	in := map[uint16]*version.Info{}
	n := rng.Intn(5)
	if rng.Intn(50) == 0 {
		n = 10 + rng.Intn(60)
	}
	for i := 0; i < n; i++ {
		if n > 5 {
			pool = append(pool, uint16(rng.Intn(0x10000)))
		}
		l := pool[rng.Intn(len(pool))]
		v := genFixed(rng)
		switch rng.Intn(5) {
		case 0: // nothing
		case 1: // its own language, and others
			v = genTranslations(rng)
			v.tab[l] = map[string]string{"own": fmt.Sprint(rng.Intn(99))}
		case 2: // neutral, and others maybe
			if rng.Intn(2) == 0 {
				v = genTranslations(rng)
			}
			delete(v.tab, l)
			v.tab[0] = map[string]string{"neutral": fmt.Sprint(rng.Intn(99)), "x": "y"}
		case 3: // a single, other one
			v.tab[pool[rng.Intn(len(pool))]] = map[string]string{"other": fmt.Sprint(rng.Intn(99))}
		case 4:
			v = genTranslations(rng)
		}
		models[l] = v
		in[l] = v.info(c, rng)
	}
	want := &verModel{tab: map[uint16]map[string]string{}}
	var keys []uint16
	for l := range models {
		keys = append(keys, l)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	for _, l := range append([]uint16{0, 0x409}, keys...) {
		if m := models[l]; m != nil {
			want.fv, want.pv, want.flags, want.typ, want.time = m.fv, m.pv, m.flags, m.typ, m.time
			break
		}
	}
	for l, m := range models {
		t := m.tab[l]
		if len(t) == 0 {
			t = m.tab[0]
		}
		if n := 0; len(t) == 0 {
			for _, x := range m.tab {
				if len(x) > 0 {
					t = x
					n++
				}
			}
			if n > 1 {
				t = nil
			}
		}
		if len(t) > 0 {
			want.tab[l] = t
		}
	}
	if l := genLang(rng); models[l] == nil && rng.Intn(4) == 0 {
		in[l] = nil
		c.Event("nil blocks", 1)
	}
	got := version.MergeTranslations(in)
	if got == nil {
		c.Failf("merge", "nil")
	}
	if s := diffInfo(got, want, 0, true); s != "" {
		var d []string
		for l, m := range models {
			d = append(d, fmt.Sprintf("%#x: %v", l, m.tab))
		}
		c.Failf("merge", "%s (merging %v)", s, d)
	}
	for l, m := range models {
		if s := diffInfo(in[l], m, 0, true); s != "" {
			c.Failf("merge-source", "merging changed block %#x: %s", l, s)
		}
	}
	c.Event("merges compared", 1)
	c.Event("blocks merged", len(models))
	if len(models) > 0 {
		c.Nontrivial(fmt.Sprint(keys), want.describe(), fmt.Sprint(want.tab))
	}
}

// timestampOutside gives times that FILETIME cannot hold: there must be no timestamp in the block rather than a wrong one.
func timestampOutside(c *Ctx) {
	rng := c.Rng
	v := genVerModel(rng, versionSmall)
	vi := v.info(c, rng)
	const first, last = -11644473600, 1844674407370 - 11644473600 // 1601, and the second where 64 bits are exceeded
	var sec int64
	switch rng.Intn(4) {
	case 0:
		sec = first - 1 - rng.Int63n([]int64{2, 86400, 400 * 365 * 86400, 2000 * 365 * 86400}[rng.Intn(4)])
	case 1:
		sec = last + 1 + rng.Int63n([]int64{2, 86400, 1 << 40, 1 << 61}[rng.Intn(4)])
	case 2:
		sec = last + 1 + rng.Int63n(1<<20)*(last-first+1)
	default:
		sec = first - 1 - rng.Int63n(1<<20)*(last-first+1)
	}
	vi.Timestamp = time.Unix(sec, rng.Int63n(1e9))
	if rng.Intn(2) == 0 {
		vi.Timestamp = vi.Timestamp.UTC()
	}
	v.time, v.ts = time.Time{}, 0
	checkVersionBytes(c, v, vi.Bytes(), fmt.Sprintf("with time %d s", sec))
	c.Event("timestamps outside of the range", 1)
	c.Nontrivial(sec)
}

// versionConstants checks that the predefined keys and languages are those that Windows looks for.
func versionConstants(c *Ctx) {
	keys := [][2]string{
		{version.Comments, "Comments"}, {version.CompanyName, "CompanyName"}, {version.FileDescription, "FileDescription"}, {version.FileVersion, "FileVersion"},
		{version.InternalName, "InternalName"}, {version.LegalCopyright, "LegalCopyright"}, {version.LegalTrademarks, "LegalTrademarks"},
		{version.OriginalFilename, "OriginalFilename"}, {version.PrivateBuild, "PrivateBuild"}, {version.ProductName, "ProductName"},
		{version.ProductVersion, "ProductVersion"}, {version.SpecialBuild, "SpecialBuild"},
	}
	vi := &version.Info{}
	for _, k := range keys {
		vi.Set(version.LangNeutral, k[0], k[1])
		vi.Set(version.LangDefault, k[0], k[1])
		c.Event("constants compared", 1)
	}
	v, err := readVersion(vi.Bytes())
	if err != nil {
		c.Failf("constant", "%v", err)
	}
	for _, l := range []uint16{0, 0x409} {
		for _, k := range keys {
			if v.tab[l][k[1]] != k[1] {
				c.Failf("constant", "predefined key %q or language %#x is not stored as such: %v", k[1], l, v.tab)
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C22",
		Rule: "random version structures (every flag, type, 16-bit version numbers, times over the whole range of FILETIME, any text, up to 40 languages, blocks up to 64 KB) encoded, decoded by an independent strict reader and by FromBytes; non-trivial: distinct block",
		Min:  map[string]int64{"blocks decoded": 1500, "strings compared": 8000, "blocks near the limit": 20, "far timestamps": 100, "timestamps outside of the range": 200},
		Families: []Family{
			{"random", 1500, 60000, versionCase(versionAny)},
			{"big", 80, 1500, versionCase(versionBig)},
			{"outside", 200, 4000, timestampOutside},
			{"constants", 1, 1, versionConstants},
		},
	})
	register(&Prop{
		ID:   "C23",
		Rule: "blocks laid out as other tools do (order, padding, terminators, unknown and absent blocks, trailing bytes) read by FromBytes and compared with what they encode; blocks of other code pages, 16-bit, damaged or cut ones must be refused; non-trivial: distinct block",
		Min: map[string]int64{"foreign blocks read": 1500, "strings compared": 8000, "empty values": 500, "foreign: no terminator": 300, "foreign: repeated terminators": 300, "foreign: unknown block": 200, "foreign: trailing bytes": 300,
			"foreign: no translations": 200, "foreign: no fixed part": 100, "unsupported: code page": 20, "unsupported: ansi": 20, "unsupported: signature": 20, "unsupported: truncated": 20, "unsupported: language key": 20},
		Families: []Family{
			{"foreign", 2500, 100000, foreignVersionCase},
			{"unsupported", 400, 10000, unsupportedCase},
		},
	})
	register(&Prop{
		ID:   "C24",
		Rule: "random version structures to JSON and back, in fresh and used targets; JSON written by hand with flags in any order and case, languages of any spelling; every language number; non-trivial: distinct JSON",
		Min:  map[string]int64{"JSON round trips": 1200, "strings compared": 5000, "targets with older content": 400, "hand-written JSON": 800, "flags in any order": 1000, "language numbers swept": 65536},
		Families: []Family{
			{"roundtrip", 1500, 50000, jsonVersionCase},
			{"foreign", 1000, 40000, jsonForeignVersion},
			{"languages", 16, 16, jsonLanguages},
		},
	})
	register(&Prop{
		ID:   "C25",
		Rule: "structures with overlapping translations split, merged, stored and given new versions, against a model written from the documentation; non-trivial: distinct structure",
		Min:  map[string]int64{"split blocks compared": 2000, "stored blocks compared": 2000, "stored without strings": 50, "main translations compared": 1000, "versions set": 2000, "merges compared": 1000, "blocks merged": 1500, "nil blocks": 100},
		Families: []Family{
			{"split", 1500, 50000, splitCase},
			{"merge", 1500, 50000, mergeCase},
		},
	})
}
