package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// C14: no version or manifest input makes the library crash.

var versionStrings = []string{"", "1", "1.2.3.4", "v1.2-beta", "abc", ".", "...", "99999999999999999999.1", "1.2.3.4.5.6", " 1.2", "é1", "\u0661", "-1", "1..2", "\xff"}

func useInfo(c *Ctx, vi *version.Info, depth int) {
	rng := c.Rng
	c.Event("structures used", 1)
	for l, st := range vi.Table() {
		if st == nil {
			continue
		}
		for k, v := range *st {
			if err := (&version.Info{}).Set(l, k, v); err != nil {
				c.Failf("refused-string", "the structure holds a string that Set refuses: %#x %q=%q: %v", l, k, v, err)
			}
			c.Event("strings checked", 1)
		}
	}
	b := vi.Bytes()
	if x, err := version.FromBytes(b); err == nil && x == nil {
		c.Failf("nil", "FromBytes returns neither a structure nor an error")
	}
	if j, err := json.Marshal(vi); err == nil {
		var x version.Info
		json.Unmarshal(j, &x)
	}
	vi.Table().GetMainTranslation()
	split := vi.SplitTranslations()
	merged := version.MergeTranslations(split)
	merged.Bytes()
	other := map[uint16]*version.Info{uint16(rng.Intn(3)): vi, 0x409: merged, 7: {}}
	version.MergeTranslations(other).Bytes()
	if rng.Intn(4) == 0 {
		other[uint16(rng.Intn(65536))] = nil
		version.MergeTranslations(other).Bytes()
	}
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
	rs.WriteObject(&countingWriter{max: 1 << 40}, winres.ArchAMD64)
	if depth > 0 {
		n := 0
		for _, x := range split {
			if n++; n > 3 {
				break
			}
			useInfo(c, x, depth-1)
		}
		useInfo(c, merged, depth-1)
	}
	// changing it, at last
	for l := range vi.Table() {
		if err := vi.Set(l, "NewKey", "x"); err != nil {
			c.Failf("set", "Set fails: %v", err)
		}
	}
	vi.SetFileVersion(versionStrings[rng.Intn(len(versionStrings))])
	vi.SetProductVersion(versionStrings[rng.Intn(len(versionStrings))])
	vi.Set(uint16(rng.Intn(65536)), "a", "b")
	vi.Bytes()
	vi.SplitTranslations()
	json.Marshal(vi)
}

// verNodes finds the nodes of a version block, as positions of their header and of their value.
func verNodes(b []byte) [][3]int {
	var l [][3]int
	var walk func(off, end, depth int)
	walk = func(off, end, depth int) {
		for off+6 <= end && len(l) < 500 {
			n := int(le.Uint16(b[off:]))
			if n < 6 || off+n > end {
				return
			}
			v := off + 6
			for v+2 <= off+n && (b[v] != 0 || b[v+1] != 0) {
				v += 2
			}
			v = (v + 2 + 3) / 4 * 4
			if v > off+n {
				v = off + n
			}
			l = append(l, [3]int{off, v, off + n})
			if depth < 3 {
				k := v
				if depth == 0 {
					k = (v + int(le.Uint16(b[off+2:])) + 3) / 4 * 4
				}
				walk(k, off+n, depth+1)
			}
			off = (off + n + 3) / 4 * 4
		}
	}
	walk(0, len(b), 0)
	return l
}

// spoilNode changes the lengths of a node around those of its value, which it may fill up.
func spoilNode(rng *rand.Rand, b []byte) {
	l := verNodes(b)
	if len(l) == 0 {
		return
	}
	x := l[rng.Intn(len(l))]
	off, v, end := x[0], x[1], x[2]
	switch rng.Intn(3) {
	case 0: // cut in its value
		if end > v {
			end = v + rng.Intn(end-v)
		}
	case 1: // cut by some bytes
		end -= rng.Intn(min(4, end-off))
	case 2:
	}
	le.PutUint16(b[off:], uint16(end-off))
	vl := (end - v) / (1 + rng.Intn(2))
	vl += rng.Intn(4) - 1
	if vl >= 0 {
		le.PutUint16(b[off+2:], uint16(vl))
	}
	if rng.Intn(2) == 0 { // no NUL
		for i := v; i < end; i++ {
			if b[i] == 0 {
				b[i] = byte(1 + rng.Intn(100))
			}
		}
	}
	if rng.Intn(4) == 0 {
		le.PutUint16(b[off+4:], uint16(rng.Intn(3)))
	}
}

func hostileVersionBytes(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 20; i++ {
		v := genVerModel(rng, versionSmall)
		var b []byte
		if rng.Intn(2) == 0 {
			b = append([]byte{}, v.info(c, rng).Bytes()...)
		} else {
			b = (&foreignVer{rng: rng}).block(v)
		}
		for m, n := 0, rng.Intn(5); m < n && len(b) > 8; m++ {
			switch rng.Intn(10) {
			case 7, 8, 9:
				spoilNode(rng, b)
			case 0: // a header somewhere
				o := rng.Intn(len(b)/2) * 2
				le.PutUint16(b[o:], uint16(evil(rng, uint32(le.Uint16(b[o:])))))
			case 1:
				b = b[:rng.Intn(len(b))]
			case 2:
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			case 3: // zeros
				o := rng.Intn(len(b))
				for k := 0; k < rng.Intn(12) && o+k < len(b); k++ {
					b[o+k] = 0
				}
			case 4: // first headers
				le.PutUint16(b[2*rng.Intn(3):], uint16(evil(rng, uint32(len(b)))))
			case 5: // a piece twice
				o, n := rng.Intn(len(b)), rng.Intn(40)
				if o+n > len(b) {
					n = len(b) - o
				}
				b = append(b[:o+n:o+n], b[o:]...)
			case 6: // a NUL in a string
				o := rng.Intn(len(b)/2) * 2
				b[o], b[o+1] = 0, 0
			}
		}
		if rng.Intn(20) == 0 {
			b = randBytes(rng, rng.Intn(100))
		}
		hostileVersion(c, b)
	}
	// every truncation and every value of small fields of one block
	if c.Index%10 == 0 {
		b := (&foreignVer{rng: rng}).block(genVerModel(rng, versionSmall))
		if len(b) < 1200 {
			for n := range b {
				hostileVersion(c, b[:n])
			}
		}
	}
}

func hostileVersion(c *Ctx, b []byte) {
	c.Attach("version.bin", b)
	b = b[:len(b):len(b)]
	vi, err := version.FromBytes(b)
	c.Event("FromBytes", 1)
	c.Nontrivial(b)
	if err != nil {
		c.Event("FromBytes refused", 1)
		return
	}
	if vi == nil {
		c.Failf("nil", "FromBytes returns neither a structure nor an error")
	}
	useInfo(c, vi, 1)
}

// spoilJSON changes a document, mostly keeping it well-formed.
func spoilJSON(rng *rand.Rand, doc []byte) []byte {
	var x interface{}
	if json.Unmarshal(doc, &x) != nil || rng.Intn(4) == 0 {
		b := append([]byte{}, doc...)
		for i, n := 0, 1+rng.Intn(4); i < n && len(b) > 0; i++ {
			switch rng.Intn(4) {
			case 0:
				b = b[:rng.Intn(len(b))]
			case 1:
				b[rng.Intn(len(b))] = `{}[]",:0nN\ `[rng.Intn(12)]
			case 2:
				o := rng.Intn(len(b))
				s := []string{"null", `""`, "{}", `"\u0000"`, "1e999", `\ud800`, "\xff"}[rng.Intn(7)]
				b = append(b[:o:o], append([]byte(s), b[o:]...)...)
			case 3:
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			}
		}
		return b
	}
	for i, n := 0, 1+rng.Intn(3); i < n; i++ {
		x = spoilValue(rng, x)
	}
	b, _ := json.Marshal(x)
	return b
}

func spoilValue(rng *rand.Rand, x interface{}) interface{} {
	leaf := func() interface{} {
		return []interface{}{nil, "", "\x00", "a\x00b", 0, -1, 1e300, true, []interface{}{}, map[string]interface{}{}, map[string]interface{}{"": ""}, map[string]interface{}{"0409": nil},
			map[string]interface{}{"0409": map[string]interface{}{"": "x", "a": nil}}, "1.2.3.4", "65536.1", "-1.2.3.4", "2020-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "0001-01-01T00:00:00Z", strings.Repeat("x", 70000), "\uFFFF"}[rng.Intn(21)]
	}
	switch y := x.(type) {
	case map[string]interface{}:
		if len(y) == 0 || rng.Intn(6) == 0 {
			if rng.Intn(3) == 0 {
				return leaf()
			}
			y[[]string{"", "\x00", "0409", "409", "XYZ", "FFFFF", "-1", "fixed", "info", "identity", "minimum-os", "version", "timestamp", "a\x00"}[rng.Intn(14)]] = leaf()
			return y
		}
		i := rng.Intn(len(y))
		for _, k := range sortedKeys(y) {
			if i == 0 {
				if rng.Intn(8) == 0 {
					v := y[k]
					delete(y, k)
					y[[]string{"", "\x00", k + "\x00", "0", "FFFF", "10000", strings.Repeat("k", 40000)}[rng.Intn(7)]] = v
				} else {
					y[k] = spoilValue(rng, y[k])
				}
				break
			}
			i--
		}
		return y
	}
	return leaf()
}

func sortedKeys(m map[string]interface{}) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	for i := range l {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
	return l
}

func hostileVersionJSON(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 20; i++ {
		v := genVerModel(rng, versionSmall)
		for v.time.Year() > 9999 {
			v.time, v.ts = genTime(rng)
		}
		doc, err := json.Marshal(v.info(c, rng))
		if err != nil {
			c.Failf("marshal", "%v", err)
		}
		doc = spoilJSON(rng, doc)
		c.Attach("doc.json", doc)
		c.Nontrivial(doc)
		vi := &version.Info{}
		if rng.Intn(2) == 0 {
			vi = genVerModel(rng, versionSmall).info(c, rng)
		}
		c.Event("JSON decodings", 1)
		if err := json.Unmarshal(doc, vi); err != nil {
			c.Event("JSON refused", 1)
		}
		// usable in any case
		useInfo(c, vi, 1)
		if vi.UnmarshalJSON(doc) == nil {
			useInfo(c, vi, 0)
		}
	}
}

func useManifest(c *Ctx, m winres.AppManifest) {
	c.Event("manifests used", 1)
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	b, err := storedManifest(rs)
	if err != nil {
		c.Failf("stored", "%v", err)
	}
	winres.AppManifestFromXML(b)
	if j, err := json.Marshal(m); err == nil {
		var x winres.AppManifest
		json.Unmarshal(j, &x)
	}
	rs.WriteObject(&countingWriter{max: 1 << 40}, winres.ArchI386)
}

func hostileManifestJSON(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 40; i++ {
		m := genManifest(rng, func() string { return genMText(rng, true) })
		doc, err := json.Marshal(m)
		if err != nil {
			c.Failf("marshal", "%v", err)
		}
		if rng.Intn(3) == 0 {
			s, _ := writeManifestJSON(rng, m, "")
			doc = []byte(s)
		}
		doc = spoilJSON(rng, doc)
		c.Attach("doc.json", doc)
		c.Nontrivial(doc)
		var got winres.AppManifest
		c.Event("JSON decodings", 1)
		if err := json.Unmarshal(doc, &got); err != nil {
			c.Event("JSON refused", 1)
		}
		useManifest(c, got)
		got.Identity.UnmarshalJSON(doc)
		got.Compatibility.UnmarshalText(doc)
		got.DPIAwareness.UnmarshalText(doc)
		got.ExecutionLevel.UnmarshalText(doc)
		useManifest(c, got)
	}
}

func hostileXML(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 40; i++ {
		m := genManifest(rng, func() string { return genMText(rng, false) })
		var b []byte
		if rng.Intn(2) == 0 {
			b = []byte(foreignManifest(rng, &m))
		} else {
			rs := &winres.ResourceSet{}
			rs.SetManifest(m)
			x, err := storedManifest(rs)
			if err != nil {
				c.Failf("stored", "%v", err)
			}
			b = append(b, x...)
		}
		for k, n := 0, rng.Intn(5); k < n && len(b) > 2; k++ {
			switch rng.Intn(7) {
			case 0:
				b = b[:rng.Intn(len(b))]
			case 1:
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			case 2:
				b[rng.Intn(len(b))] = `<>/"'&;=! :.0`[rng.Intn(13)]
			case 3: // a piece twice
				o, n := rng.Intn(len(b)), rng.Intn(200)
				if o+n > len(b) {
					n = len(b) - o
				}
				b = append(b[:o+n:o+n], b[o:]...)
			case 4: // other values
				s := []string{"1.2.3.4", "0", "6.0.0.0", "true", "system"}[rng.Intn(5)]
				r := []string{"", ".", "....", "1.2.3.4.5.6.7", "99999999999999999999.-1.x. ", strings.Repeat("9.", 1000), strings.Repeat("x,", 5000), "\x00", "&#0;", "&#xFFFF;", "<![CDATA[", "]]>", ",,,,"}[rng.Intn(13)]
				b = []byte(strings.Replace(string(b), s, r, 1+rng.Intn(2)))
			case 5: // swap names
				l := []string{"assemblyIdentity", "description", "compatibility", "application", "supportedOS", "windowsSettings", "trustInfo", "security", "dependency", "dependentAssembly", "dpiAware"}
				b = []byte(strings.ReplaceAll(string(b), l[rng.Intn(len(l))], l[rng.Intn(len(l))]))
			case 6:
				b = append(b, b...)
			}
		}
		if rng.Intn(30) == 0 {
			n := rng.Intn(20000)
			b = []byte(strings.Repeat("<a>", n) + strings.Repeat("</a>", n))
		}
		if rng.Intn(30) == 0 {
			b = randBytes(rng, rng.Intn(100))
		}
		if rng.Intn(30) == 0 {
			b = []byte(fmt.Sprintf(`<!DOCTYPE a [<!ENTITY b "%s">]><assembly><description>&b;&b;</description></assembly>`, strings.Repeat("x", rng.Intn(100))))
		}
		c.Attach("doc.xml", b)
		c.Nontrivial(b)
		got, err := winres.AppManifestFromXML(b)
		c.Event("XML decodings", 1)
		if err != nil {
			c.Event("XML refused", 1)
			continue
		}
		useManifest(c, got)
	}
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "mutated VS_VERSIONINFO blocks, version and manifest JSON (structure kept or not, nulls, wrong types, NUL characters) and manifest XML; whatever is obtained goes through every other operation, and each string through the setter; non-trivial: distinct input",
		Min:  map[string]int64{"FromBytes": 5000, "FromBytes refused": 1000, "structures used": 5000, "strings checked": 5000, "JSON decodings": 8000, "JSON refused": 2000, "XML decodings": 8000, "XML refused": 2000, "manifests used": 10000},
		Families: []Family{
			{"version bytes", 400, 20000, hostileVersionBytes},
			{"version JSON", 300, 12000, hostileVersionJSON},
			{"manifest JSON", 300, 12000, hostileManifestJSON},
			{"manifest XML", 300, 12000, hostileXML},
		},
	})
}
