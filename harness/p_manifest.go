package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/rand"
	"os/exec"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/tc-hib/winres"
)

// C26, C27, C28: application manifests.

const (
	nsAsm1   = "urn:schemas-microsoft-com:asm.v1"
	nsAsm2   = "urn:schemas-microsoft-com:asm.v2"
	nsAsm3   = "urn:schemas-microsoft-com:asm.v3"
	nsCompat = "urn:schemas-microsoft-com:compatibility.v1"
	nsWS     = "http://schemas.microsoft.com/SMI/%d/WindowsSettings"
)

var osIDs = []string{
	"{e2011457-1546-43c5-a5fe-008deee3d3f0}", // Vista
	"{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", // 7
	"{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}", // 8
	"{1f676c76-80e1-4239-95bb-83d0f6d0da78}", // 8.1
	"{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}", // 10
}

// The boolean settings, with the year of their namespace.
var boolSettings = []struct {
	name string
	year int
	get  func(m *winres.AppManifest) *bool
}{
	{"autoElevate", 2005, func(m *winres.AppManifest) *bool { return &m.AutoElevate }},
	{"disableTheming", 2005, func(m *winres.AppManifest) *bool { return &m.DisableTheming }},
	{"disableWindowFiltering", 2011, func(m *winres.AppManifest) *bool { return &m.DisableWindowFiltering }},
	{"highResolutionScrollingAware", 2013, func(m *winres.AppManifest) *bool { return &m.HighResolutionScrollingAware }},
	{"printerDriverIsolation", 2011, func(m *winres.AppManifest) *bool { return &m.PrinterDriverIsolation }},
	{"ultraHighResolutionScrollingAware", 2013, func(m *winres.AppManifest) *bool { return &m.UltraHighResolutionScrollingAware }},
	{"longPathAware", 2016, func(m *winres.AppManifest) *bool { return &m.LongPathAware }},
	{"gdiScaling", 2017, func(m *winres.AppManifest) *bool { return &m.GDIScaling }},
}

var levelNames = map[winres.ExecutionLevel]string{winres.AsInvoker: "asInvoker", winres.HighestAvailable: "highestAvailable", winres.RequireAdministrator: "requireAdministrator"}

// genMText gives a text; hostile ones hold characters XML cannot represent, or are not UTF-8.
func genMText(rng *rand.Rand, hostile bool) string {
	pieces := []string{"a", "Application", " ", "  ", "\n", "\t", "\r", "\r\n", "<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "&amp;", "&#10;", "&lt;", "&#x9;", "&#xA;", "&#xD;", "&#9;", "&#34;", "&#x2028;", "&quot;", "&apos;", "&nbsp;", "{{.}}", "{{", "}}", "%d", "\\", "é", "\u00A0", "\u2028", "\u0085", "\u007F",
		"\U0001F600", "\uFFFD", "\uE000", "\uD7FF", "\U0010FFFF", "</description>", "<?xml?>", "\u200B", "\uFEFF", "x"}
	if hostile {
		pieces = append(pieces, "\x00", "\x01", "\x08", "\x0B", "\x0C", "\x1F", "\x1B", "\uFFFE", "\uFFFF", "\xFF", "\xC3", "\xED\xA0\x80", "\xF4\x90\x80\x80", "\xC0\x80")
	}
	s := ""
	for i, n := 0, rng.Intn(7); i < n; i++ {
		if rng.Intn(5) == 0 {
			s += genText(rng, 10, false)
		} else {
			s += pieces[rng.Intn(len(pieces))]
		}
	}
	if rng.Intn(60) == 0 {
		s += genLong(rng, []int{120, 200, 255, 256, 300, 1000, 4096, 9000}[rng.Intn(8)])
	}
	if !hostile {
		s = strings.Map(func(r rune) rune {
			if r != utf8.RuneError && !xmlChar(r) {
				return -1
			}
			return r
		}, s)
	}
	return s
}

func xmlChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

// representable removes what XML cannot represent, and what may replace it.
func representable(s string) string {
	return strings.Map(func(r rune) rune {
		if r == utf8.RuneError || r == '?' || !xmlChar(r) {
			return -1
		}
		return r
	}, s)
}

func genManifest(rng *rand.Rand, text func() string) winres.AppManifest {
	m := winres.AppManifest{
		Compatibility:  winres.SupportedOS(rng.Intn(5) - 1),
		ExecutionLevel: winres.ExecutionLevel(rng.Intn(3)),
		DPIAwareness:   winres.DPIAwareness(rng.Intn(4)),
	}
	p := []int{2, 2, 2, 8, 1}[rng.Intn(5)]
	b := func() bool { return rng.Intn(p) == 0 }
	for _, s := range boolSettings {
		*s.get(&m) = b()
	}
	m.SegmentHeap, m.UseCommonControlsV6, m.UIAccess = b(), b(), b()
	if rng.Intn(4) > 0 {
		m.Description = text()
	}
	if rng.Intn(3) > 0 {
		m.Identity.Name = text()
	}
	for i := range m.Identity.Version {
		m.Identity.Version[i] = []uint16{0, 1, 2, 9, 10, 255, 65535, uint16(rng.Intn(65536))}[rng.Intn(8)]
	}
	return m
}

// expatScript parses documents with an XML parser that is not Go's.
const expatScript = `
import sys, json, base64
import xml.parsers.expat as E
def parse(doc):
    out, stack = [], []
    p = E.ParserCreate(namespace_separator='|')
    p.buffer_text = True
    def start(n, a):
        path = (stack[-1][0] + '/' if stack else '') + n
        if stack: stack[-1][3] = True
        e = [path, a, '', False]
        stack.append(e); out.append(e)
    def end(n): stack.pop()
    def text(s):
        if stack: stack[-1][2] += s
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.Parse(doc, True)
    return out
res = []
for d in json.load(sys.stdin):
    try: res.append({'nodes': [{'path': p, 'attrs': a, 'text': t, 'kids': k} for p, a, t, k in parse(base64.b64decode(d))]})
    except E.ExpatError as e: res.append({'error': str(e)})
print(json.dumps(res))
`

type xmlNode struct {
	Path  string
	Attrs map[string]string
	Text  string
	Kids  bool
}

type xmlDoc struct {
	Nodes []xmlNode
	Error string
}

func expat(docs [][]byte) []xmlDoc {
	var l []string
	for _, d := range docs {
		l = append(l, base64.StdEncoding.EncodeToString(d))
	}
	in, _ := json.Marshal(l)
	cmd := exec.Command("python3", "-c", expatScript)
	cmd.Stdin = bytes.NewReader(in)
	var errOut bytes.Buffer
	cmd.Stderr = &errOut
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("harness: expat: %v %s", err, errOut.String()))
	}
	var res []xmlDoc
	if err := json.Unmarshal(out, &res); err != nil || len(res) != len(docs) {
		panic(fmt.Sprintf("harness: expat: %v", err))
	}
	return res
}

// facts turns nodes into comparable lines.
func facts(nodes []xmlNode) []string {
	var l []string
	for _, n := range nodes {
		var at []string
		for k, v := range n.Attrs {
			if k == "name" {
				v = representable(v)
			}
			at = append(at, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(at)
		t := n.Text
		switch {
		case strings.HasSuffix(n.Path, "|description"):
			t = representable(t)
		case strings.HasSuffix(n.Path, "|dpiAware"), strings.HasSuffix(n.Path, "|dpiAwareness"), strings.HasSuffix(n.Path, "|heapType"):
			// documented without regard to case
			parts := strings.Split(strings.ToLower(t), ",")
			for i := range parts {
				parts[i] = strings.TrimSpace(parts[i])
			}
			t = strings.Join(parts, ",")
		default:
			t = strings.TrimSpace(t)
		}
		l = append(l, fmt.Sprintf("%s [%s] %q", n.Path, strings.Join(at, " "), t))
	}
	sort.Strings(l)
	return l
}

// wantNodes is what the manifest of m must hold.
func wantNodes(m winres.AppManifest) []xmlNode {
	var l []xmlNode
	root := nsAsm1 + "|assembly"
	add := func(path, text string, attrs ...string) string {
		n := xmlNode{Path: path, Text: text, Attrs: map[string]string{}}
		for i := 0; i < len(attrs); i += 2 {
			n.Attrs[attrs[i]] = attrs[i+1]
		}
		l = append(l, n)
		return path
	}
	add(root, "", "manifestVersion", "1.0")
	v := m.Identity.Version
	if m.Identity.Name != "" {
		add(root+"/"+nsAsm1+"|assemblyIdentity", "", "type", "win32", "name", m.Identity.Name, "version", fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3]), "processorArchitecture", "*")
	}
	if m.Description != "" {
		add(root+"/"+nsAsm1+"|description", m.Description)
	}
	p := add(root+"/"+nsCompat+"|compatibility", "")
	p = add(p+"/"+nsCompat+"|application", "")
	for i := int(m.Compatibility) + 1; i < 5; i++ {
		add(p+"/"+nsCompat+"|supportedOS", "", "Id", osIDs[i])
	}
	p = add(root+"/"+nsAsm3+"|application", "")
	p = add(p+"/"+nsAsm3+"|windowsSettings", "")
	set := func(year int, name, val string) { add(p+"/"+fmt.Sprintf(nsWS, year)+"|"+name, val) }
	switch m.DPIAwareness {
	case winres.DPIAware:
		set(2005, "dpiAware", "true")
		set(2016, "dpiAwareness", "system")
	case winres.DPIUnaware:
		set(2005, "dpiAware", "false")
		set(2016, "dpiAwareness", "unaware")
	case winres.DPIPerMonitor:
		set(2005, "dpiAware", "true/pm")
		set(2016, "dpiAwareness", "permonitor")
	case winres.DPIPerMonitorV2:
		set(2005, "dpiAware", "true")
		set(2016, "dpiAwareness", "permonitorv2,system")
	}
	for _, s := range boolSettings {
		if *s.get(&m) {
			set(s.year, s.name, "true")
		}
	}
	if m.SegmentHeap {
		set(2020, "heapType", "segmentheap")
	}
	q := add(root+"/"+nsAsm3+"|trustInfo", "")
	q = add(q+"/"+nsAsm3+"|security", "")
	q = add(q+"/"+nsAsm3+"|requestedPrivileges", "")
	add(q+"/"+nsAsm3+"|requestedExecutionLevel", "", "level", levelNames[m.ExecutionLevel], "uiAccess", fmt.Sprint(m.UIAccess))
	if m.UseCommonControlsV6 {
		q = add(root+"/"+nsAsm1+"|dependency", "")
		q = add(q+"/"+nsAsm1+"|dependentAssembly", "")
		add(q+"/"+nsAsm1+"|assemblyIdentity", "", "type", "win32", "name", "Microsoft.Windows.Common-Controls", "version", "6.0.0.0", "processorArchitecture", "*", "publicKeyToken", "6595b64144ccf1df", "language", "*")
	}
	return l
}

func diffFacts(got, want []string) string {
	n := map[string]int{}
	for _, s := range want {
		n[s]++
	}
	var extra []string
	for _, s := range got {
		if n[s] > 0 {
			n[s]--
		} else {
			extra = append(extra, s)
		}
	}
	var missing []string
	for s, k := range n {
		for i := 0; i < k; i++ {
			missing = append(missing, s)
		}
	}
	sort.Strings(missing)
	if len(extra)+len(missing) == 0 {
		return ""
	}
	return fmt.Sprintf("unexpected: %v; missing: %v", extra, missing)
}

// describe tells what sets m apart.
func manifestText(m winres.AppManifest) string {
	return fmt.Sprintf("%+v", m)
}

// sameManifest compares descriptions; an unnamed assembly has no version.
func sameManifest(got, want winres.AppManifest, xmlTexts bool) string {
	if xmlTexts {
		for _, s := range []*string{&got.Identity.Name, &want.Identity.Name, &got.Description, &want.Description} {
			*s = representable(*s)
		}
	}
	if want.Identity.Name == "" {
		want.Identity.Version, got.Identity.Version = [4]uint16{}, [4]uint16{}
	}
	if got == want {
		return ""
	}
	return fmt.Sprintf("got  %+v\nwant %+v", got, want)
}

func storedManifest(rs *winres.ResourceSet) ([]byte, error) {
	var b []byte
	n := 0
	rs.WalkType(winres.ID(24), func(id winres.Identifier, lang uint16, data []byte) bool {
		n++
		b = data
		if id != winres.ID(1) || lang != 0x409 {
			n += 100
		}
		return true
	})
	if n != 1 || rs.Count() != 1 {
		return nil, fmt.Errorf("no single RT_MANIFEST resource of ID 1 in en-US")
	}
	return b, nil
}

func manifestsCase(exhaustive bool) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		var ms []winres.AppManifest
		var docs [][]byte
		for i := 0; i < 60; i++ {
			var m winres.AppManifest
			if exhaustive {
				// every value of every option, and every pair of values of two options
				k := c.Index*60 + i
				m.Compatibility = winres.SupportedOS(k%5 - 1)
				m.ExecutionLevel = winres.ExecutionLevel(k / 5 % 3)
				m.DPIAwareness = winres.DPIAwareness(k / 15 % 4)
				bits := k/60*0x9E5 + k
				for j, s := range boolSettings {
					*s.get(&m) = bits>>uint(j)&1 != 0
				}
				m.SegmentHeap, m.UseCommonControlsV6, m.UIAccess = bits>>8&1 != 0, bits>>9&1 != 0, bits>>10&1 != 0
				if k%2 == 0 {
					m.Identity = winres.AssemblyIdentity{Name: "a.b", Version: [4]uint16{uint16(k), 2, 3, 4}}
				}
				if k%3 == 0 {
					m.Description = "text"
				}
			} else {
				hostile := rng.Intn(2) == 0
				m = genManifest(rng, func() string { return genMText(rng, hostile) })
			}
			rs := &winres.ResourceSet{}
			if rng.Intn(4) == 0 { // replaced
				rs.SetManifest(genManifest(rng, func() string { return "other" }))
			}
			rs.SetManifest(m)
			b, err := storedManifest(rs)
			if err != nil {
				c.Failf("stored", "%v", err)
			}
			ms = append(ms, m)
			docs = append(docs, b)
		}
		for i, d := range expat(docs) {
			c.Attach("manifest.xml", docs[i])
			if d.Error != "" {
				c.Failf("ill-formed", "%s: %s", d.Error, manifestText(ms[i]))
			}
			c.Event("manifests parsed", 1)
			c.Event("elements compared", len(d.Nodes))
			if s := diffFacts(facts(d.Nodes), facts(wantNodes(ms[i]))); s != "" {
				c.Failf("content", "%s\n%s", s, manifestText(ms[i]))
			}
			got, err := winres.AppManifestFromXML(docs[i])
			if err != nil {
				c.Failf("read-back", "AppManifestFromXML: %v, for %s", err, manifestText(ms[i]))
			}
			if s := sameManifest(got, ms[i], true); s != "" {
				c.Failf("read-back", "AppManifestFromXML gives something else:\n%s", s)
			}
			c.Event("read back", 1)
			c.Nontrivial(docs[i])
		}
		c.Sample("%s", clip(string(docs[0]), 500))
	}
}

// ---------------------------------------------------------------- C27

var osSpellings = map[winres.SupportedOS][]string{winres.WinVistaAndAbove: {"vista"}, winres.Win7AndAbove: {"win7"}, winres.Win8AndAbove: {"win8"}, winres.Win81AndAbove: {"win8.1"}, winres.Win10AndAbove: {"win10"}}
var dpiSpellings = map[winres.DPIAwareness][]string{winres.DPIAware: {"system", "true", ""}, winres.DPIUnaware: {"unaware", "false"}, winres.DPIPerMonitor: {"per monitor", "permonitor", "true/pm"}, winres.DPIPerMonitorV2: {"per monitor v2", "permonitorv2"}}
var levelSpellings = map[winres.ExecutionLevel][]string{winres.AsInvoker: {"", "as invoker", "asinvoker"}, winres.HighestAvailable: {"highest", "highest available", "highestavailable"}, winres.RequireAdministrator: {"administrator", "require administrator", "requireadministrator"}}

func spaced(rng *rand.Rand, s string) string {
	sp := []string{"", "", " ", "\t", "\n", "  ", "\r\n "}
	return sp[rng.Intn(len(sp))] + anyCase(rng, s) + sp[rng.Intn(len(sp))]
}

func jsonManifests(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 40; i++ {
		m := genManifest(rng, func() string {
			s := genMText(rng, rng.Intn(2) == 0)
			return strings.ToValidUTF8(s, "?")
		})
		b, err := json.Marshal(m)
		if err != nil {
			c.Failf("marshal", "%v: %s", err, manifestText(m))
		}
		c.Attach("json", b)
		var got winres.AppManifest
		if rng.Intn(2) == 0 {
			got = genManifest(rng, func() string { return "older" })
			c.Event("targets with older content", 1)
		}
		if err := json.Unmarshal(b, &got); err != nil {
			c.Failf("unmarshal", "%v: %s", err, b)
		}
		if s := sameManifest(got, m, false); s != "" {
			c.Failf("content", "%s\n%s", s, b)
		}
		if b2, err := json.Marshal(&got); err != nil || !bytes.Equal(b, b2) {
			c.Failf("again", "encoding again gives %s (%v), not %s", b2, err, b)
		}
		c.Event("JSON round trips", 1)
		c.Nontrivial(b)
		c.Sample("%s", b)
	}
}

// writeManifestJSON writes m with other spellings.
func writeManifestJSON(rng *rand.Rand, m winres.AppManifest, spoil string) (string, string) {
	var l []string
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	add := func(k, v string) { l = append(l, q(k)+": "+v) }
	bad := ""
	opt := func(k string, valid []string, all [][]string) {
		s := spaced(rng, valid[rng.Intn(len(valid))])
		if spoil == k {
			s = spoiled(rng, s, all)
			bad = s
		}
		add(k, q(s))
	}
	var oss, dpis, levels [][]string
	for _, s := range osSpellings {
		oss = append(oss, s)
	}
	oss = append(oss, []string{""})
	for _, s := range dpiSpellings {
		dpis = append(dpis, s)
	}
	for _, s := range levelSpellings {
		levels = append(levels, s)
	}
	opt("minimum-os", osSpellings[m.Compatibility], oss)
	opt("dpi-awareness", dpiSpellings[m.DPIAwareness], dpis)
	opt("execution-level", levelSpellings[m.ExecutionLevel], levels)
	for k, p := range map[string]bool{"ui-access": m.UIAccess, "auto-elevate": m.AutoElevate, "disable-theming": m.DisableTheming, "disable-window-filtering": m.DisableWindowFiltering,
		"high-resolution-scrolling-aware": m.HighResolutionScrollingAware, "ultra-high-resolution-scrolling-aware": m.UltraHighResolutionScrollingAware, "long-path-aware": m.LongPathAware,
		"printer-driver-isolation": m.PrinterDriverIsolation, "gdi-scaling": m.GDIScaling, "segment-heap": m.SegmentHeap, "use-common-controls-v6": m.UseCommonControlsV6} {
		if p || rng.Intn(2) == 0 {
			add(k, fmt.Sprint(p))
		}
	}
	if m.Description != "" || rng.Intn(2) == 0 {
		add("description", q(m.Description))
	}
	v := m.Identity.Version
	if m.Identity.Name != "" || spoil == "version" {
		s := fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])
		for strings.HasSuffix(s, ".0") && rng.Intn(2) == 0 {
			s = s[:len(s)-2]
		}
		if rng.Intn(3) == 0 {
			s = " " + s + " "
		}
		if spoil == "version" {
			s = []string{"x", "1.2.3.4.5", "1.2.3.4.", "65536", "1.70000", "-1.2", "1..2", ".", "1.2.3.x", "1,2", "0x10", "1.2.3.4 beta", "4294967296.0.0.0", "1.2.3.18446744073709551617", "v1.2.3.4"}[rng.Intn(15)]
			bad = s
		}
		add("identity", fmt.Sprintf(`{"name": %s, "version": %s}`, q(m.Identity.Name), q(s)))
	}
	sort.Strings(l)
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return "{" + strings.Join(l, ", ") + "}", bad
}

// spoiled changes a spelling until it is not valid any more.
func spoiled(rng *rand.Rand, s string, all [][]string) string {
	for {
		b := []byte(s)
		switch rng.Intn(5) {
		case 0:
			i := rng.Intn(len(b) + 1)
			b = append(b[:i:i], append([]byte{"abcdefgxyz0123456789-_/. "[rng.Intn(25)]}, b[i:]...)...)
		case 1:
			if len(b) > 0 {
				i := rng.Intn(len(b))
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			if len(b) > 0 {
				b[rng.Intn(len(b))] = "abcdefgxyz0123456789-_/. "[rng.Intn(25)]
			}
		case 3:
			b = append(b, b...)
		case 4:
			b = []byte([]string{"windows 7", "xp", "win11", "win8.2", "win", "10", "dpi", "yes", "per-monitor", "per monitor v3", "permonitor v2", "admin", "user", "high", "null", "unknown", "1", "0", "win7,win8", "per  monitor"}[rng.Intn(20)])
		}
		s = string(b)
		n := strings.ToLower(strings.TrimSpace(s))
		ok := false
		for _, l := range all {
			for _, x := range l {
				ok = ok || x == n
			}
		}
		if !ok {
			return s
		}
	}
}

func jsonSpellings(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 40; i++ {
		m := genManifest(rng, func() string { return []string{"", "x.y", "Some text"}[rng.Intn(3)] })
		doc, _ := writeManifestJSON(rng, m, "")
		c.Attach("json", []byte(doc))
		var got winres.AppManifest
		if err := json.Unmarshal([]byte(doc), &got); err != nil {
			c.Failf("refused", "%v: %s", err, doc)
		}
		if s := sameManifest(got, m, false); s != "" {
			c.Failf("content", "%s\n%s", s, doc)
		}
		c.Event("spellings accepted", 3)
		c.Nontrivial(doc)
		field := []string{"minimum-os", "dpi-awareness", "execution-level", "version"}[rng.Intn(4)]
		doc, bad := writeManifestJSON(rng, m, field)
		c.Attach("json", []byte(doc))
		got = winres.AppManifest{}
		if err := json.Unmarshal([]byte(doc), &got); err == nil {
			c.Failf("accepted", "%s %q is accepted: %s", field, bad, doc)
		}
		c.Event("spellings refused", 1)
		c.Sample("refused: %s %q", field, bad)
		// wrong types
		field = []string{"minimum-os", "dpi-awareness", "execution-level"}[rng.Intn(3)]
		val := []string{"1", "true", "[]", "{}", `["win7"]`, "-1", "0.5", `{"a":"win7"}`}[rng.Intn(8)]
		if err := json.Unmarshal([]byte(fmt.Sprintf(`{%q: %s}`, field, val)), &got); err == nil {
			c.Failf("accepted", "%s %s is accepted", field, val)
		}
		c.Event("spellings refused", 1)
	}
	// each option alone, in both directions
	for v, l := range osSpellings {
		textOption(c, v, l, func(b []byte) (interface{}, error) {
			var x winres.SupportedOS
			err := x.UnmarshalText(b)
			return x, err
		})
	}
	for v, l := range dpiSpellings {
		textOption(c, v, l, func(b []byte) (interface{}, error) {
			x := winres.DPIPerMonitor
			err := x.UnmarshalText(b)
			return x, err
		})
	}
	for v, l := range levelSpellings {
		textOption(c, v, l, func(b []byte) (interface{}, error) {
			x := winres.HighestAvailable
			err := x.UnmarshalText(b)
			return x, err
		})
	}
}

func textOption(c *Ctx, v interface{ MarshalText() ([]byte, error) }, l []string, read func(b []byte) (interface{}, error)) {
	b, err := v.MarshalText()
	if err != nil {
		c.Failf("marshal", "%v cannot be written: %v", v, err)
	}
	ok := false
	for _, s := range l {
		ok = ok || s == strings.ToLower(strings.TrimSpace(string(b)))
		x, err := read([]byte(spaced(c.Rng, s)))
		if err != nil || x != interface{}(v) {
			c.Failf("refused", "%q gives %v, %v; want %v", s, x, err, v)
		}
		c.Event("spellings accepted", 1)
	}
	if !ok {
		c.Failf("marshal", "%v is written %q, which is not a documented spelling", v, b)
	}
}

// ---------------------------------------------------------------- C28

// xmlWriter writes elements as various tools do.
type xmlWriter struct {
	rng    *rand.Rand
	prefix map[string]string // prefixes declared at the root, by namespace
	noise  bool
}

type xElem struct {
	ns, name string
	attrs    [][2]string
	text     string // already escaped
	kids     []xElem
	ordered  bool
}

func (w *xmlWriter) esc(s string, attr bool) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '<':
			b.WriteString("&lt;")
		case r == '&':
			b.WriteString("&amp;")
		case r == '"' || r == '\'' || r == '>':
			b.WriteString(map[rune]string{'"': "&quot;", '\'': "&apos;", '>': "&gt;"}[r])
		case r == '\r' || attr && (r == '\n' || r == '\t'):
			fmt.Fprintf(&b, "&#x%X;", r)
		case w.rng.Intn(12) == 0:
			fmt.Fprintf(&b, []string{"&#%d;", "&#x%X;", "&#x%x;"}[w.rng.Intn(3)], r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (w *xmlWriter) space() string {
	if !w.noise {
		return ""
	}
	if w.rng.Intn(6000) == 0 {
		n := 1000 << uint(w.rng.Intn(8))
		if w.rng.Intn(2) == 0 {
			return strings.Repeat(" ", n)
		}
		return "<!--" + strings.Repeat("long ", n/5) + "-->"
	}
	return []string{"", "\n", "  ", "\r\n\t", "<!-- comment -->", "<!-- <dpiAware>true</dpiAware> -->", "<?pi some data?>", "\n<!---->\n"}[w.rng.Intn(8)]
}

// textOf writes a text with what may surround and cut it.
func (w *xmlWriter) textOf(s string) string {
	rng := w.rng
	var b strings.Builder
	for len(s) > 0 {
		n := 1 + rng.Intn(len(s))
		for n < len(s) && !utf8.RuneStart(s[n]) {
			n++
		}
		p := s[:n]
		s = s[n:]
		switch {
		case rng.Intn(6) == 0 && !strings.ContainsAny(p, "]\r"):
			b.WriteString("<![CDATA[" + p + "]]>")
		default:
			b.WriteString(w.esc(p, false))
		}
		if w.noise && rng.Intn(5) == 0 {
			b.WriteString([]string{"<!-- x -->", "<?x y?>"}[rng.Intn(2)])
		}
	}
	return b.String()
}

func (w *xmlWriter) write(b *strings.Builder, e xElem, def string) {
	rng := w.rng
	name := e.name
	var decl []string
	p, has := w.prefix[e.ns]
	switch {
	case e.ns == def && (!has || rng.Intn(2) == 0):
	case has && rng.Intn(3) > 0:
		name = p + ":" + name
	case rng.Intn(3) == 0 && e.ns != "":
		q := fmt.Sprintf("n%d", rng.Intn(100))
		decl = append(decl, fmt.Sprintf("xmlns:%s=%q", q, e.ns))
		name = q + ":" + name
	default:
		decl = append(decl, fmt.Sprintf("xmlns=%q", e.ns))
		def = e.ns
	}
	at := append([]string{}, decl...)
	for _, a := range e.attrs {
		v := w.esc(a[1], true)
		if rng.Intn(3) == 0 {
			at = append(at, a[0]+"='"+v+"'")
		} else {
			at = append(at, a[0]+` = "`+v+`"`)
		}
	}
	if w.noise && rng.Intn(5) == 0 {
		at = append(at, `unknown="1"`)
	}
	rng.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
	b.WriteString("<" + name)
	for _, a := range at {
		b.WriteString([]string{" ", "\n   ", "\t"}[rng.Intn(3)] + a)
	}
	if e.text == "" && len(e.kids) == 0 && rng.Intn(2) == 0 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">" + e.text)
	kids := append([]xElem{}, e.kids...)
	if e.text == "" && w.noise && len(kids) > 0 {
		for rng.Intn(4) == 0 {
			kids = append(kids, w.unknown(2))
		}
	}
	rng.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	for _, k := range kids {
		b.WriteString(w.space())
		w.write(b, k, def)
	}
	if len(kids) > 0 {
		b.WriteString(w.space())
	}
	b.WriteString("</" + name + []string{"", " ", "\n"}[rng.Intn(3)] + ">")
}

// unknown makes an element nobody knows, that may hold elements with known names.
func (w *xmlWriter) unknown(depth int) xElem {
	rng := w.rng
	e := xElem{ns: []string{"urn:unknown", nsAsm1, nsAsm3, "urn:schemas-microsoft-com:asm.v2"}[rng.Intn(4)], name: []string{"unknown", "file", "comClass", "windowClass", "msix", "activeCodePage", "DpiAware", "DESCRIPTION"}[rng.Intn(8)]}
	if rng.Intn(2) == 0 {
		e.attrs = append(e.attrs, [2]string{"name", "x"}, [2]string{"version", "9.9.9.9"}, [2]string{"level", "requireAdministrator"}, [2]string{"uiAccess", "true"})
	}
	if depth > 0 && rng.Intn(2) == 0 {
		names := []string{"dpiAware", "autoElevate", "description", "assemblyIdentity", "windowsSettings", "requestedExecutionLevel", "supportedOS", "longPathAware", "heapType", "application"}
		k := xElem{ns: nsAsm1, name: names[rng.Intn(len(names))], attrs: [][2]string{{"Id", osIDs[0]}, {"name", "x"}}, text: "true"}
		if rng.Intn(2) == 0 {
			k = w.unknown(depth - 1)
		}
		e.kids = append(e.kids, k)
	} else if rng.Intn(2) == 0 {
		e.text = "true"
	}
	return e
}

func foreignManifest(rng *rand.Rand, m *winres.AppManifest) string {
	w := &xmlWriter{rng: rng, prefix: map[string]string{}, noise: rng.Intn(4) > 0}
	val := func(s string) string { return spaced(rng, s) }
	text := func(s string) string { return w.textOf(val(s)) }
	var blocks []xElem
	// identity
	v := m.Identity.Version
	if m.Identity.Name != "" {
		s := fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])
		for strings.HasSuffix(s, ".0") && rng.Intn(2) == 0 {
			s = s[:len(s)-2]
		}
		if rng.Intn(4) == 0 {
			s = " " + s + " "
		}
		at := [][2]string{{"name", m.Identity.Name}, {"version", s}}
		if rng.Intn(2) == 0 {
			at = append(at, [2]string{"type", "win32"}, [2]string{"processorArchitecture", "amd64"})
		}
		if rng.Intn(3) == 0 {
			at = append(at, [2]string{"publicKeyToken", "0000000000000000"}, [2]string{"language", "*"})
		}
		blocks = append(blocks, xElem{ns: nsAsm1, name: "assemblyIdentity", attrs: at})
	}
	if m.Description != "" || rng.Intn(4) == 0 {
		blocks = append(blocks, xElem{ns: nsAsm1, name: "description", text: w.textOf(m.Description)})
	}
	// systems
	var oss []xElem
	sup := func(id string) {
		oss = append(oss, xElem{ns: nsCompat, name: "supportedOS", attrs: [][2]string{{"Id", id}}})
	}
	if m.Compatibility != winres.Win7AndAbove || rng.Intn(4) > 0 {
		min := int(m.Compatibility) + 1
		sup(val(osIDs[min]))
		for i := min; i < 5; i++ {
			if rng.Intn(2) == 0 {
				sup(val(osIDs[i]))
			}
		}
	}
	for rng.Intn(3) == 0 {
		sup([]string{"{00000000-0000-0000-0000-000000000000}", "{aaaaaaaa-bfb3-4fe8-b9a5-48fd50a15a9a}", "", "windows"}[rng.Intn(4)])
	}
	if len(oss) > 0 || rng.Intn(2) == 0 {
		for _, part := range splitElems(rng, oss) {
			for _, sub := range splitElems(rng, part) {
				blocks = append(blocks, xElem{ns: nsCompat, name: "compatibility", kids: []xElem{{ns: nsCompat, name: "application", kids: sub}}})
			}
		}
	}
	// settings
	var set []xElem
	add := func(year int, name, t string) {
		ns := fmt.Sprintf(nsWS, year)
		set = append(set, xElem{ns: ns, name: name, text: t})
	}
	dpi := ""
	junk := func() string {
		s := []string{"unknown", "", "per-monitor", "v2", "permonitorv3", "permonitorv3withscaling", "unawaregdiscaled", "systemaware", "permonitor v2", "true", "x"}[rng.Intn(11)]
		if rng.Intn(5) == 0 {
			s = strings.Repeat(s+"z", 1+rng.Intn(20))
		}
		if rng.Intn(3) == 0 {
			s = []string{" ", "\n  ", "\t", ""}[rng.Intn(4)] + s + []string{" ", "\n", ""}[rng.Intn(3)]
		}
		return s
	}
	any := []string{"system", "unaware", "permonitor", "permonitorv2", "unknown"}
	list := func(first string) string {
		l := []string{}
		for rng.Intn(4) == 0 {
			l = append(l, junk())
		}
		l = append(l, val(first))
		for rng.Intn(3) == 0 {
			l = append(l, val(any[rng.Intn(len(any))]))
		}
		return strings.Join(l, ",")
	}
	byAware := func(vals ...string) {
		add(2005, "dpiAware", text(vals[rng.Intn(len(vals))]))
		if rng.Intn(4) == 0 {
			add(2016, "dpiAwareness", w.textOf(junk()))
		}
	}
	byAwareness := func(first string) {
		dpi = list(first)
		add(2016, "dpiAwareness", w.textOf(dpi))
		if rng.Intn(2) == 0 {
			add(2005, "dpiAware", text([]string{"true", "false", "true/pm", "per monitor", "x", ""}[rng.Intn(6)]))
		}
	}
	switch m.DPIAwareness {
	case winres.DPIAware:
		if rng.Intn(2) == 0 {
			byAware("true")
		} else {
			byAwareness("system")
		}
	case winres.DPIPerMonitor:
		if rng.Intn(2) == 0 {
			byAware("true/pm", "per monitor")
		} else {
			byAwareness("permonitor")
		}
	case winres.DPIPerMonitorV2:
		byAwareness("permonitorv2")
	default:
		switch rng.Intn(3) {
		case 0:
			byAware("false", "no", "")
		case 1:
			byAwareness("unaware")
		}
	}
	for _, s := range boolSettings {
		if *s.get(m) {
			add(s.year, s.name, text("true"))
		} else if rng.Intn(4) == 0 {
			add(s.year, s.name, text([]string{"false", "", "no", "0", "untrue"}[rng.Intn(5)]))
		}
	}
	if m.SegmentHeap {
		add(2020, "heapType", text("SegmentHeap"))
	} else if rng.Intn(4) == 0 {
		add(2020, "heapType", text([]string{"default", "", "NTHeap"}[rng.Intn(3)]))
	}
	rng.Shuffle(len(set), func(i, j int) { set[i], set[j] = set[j], set[i] })
	if len(set) > 0 || rng.Intn(2) == 0 {
		for _, part := range splitElems(rng, set) {
			var kids []xElem
			for _, sub := range splitElems(rng, part) {
				kids = append(kids, xElem{ns: nsAsm3, name: "windowsSettings", kids: sub})
			}
			blocks = append(blocks, xElem{ns: nsAsm3, name: "application", kids: kids})
		}
	}
	// privileges
	if m.ExecutionLevel != winres.AsInvoker || m.UIAccess || rng.Intn(2) == 0 {
		ns := []string{nsAsm3, nsAsm3, nsAsm2}[rng.Intn(3)]
		e := xElem{ns: ns, name: "requestedExecutionLevel"}
		if m.ExecutionLevel != winres.AsInvoker || rng.Intn(3) > 0 {
			s := val(levelNames[m.ExecutionLevel])
			if m.ExecutionLevel == winres.AsInvoker && rng.Intn(6) == 0 {
				s = "unknown"
			}
			e.attrs = append(e.attrs, [2]string{"level", s})
		}
		if m.UIAccess {
			e.attrs = append(e.attrs, [2]string{"uiAccess", val("true")})
		} else if rng.Intn(2) == 0 {
			e.attrs = append(e.attrs, [2]string{"uiAccess", val([]string{"false", "", "no"}[rng.Intn(3)])})
		}
		blocks = append(blocks, xElem{ns: ns, name: "trustInfo", kids: []xElem{{ns: ns, name: "security", kids: []xElem{{ns: ns, name: "requestedPrivileges", kids: []xElem{e}}}}}})
	}
	// dependencies
	var deps []xElem
	dep := func(name, version, token string) {
		deps = append(deps, xElem{ns: nsAsm1, name: "dependentAssembly", kids: []xElem{{ns: nsAsm1, name: "assemblyIdentity", attrs: [][2]string{{"type", "win32"}, {"name", name}, {"version", version}, {"processorArchitecture", "*"}, {"publicKeyToken", token}, {"language", "*"}}}}})
	}
	cc, tok := "Microsoft.Windows.Common-Controls", "6595b64144ccf1df"
	if m.UseCommonControlsV6 {
		dep(val(cc), []string{"6.0.0.0", " 6.0.0.0", "6.0.1.2"}[rng.Intn(3)], val(tok))
	}
	for rng.Intn(3) == 0 {
		switch rng.Intn(4) {
		case 0:
			dep(cc, "5.82.0.0", tok)
		case 1:
			dep(cc, "6.0.0.0", "1234567890abcdef")
		case 2:
			dep("Microsoft.VC90.CRT", "9.0.21022.8", "1fc8b3b9a1e18e3b")
		case 3:
			dep(cc+".Other", "6.0.0.0", tok)
		}
	}
	rng.Shuffle(len(deps), func(i, j int) { deps[i], deps[j] = deps[j], deps[i] })
	if len(deps) > 0 {
		for _, part := range splitElems(rng, deps) {
			blocks = append(blocks, xElem{ns: nsAsm1, name: "dependency", kids: part})
		}
	}
	// prefixes
	root := xElem{ns: nsAsm1, name: "assembly", attrs: [][2]string{{"manifestVersion", "1.0"}}, kids: blocks}
	names := []string{"asmv1", "asmv2", "asmv3", "compat", "ms", "w05", "w16", "_x", "a-b.c"}
	for i, ns := range []string{nsAsm1, nsAsm2, nsAsm3, nsCompat, fmt.Sprintf(nsWS, 2005), fmt.Sprintf(nsWS, 2016), fmt.Sprintf(nsWS, 2020)} {
		if rng.Intn(3) == 0 {
			w.prefix[ns] = names[i]
			root.attrs = append(root.attrs, [2]string{"xmlns:" + names[i], ns})
		}
	}
	var b strings.Builder
	if rng.Intn(4) == 0 {
		b.WriteString("\uFEFF")
	}
	switch rng.Intn(4) {
	case 0:
	case 1:
		b.WriteString(`<?xml version="1.0"?>`)
	case 2:
		b.WriteString(`<?xml version='1.0' encoding='utf-8' standalone="yes"?>` + "\r\n")
	default:
		b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n")
	}
	b.WriteString(w.space())
	w.write(&b, root, "")
	b.WriteString(w.space())
	if rng.Intn(2) == 0 {
		b.WriteString("\n")
	}
	return b.String()
}

// splitElems cuts a list into one part or more.
func splitElems(rng *rand.Rand, l []xElem) [][]xElem {
	if len(l) < 2 || rng.Intn(2) == 0 {
		return [][]xElem{l}
	}
	n := 1 + rng.Intn(len(l)-1)
	return [][]xElem{l[:n:n], l[n:]}
}

// rootEnd gives the offset at which the end tag of the root element starts,
// or that of its only tag.
func rootEnd(doc string) int {
	d := xml.NewDecoder(strings.NewReader(doc))
	last := 0
	for depth := 0; ; {
		off := int(d.InputOffset())
		t, err := d.Token()
		if err != nil {
			return last
		}
		switch t.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return last
			}
		}
		last = off
		if _, ok := t.(xml.StartElement); !ok {
			last = int(d.InputOffset())
		}
	}
}

func foreignManifests(c *Ctx) {
	rng := c.Rng
	var docs [][]byte
	for i := 0; i < 60; i++ {
		m := genManifest(rng, func() string {
			return genMText(rng, false)
		})
		m.Identity.Name = strings.TrimSpace(m.Identity.Name)
		doc := foreignManifest(rng, &m)
		c.Attach("manifest.xml", []byte(doc))
		docs = append(docs, []byte(doc))
		got, err := winres.AppManifestFromXML([]byte(doc))
		if err != nil {
			c.Failf("refused", "%v\n%s", err, doc)
		}
		if s := sameManifest(got, m, false); s != "" {
			c.Failf("content", "%s\n%s", s, doc)
		}
		c.Event("foreign manifests read", 1)
		c.Nontrivial(doc)
		c.Sample("%s", clip(doc, 500))
		// a broken document is an error
		end := rootEnd(doc)
		if end > 10 {
			cut := doc[:rng.Intn(end)]
			if _, err := winres.AppManifestFromXML([]byte(cut)); err == nil {
				c.Failf("broken-accepted", "a truncated document is accepted:\n%s", cut)
			}
			c.Event("broken documents refused", 1)
		}
	}
	// the documents are well-formed indeed
	for i, d := range expat(docs) {
		if d.Error != "" {
			panic("harness: ill-formed document: " + d.Error + "\n" + string(docs[i]))
		}
	}
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "manifest descriptions with every option and pair of options, and texts made of markup, line breaks, control characters, any Unicode and invalid UTF-8, stored in a set, parsed by expat and compared element by element (path, namespace, attributes, value), then read back; non-trivial: distinct manifest",
		Min:  map[string]int64{"manifests parsed": 5000, "elements compared": 80000, "read back": 5000},
		Families: []Family{
			{"options", 40, 120, manifestsCase(true)},
			{"texts", 120, 4000, manifestsCase(false)},
		},
	})
	register(&Prop{
		ID:   "C27",
		Rule: "manifest descriptions encoded to JSON and decoded into fresh and used targets; JSON written by hand with every spelling, letter case and spacing; spoiled spellings, versions and types must be refused; non-trivial: distinct document",
		Min:  map[string]int64{"JSON round trips": 5000, "spellings accepted": 10000, "spellings refused": 5000, "targets with older content": 1000},
		Families: []Family{
			{"round trips", 200, 8000, jsonManifests},
			{"spellings", 200, 8000, jsonSpellings},
		},
	})
	register(&Prop{
		ID:   "C28",
		Rule: "manifests written as other tools do: prefixes, order, quotes, letter case, spacing, comments, CDATA, character references, unknown elements, attributes and systems, blocks split or repeated, absent parts; read and compared with the description they express; truncated documents must be refused; all documents are checked with expat; non-trivial: distinct document",
		Min:  map[string]int64{"foreign manifests read": 10000, "broken documents refused": 5000},
		Families: []Family{
			{"foreign", 250, 10000, foreignManifests},
		},
	})
}
