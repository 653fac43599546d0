package main

import (
	"bytes"
	"debug/pe"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/tc-hib/winres"
)

// C02: object files read by several COFF readers, and linked for real.

// coffChecks applies the harness's own reader and Go's.
func coffChecks(c *Ctx, obj []byte, arch string, m model) *coffObj {
	fail := func(sig, format string, a ...interface{}) {
		c.Attach("obj", obj)
		c.Failf(sig, "%s: %s (%s)", arch, fmt.Sprintf(format, a...), m.describe())
	}
	o, err := parseCOFF(obj, arch)
	if err != nil {
		fail("coff", "%v", err)
	}
	t, err := decodeRsrc(o.link(0), 0, false)
	if err != nil {
		fail("directory", "%v", err)
	}
	if err := o.checkRelocSites(t); err != nil {
		fail("reloc-sites", "%v", err)
	}
	if len(o.relocs) != len(m) {
		fail("reloc-count", "%d relocations for %d resources", len(o.relocs), len(m))
	}
	f, err := pe.NewFile(bytes.NewReader(obj))
	if err != nil {
		fail("debug-pe", "debug/pe: %v", err)
	}
	if f.Machine != archMachine[arch] || f.OptionalHeader != nil || len(f.Sections) != 1 || f.Sections[0].Name != ".rsrc" {
		fail("debug-pe", "debug/pe: machine %#x, %d sections", f.Machine, len(f.Sections))
	}
	if n := len(f.Sections[0].Relocs); n != len(m) {
		fail("debug-pe", "debug/pe: %d relocations for %d resources", n, len(m))
	}
	d, err := f.Sections[0].Data()
	if err != nil || !bytes.Equal(d, o.section) {
		fail("debug-pe", "debug/pe: section data: %d bytes (%v)", len(d), err)
	}
	for _, r := range f.Sections[0].Relocs {
		if int(r.SymbolTableIndex) >= len(f.COFFSymbols) {
			fail("debug-pe", "debug/pe: symbol %d of %d", r.SymbolTableIndex, len(f.COFFSymbols))
		}
		if n, err := f.COFFSymbols[r.SymbolTableIndex].FullName(f.StringTable); err != nil || n != ".rsrc" {
			fail("debug-pe", "debug/pe: relocation against %q (%v)", n, err)
		}
	}
	c.Event("objects parsed", 1)
	c.Event("relocations checked", len(o.relocs))
	return o
}

func coffCase(c *Ctx) {
	m := genModelFit(c.Rng)
	rs := m.build(c, c.Rng)
	for _, a := range archs {
		coffChecks(c, writeObj(c, rs, a), a, m)
	}
	noteModel(c, m)
	c.Nontrivial(m.describe(), len(m), m.totalSize())
	c.Sample("%s", m.describe())
}

// coffMega: as many resources as an object can list.
func coffMega(c *Ctx) {
	specs := megaSpecs()
	s := specs[c.Index%len(specs)]
	if !s.ok {
		return
	}
	m := model{}
	s.mk(m)
	a := archs[c.Index%4]
	coffChecks(c, writeObj(c, m.build(c, c.Rng), a), a, m)
	c.Event("objects at the limits", 1)
	c.Nontrivial(s.name)
}

// coffCounts: the number of resources at and around the powers of two.
func coffCounts(c *Ctx) {
	e := uint(1 + (c.Index/3)%16)
	n := 1<<e - 1 + c.Index%3
	if n > 65535 {
		n = 65535 - c.Rng.Intn(3)
	}
	m := model{}
	first := uint16(c.Rng.Intn(65536))
	types := 1 + c.Rng.Intn(3)
	for i := 0; i < n; i++ {
		k := rkey{idn(uint16(1 + i%types)), idn(uint16(1 + (i/types)%40000)), 0x409 + uint16(i/types/40000)}
		if c.Index%2 == 1 {
			k = rkey{nam("T"), nam(fmt.Sprintf("R%d", i%types)), first + uint16(i/types)}
		}
		m[k] = []byte{byte(i)}
	}
	a := archs[c.Rng.Intn(4)]
	coffChecks(c, writeObj(c, m.build(c, c.Rng), a), a, m)
	c.Event("objects with a count near a power of two", 1)
	c.Nontrivial(n, c.Index%2)
	c.Sample("%d resources, %d types", n, types)
}

var llvmReloc = map[string]string{"386": "IMAGE_REL_I386_DIR32NB", "amd64": "IMAGE_REL_AMD64_ADDR32NB", "arm": "IMAGE_REL_ARM_ADDR32NB", "arm64": "IMAGE_REL_ARM64_ADDR32NB"}
var llvmMachine = map[string]string{"386": "IMAGE_FILE_MACHINE_I386 ", "amd64": "IMAGE_FILE_MACHINE_AMD64 ", "arm": "IMAGE_FILE_MACHINE_ARMNT ", "arm64": "IMAGE_FILE_MACHINE_ARM64 "}

// coffReadobj has llvm-readobj read a batch of objects.
func coffReadobj(c *Ctx) {
	if _, err := exec.LookPath("llvm-readobj"); err != nil {
		c.Event("llvm-readobj unavailable", 1)
		return
	}
	dir, clean := scratchDir()
	defer clean()
	const n = 24
	var ms []model
	args := []string{"--file-headers", "--section-headers", "--section-relocations", "--symbols"}
	for i := 0; i < n; i++ {
		m := genModel(c.Rng)
		ms = append(ms, m)
		p := filepath.Join(dir, fmt.Sprintf("o%d.obj", i))
		if err := os.WriteFile(p, writeObj(c, m.build(c, c.Rng), archs[i%4]), 0o666); err != nil {
			panic(err)
		}
		args = append(args, p)
	}
	var se bytes.Buffer
	cmd := exec.Command("llvm-readobj", args...)
	cmd.Stderr = &se
	so, err := cmd.Output()
	if err != nil || se.Len() > 0 {
		c.Failf("readobj", "llvm-readobj: %v\n%s", err, clip(se.String(), 2000))
	}
	blocks := strings.Split(string(so), "\nFile: ")[1:]
	if len(blocks) != n {
		panic(fmt.Sprintf("harness: llvm-readobj lists %d files", len(blocks)))
	}
	for i, b := range blocks {
		a, m := archs[i%4], ms[i]
		for _, w := range []string{"Machine: " + llvmMachine[a], "SectionCount: 1\n", "Name: .rsrc (", fmt.Sprintf("RelocationCount: %d\n", len(m)),
			"Name: .rsrc\n", "Section: .rsrc (1)", "StorageClass: Static", "IMAGE_SCN_CNT_INITIALIZED_DATA", "IMAGE_SCN_MEM_READ", "OptionalHeaderSize: 0\n"} {
			if !strings.Contains(b, w) {
				c.Failf("readobj", "%s: llvm-readobj does not tell %q\n%s\n%s", a, w, m.describe(), clip(b, 3000))
			}
		}
		if k := strings.Count(b, llvmReloc[a]+" .rsrc "); k != len(m) || strings.Count(b, "IMAGE_REL_") != k {
			c.Failf("readobj", "%s: llvm-readobj tells %d relocations %s, want %d\n%s\n%s", a, k, llvmReloc[a], len(m), m.describe(), clip(b, 3000))
		}
		c.Event("objects read by llvm-readobj", 1)
	}
	c.Nontrivial(c.Index)
}

// linkedResources reads a linked executable.
func linkedResources(c *Ctx, exe []byte, m model, what string) {
	fail := func(sig, format string, a ...interface{}) {
		c.Attach("linked.exe", exe)
		c.Failf(sig, "%s: %s (%s)", what, fmt.Sprintf(format, a...), m.describe())
	}
	p, err := parsePE(exe)
	if err != nil {
		panic("harness: linked executable: " + err.Error())
	}
	t, err := p.resources(true)
	if err != nil {
		fail("linked-resources", "%v", err)
	}
	if s := compareEntries(t.entries, m); s != "" {
		fail("linked-resources", "%s", s)
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		fail("linked-load", "LoadFromEXE: %v", err)
	}
	if s := checkSet(rs, m); s != "" {
		fail("linked-load", "LoadFromEXE: %s", s)
	}
	c.Event("resources found in linked executables", len(m))
}

// genLinkModel gives a non-empty set.
func genLinkModel(c *Ctx) model {
	for {
		m := genModelFit(c.Rng)
		if len(m) > 0 {
			return m
		}
	}
}

// coffLLD links objects with lld, of four machines.
func coffLLD(c *Ctx) {
	arch := archs[c.Index%4]
	start := filepath.Join(os.Getenv("VRUN_REAL"), "start-"+arch+".obj")
	if _, err := os.Stat(start); err != nil {
		c.Event("lld unavailable", 1)
		return
	}
	dir, clean := scratchDir()
	defer clean()
	m := genLinkModel(c)
	obj := filepath.Join(dir, "r.obj")
	b := writeObj(c, m.build(c, c.Rng), arch)
	if err := os.WriteFile(obj, b, 0o666); err != nil {
		panic(err)
	}
	exe := filepath.Join(dir, "r.exe")
	args := []string{"/nologo", "/nodefaultlib", "/entry:start", "/subsystem:console", "/safeseh:no", "/out:" + exe}
	in := []string{start, obj}
	if c.Rng.Intn(2) == 0 {
		in[0], in[1] = in[1], in[0]
	}
	switch c.Rng.Intn(6) {
	case 0:
		args = append(args, "/opt:ref", "/opt:icf")
	case 1:
		args = append(args, "/opt:noref")
	case 2:
		if arch == "386" || arch == "amd64" {
			args = append(args, "/dynamicbase:no")
		}
	case 3:
		args = append(args, "/align:8192")
	case 4:
		args = append(args, "/dll")
	}
	var se bytes.Buffer
	cmd := exec.Command("lld-link", append(args, in...)...)
	cmd.Stderr, cmd.Stdout = &se, &se
	if err := cmd.Run(); err != nil {
		c.Attach("obj", b)
		c.Failf("lld", "%s: lld-link: %v\n%s\n%s", arch, err, clip(se.String(), 2000), m.describe())
	}
	x, err := os.ReadFile(exe)
	if err != nil {
		panic(err)
	}
	linkedResources(c, x, m, "lld "+arch)
	c.Event("lld links "+arch, 1)
	c.Nontrivial(m.describe(), args)
	c.Sample("lld %s %v: %s", arch, args[6:], m.describe())
}

// coffGo links objects with the Go linker.
func coffGo(c *Ctx) {
	arch := []string{"amd64", "386", "arm64"}[c.Index%3]
	if _, err := exec.LookPath("go"); err != nil || os.Getenv("VRUN_REAL") == "" {
		c.Event("go unavailable", 1)
		return
	}
	dir, clean := scratchDir()
	defer clean()
	m := genLinkModel(c)
	b := writeObj(c, m.build(c, c.Rng), arch)
	for n, s := range map[string]string{
		"go.mod":                         "module m\ngo 1.20\n",
		"main.go":                        "package main\n\nfunc main() { println(1) }\n",
		"rsrc_windows_" + arch + ".syso": string(b),
	} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0o666); err != nil {
			panic(err)
		}
	}
	args := []string{"build", "-o", "x.exe"}
	if c.Index/3%2 == 1 {
		args = append(args, "-ldflags=-s -w")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "GOOS=windows", "GOARCH="+arch, "CGO_ENABLED=0", "GOCOVERDIR=")
	var se bytes.Buffer
	cmd.Stderr, cmd.Stdout = &se, &se
	if err := cmd.Run(); err != nil {
		// a reference build tells whether the toolchain is able to
		os.Remove(filepath.Join(dir, "rsrc_windows_"+arch+".syso"))
		ref := exec.Command("go", append(args, ".")...)
		ref.Dir, ref.Env = dir, cmd.Env
		if out, err := ref.CombinedOutput(); err != nil {
			c.Event("go unavailable", 1)
			c.Sample("go %s: %s", arch, out)
			return
		}
		c.Attach("obj", b)
		c.Failf("golink", "%s: go build: %v\n%s\n%s", arch, err, clip(se.String(), 2000), m.describe())
	}
	x, err := os.ReadFile(filepath.Join(dir, "x.exe"))
	if err != nil {
		panic(err)
	}
	linkedResources(c, x, m, "go "+arch)
	c.Event("Go links", 1)
	c.Nontrivial(m.describe(), arch)
	c.Sample("go %s %v: %s", arch, args[3:], m.describe())
}

func init() {
	register(&Prop{
		ID:   "C02",
		Rule: "objects for four machines, decoded by a COFF reader of the harness and by debug/pe (headers, layout of the file, section, symbol, one relocation per data entry), by llvm-readobj, and linked by lld and the Go linker into executables whose resources are read back; non-trivial: distinct set",
		Min:  map[string]int64{"objects parsed": 2000, "relocations checked": 20000, "objects at the limits": 4, "objects with a count near a power of two": 40},
		Families: []Family{
			{"objects", 700, 20000, coffCase},
			{"limits", len(megaSpecs()), len(megaSpecs()), coffMega},
			{"counts", 48, 480, coffCounts},
			{"readobj", 16, 400, coffReadobj},
			{"lld", 60, 3000, coffLLD},
			{"go", 6, 150, coffGo},
		},
	})
}
