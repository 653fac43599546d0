package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"runtime"

	"github.com/tc-hib/winres"
)

// C11: nothing given as an executable makes the library crash, hang, or use memory out of proportion.

// countingWriter counts, and stops a writer that never ends.
type countingWriter struct {
	n, max int64
}

type errTooMuch struct{}

func (errTooMuch) Error() string { return "harness: too much output" }

func (w *countingWriter) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	if w.n > w.max {
		return 0, errTooMuch{}
	}
	return len(p), nil
}

const (
	memConst  = 48 << 20
	memFactor = 400
)

// watch runs f and returns what it allocated.
func watch(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// hostileInput gives b to every function that takes an executable.
func hostileInput(c *Ctx, b []byte, desc string) {
	c.Attach("input.exe", b)
	limit := uint64(memConst + memFactor*len(b))
	step := func(name string, f func() string) {
		var res string
		n := watch(func() { res = f() })
		c.Event(name+" "+res, 1)
		c.Event("calls", 1)
		if n > limit {
			c.Failf("memory:"+name, "%s allocated %d bytes for an input of %d (%s)", name, n, len(b), desc)
		}
	}
	src := func() io.ReadSeeker {
		if c.Index%3 == 0 {
			return plainRS{bytes.NewReader(b)}
		}
		return bytes.NewReader(b)
	}
	outcome := func(err error) string {
		if err != nil {
			return "error"
		}
		return "result"
	}
	// refused watches what every function says of a file that is no PE image at all.
	notPE := notImage(b)
	refused := func(name string, err error) {
		if notPE == "" {
			return
		}
		c.Event("refusals of files that are no PE images", 1)
		if err == nil || err == winres.ErrNoResources {
			c.Failf("not-refused:"+name, "%s returns %v for a file that is no PE image: %s (%s)", name, err, notPE, desc)
		}
	}
	var loaded *winres.ResourceSet
	step("LoadFromEXE", func() string {
		rs, err := winres.LoadFromEXE(src())
		refused("LoadFromEXE", err)
		if err == nil && rs == nil {
			c.Failf("nil-set", "LoadFromEXE returns neither a set nor an error (%s)", desc)
		}
		loaded = rs
		return outcome(err)
	})
	types := []winres.Identifier{winres.ID(14), winres.ID(12), winres.ID(1 + c.Rng.Intn(30)), winres.Name("X")}
	step("LoadFromEXESingleType", func() string {
		rs, err := winres.LoadFromEXESingleType(src(), types[c.Rng.Intn(len(types))])
		refused("LoadFromEXESingleType", err)
		if err == nil && rs == nil {
			c.Failf("nil-set", "LoadFromEXESingleType returns neither a set nor an error (%s)", desc)
		}
		return outcome(err)
	})
	step("IsSignedEXE", func() string {
		_, err := winres.IsSignedEXE(src())
		refused("IsSignedEXE", err)
		return outcome(err)
	})
	rs := &winres.ResourceSet{}
	size := 0
	for i, n := 0, c.Rng.Intn(3); i < n; i++ {
		d := randBytes(c.Rng, c.Rng.Intn(5000))
		size += len(d)
		rs.Set(winres.ID(1+c.Rng.Intn(20)), winres.ID(1+c.Rng.Intn(20)), 0, d)
	}
	o := patchOpts{force: c.Rng.Intn(2) == 0, auth: c.Rng.Intn(3)}
	step("WriteToEXE", func() string {
		// sections are aligned, on up to 64 KB
		w := &countingWriter{max: int64(len(b)) + int64(size) + 1<<20}
		err := patchTo(w, src(), rs, o)
		refused("WriteToEXE", err)
		if w.n > w.max {
			c.Failf("endless-output", "WriteToEXE writes more than %d bytes, for an input of %d and resources of %d (%s)", w.max, len(b), size, desc)
		}
		if err != nil && w.n > 0 {
			c.Failf("partial-output", "WriteToEXE fails with %q after writing %d bytes (%s)", err, w.n, desc)
		}
		return outcome(err)
	})
	if loaded != nil {
		// what was loaded must be usable
		n := loaded.Count()
		c.Event("resources loaded from hostile input", n)
		m := 0
		loaded.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool { m++; return true })
		if m != n {
			c.Failf("loaded-unusable", "Count is %d, Walk sees %d (%s)", n, m, desc)
		}
		if n < 2000 {
			loaded.WriteObject(&countingWriter{max: 64 << 20}, winres.ArchAMD64)
		}
	}
}

var evil32 = []uint32{0, 1, 2, 3, 4, 7, 8, 16, 40, 63, 64, 0xFF, 0x100, 0x1FF, 0x200, 0x201, 0xFFF, 0x1000, 0x1001, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x10001,
	0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFF00, 0xFFFFF000, 0xFFFF0000, 0xF0000000, 0x40000000, 0xC0000040, 0xC0000080}

func evil(rng *rand.Rand, near uint32) uint32 {
	switch rng.Intn(5) {
	case 0:
		return near + uint32(rng.Intn(9)) - 4
	case 1:
		return -near
	case 2:
		return rng.Uint32()
	case 3:
		return near ^ 1<<uint(rng.Intn(32))
	}
	return evil32[rng.Intn(len(evil32))]
}

type fieldRef struct {
	name string
	off  int
	size int
}

// headerFields lists the fields of the headers of an image.
func headerFields(p *pImage) []fieldRef {
	l := []fieldRef{{"e_magic", 0, 2}, {"e_lfanew", 0x3C, 4}}
	f := p.lfanew
	l = append(l, fieldRef{"signature", f, 4}, fieldRef{"Machine", f + 4, 2}, fieldRef{"NumberOfSections", f + 6, 2}, fieldRef{"PointerToSymbolTable", f + 12, 4},
		fieldRef{"NumberOfSymbols", f + 16, 4}, fieldRef{"SizeOfOptionalHeader", f + 20, 2})
	o := p.optOff
	l = append(l, fieldRef{"Magic", o, 2}, fieldRef{"SizeOfInitializedData", o + 8, 4}, fieldRef{"SectionAlignment", o + 32, 4}, fieldRef{"FileAlignment", o + 36, 4},
		fieldRef{"SizeOfImage", o + 56, 4}, fieldRef{"SizeOfHeaders", o + 60, 4}, fieldRef{"CheckSum", o + 64, 4}, fieldRef{"NumberOfRvaAndSizes", p.dirsOff - 4, 4})
	for i := range p.dirs {
		if i < 6 || i == 11 {
			l = append(l, fieldRef{fmt.Sprintf("dir%d.va", i), p.dirsOff + 8*i, 4}, fieldRef{fmt.Sprintf("dir%d.size", i), p.dirsOff + 8*i + 4, 4})
		}
	}
	s := p.dirsOff + 8*len(p.dirs)
	for i := range p.secs {
		if i > 8 {
			break
		}
		h := s + 40*i
		for _, x := range []struct {
			n string
			o int
		}{{"VirtualSize", 8}, {"VirtualAddress", 12}, {"SizeOfRawData", 16}, {"PointerToRawData", 20}, {"Characteristics", 36}} {
			l = append(l, fieldRef{fmt.Sprintf("sec%d.%s", i, x.n), h + x.o, 4})
		}
	}
	return l
}

func mutateField(rng *rand.Rand, b []byte, f fieldRef, p *pImage) string {
	var old uint32
	if f.size == 2 {
		old = uint32(le.Uint16(b[f.off:]))
	} else {
		old = le.Uint32(b[f.off:])
	}
	v := evil(rng, old)
	if rng.Intn(4) == 0 { // values of other fields, sizes
		c := []uint32{uint32(len(b)), uint32(len(b)) - 1, uint32(len(b)) + 1, p.minPtr, p.maxRawEnd, uint32(p.hdrEnd), p.dirs[2].va, p.dirs[5].va, p.sizeOfImage}
		v = c[rng.Intn(len(c))]
	}
	if f.size == 2 {
		le.PutUint16(b[f.off:], uint16(v))
	} else {
		le.PutUint32(b[f.off:], v)
	}
	return fmt.Sprintf("%s %#x->%#x", f.name, old, v)
}

func hostileHeaders(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	b := spec.build()
	p := mustParse(b)
	fields := headerFields(p)
	desc := ""
	for i, n := 0, 1+c.Rng.Intn(3); i < n; i++ {
		desc += mutateField(c.Rng, b, fields[c.Rng.Intn(len(fields))], p) + "; "
	}
	if c.Rng.Intn(8) == 0 {
		b = b[:c.Rng.Intn(len(b)+1)]
		desc += "cut; "
	}
	c.Sample("%s on %s", desc, spec.desc)
	hostileInput(c, b, desc+spec.desc)
	c.Nontrivial(desc, len(b))
}

// hostileEach sets every field of the headers to every evil value in turn.
func hostileEach(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	src := spec.build()
	p := mustParse(src)
	fields := headerFields(p)
	f := fields[c.Index%len(fields)]
	for _, v := range evil32 {
		b := append([]byte{}, src...)
		if f.size == 2 {
			le.PutUint16(b[f.off:], uint16(v))
		} else {
			le.PutUint32(b[f.off:], v)
		}
		hostileInput(c, b, fmt.Sprintf("%s=%#x on %s", f.name, v, spec.desc))
		c.Nontrivial(f.name, v, len(src))
	}
}

// notImage tells why b is no PE image, whatever its other fields are.
// It returns "" if it might be one.
func notImage(b []byte) string {
	if len(b) < 0x40 || string(b[:2]) != "MZ" {
		return "no DOS header"
	}
	o := int64(le.Uint32(b[0x3C:]))
	if o+26 > int64(len(b)) {
		return "no PE header"
	}
	if string(b[o:o+4]) != "PE\x00\x00" {
		return fmt.Sprintf("signature %q", b[o:o+4])
	}
	if m := le.Uint16(b[o+24:]); m != 0x10B && m != 0x20B {
		return fmt.Sprintf("optional header %#x", m)
	}
	return ""
}

// hostileKinds: files of other kinds, that look very much like PE images.
func hostileKinds(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	b := spec.build()
	p := mustParse(b)
	desc := ""
	// the three places that make it an image
	place := []struct{ off, n int }{{0, 2}, {p.lfanew, 4}, {p.optOff, 2}}[c.Index%3]
	at := b[place.off : place.off+place.n]
	old := string(at)
	for string(at) == old || notImage(b) == "" {
		copy(at, old)
		switch c.Rng.Intn(3) {
		case 0: // one bit
			at[c.Rng.Intn(len(at))] ^= 1 << c.Rng.Intn(8)
		case 1: // one byte
			at[c.Rng.Intn(len(at))] = byte(c.Rng.Intn(256))
		case 2: // other known kinds
			l := [][]string{
				{"ZM", "\x7fE", "PE", "NE", "M\x00", "\x00Z", "mz", "MX"},
				{"NE\x00\x00", "LE\x00\x00", "LX\x00\x00", "PE\x01\x00", "PE\x00\x01", "PE\x4c\x01", "pe\x00\x00", "PX\x00\x00", "XE\x00\x00", "PE  ", "EP\x00\x00", "\x00\x00PE", "MZ\x00\x00", "\x00\x00\x00\x00"},
				{"\x07\x01", "\x0b\x00", "\x0b\x03", "\x0b\x04", "\x0b\x11", "\x0b\x12", "\x0b\xff", "\x00\x01", "\x00\x02", "\x0a\x01", "\x0c\x02", "\x01\x0b", "\x02\x0b", "\x00\x00", "\x8b\x01", "\x1b\x02"},
			}[c.Index%3]
			copy(at, l[c.Rng.Intn(len(l))])
		}
	}
	desc = fmt.Sprintf("%q instead of %q at %#x", at, old, place.off)
	c.Sample("%s on %s", desc, spec.desc)
	c.Event("files that are almost PE images", 1)
	hostileInput(c, b, desc+" on "+spec.desc)
	c.Nontrivial(desc, len(b))
}

func hostileBytes(c *Ctx) {
	var b []byte
	switch c.Rng.Intn(4) {
	case 0:
		b = randBytes(c.Rng, c.Rng.Intn(2000))
		if len(b) > 2 {
			copy(b, "MZ")
		}
	case 1: // cut anywhere
		spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
		b = spec.build()
		if c.Rng.Intn(2) == 0 {
			b = b[:c.Rng.Intn(len(b))]
		} else {
			b = b[:c.Rng.Intn(int(spec.hdrEnd)+10)]
		}
	case 2:
		spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
		b = spec.build()
		for i, n := 0, 1+c.Rng.Intn(20); i < n; i++ {
			b[c.Rng.Intn(int(spec.hdrEnd))] = byte(c.Rng.Intn(256))
		}
	case 3: // headers alone
		spec := genPE(c.Rng, peProfile{keepSmall: true})
		b = spec.build()[:spec.hdrEnd]
	}
	hostileInput(c, b, "bytes")
	c.Nontrivial(b)
}

// hostileRSRC corrupts the resource section itself.
func hostileRSRC(c *Ctx) {
	spec := genPE(c.Rng, peProfile{keepSmall: true, rsrcPos: []string{"last", "middle", "beforereloc"}[c.Rng.Intn(3)]})
	b := spec.build()
	p := mustParse(b)
	i := p.rsrcIndex()
	s := p.secs[i]
	n := int(s.raw)
	if n > 600 && c.Rng.Intn(2) == 0 {
		n = 600
	}
	desc := ""
	for k, m := 0, 1+c.Rng.Intn(6); k < m; k++ {
		off := c.Rng.Intn(n/4) * 4
		o := int(s.ptr) + off
		if c.Rng.Intn(3) == 0 {
			x := 12 + 2*c.Rng.Intn(2)
			off = x
			le.PutUint16(b[int(s.ptr)+x:], uint16(evil(c.Rng, uint32(le.Uint16(b[int(s.ptr)+x:])))))
		} else {
			v := evil(c.Rng, le.Uint32(b[o:]))
			if c.Rng.Intn(3) == 0 {
				v = uint32(c.Rng.Intn(n)) | uint32(c.Rng.Intn(2))<<31
			}
			le.PutUint32(b[o:], v)
		}
		desc += fmt.Sprintf("rsrc+%#x; ", off)
	}
	hostileInput(c, b, desc+spec.desc)
	c.Nontrivial(b)
}

type rsrcField struct {
	kind string // count, id, name, offset, rva, size, length
	off  uint32
	n    int // bytes
}

// rsrcFields finds the fields of a well-formed resource section.
func rsrcFields(d []byte) []rsrcField {
	var l []rsrcField
	seen := map[uint32]bool{}
	var table func(off uint32, depth int)
	table = func(off uint32, depth int) {
		if seen[off] || int(off)+16 > len(d) {
			return
		}
		seen[off] = true
		n := uint32(le.Uint16(d[off+12:])) + uint32(le.Uint16(d[off+14:]))
		l = append(l, rsrcField{"count", off + 12, 2}, rsrcField{"count", off + 14, 2})
		for i := uint32(0); i < n && int(off+24+8*i) <= len(d); i++ {
			e := off + 16 + 8*i
			id, to := le.Uint32(d[e:]), le.Uint32(d[e+4:])
			l = append(l, rsrcField{"id", e, 4}, rsrcField{"offset", e + 4, 4})
			if id>>31 != 0 {
				l = append(l, rsrcField{"length", id & 0x7FFFFFFF, 2})
			}
			if to>>31 != 0 && depth < 2 {
				table(to&0x7FFFFFFF, depth+1)
			} else if to>>31 == 0 && int(to)+16 <= len(d) {
				l = append(l, rsrcField{"rva", to, 4}, rsrcField{"size", to + 4, 4})
			}
		}
	}
	table(0, 0)
	return l
}

// hostileEntries sets fields of the resource section, each at the edges of what it may be.
func hostileEntries(c *Ctx) {
	rng := c.Rng
	spec := genPE(rng, peProfile{keepSmall: true, rsrcPos: []string{"last", "middle", "beforereloc"}[rng.Intn(3)]})
	b := spec.build()
	p := mustParse(b)
	s := p.secs[p.rsrcIndex()]
	sec := b[s.ptr : s.ptr+s.raw]
	fields := rsrcFields(sec)
	desc := ""
	near := func() uint32 { return uint32(rng.Intn(5)) - 2 }
	for k, m := 0, 1+rng.Intn(2); k < m; k++ {
		f := fields[rng.Intn(len(fields))]
		if rng.Intn(2) == 0 { // data entries are the fewest
			for try := 0; try < 20 && f.kind != "rva" && f.kind != "size"; try++ {
				f = fields[rng.Intn(len(fields))]
			}
		}
		if int(f.off)+f.n > len(sec) {
			continue
		}
		var v uint32
		top := []uint32{0, 1 << 31}[rng.Intn(2)]
		switch f.kind {
		case "count":
			v = []uint32{0, 1, 0x7FFF, 0x8000, 0xFFFF, uint32(le.Uint16(sec[f.off:])) + near(), s.raw / 8, s.raw/8 + near(), (s.raw - f.off) / 8}[rng.Intn(9)]
		case "id", "offset":
			v = []uint32{0, s.raw + near(), s.raw - 16 + near(), s.raw - 8 + near(), f.off, f.off &^ 15, 0x7FFFFFFF + near(), 0x7FFFFFFF - s.raw + near(), le.Uint32(sec[f.off:]) + near(), uint32(rng.Intn(int(s.raw)))}[rng.Intn(10)]
			v = v&0x7FFFFFFF | top
			if rng.Intn(3) > 0 {
				v = v&0x7FFFFFFF | le.Uint32(sec[f.off:])&(1<<31)
			}
		case "length":
			v = []uint32{0, 1, 0x7FFF, 0x8000, 0xFFFF, (s.raw - f.off) / 2, (s.raw-f.off)/2 + near()}[rng.Intn(7)]
		case "rva":
			v = s.va + []uint32{0, 1, near(), s.raw + near(), s.vsize + near(), 1 << 31, 1<<31 + near(), -s.va, -s.va + near(), 0xFFFFFFFF - s.va, s.raw - le.Uint32(sec[f.off+4:]) + near(), -le.Uint32(sec[f.off+4:]) + near()}[rng.Intn(12)]
		case "size":
			rva := le.Uint32(sec[f.off-4:]) - s.va
			v = []uint32{s.raw - rva + near(), s.raw + near(), -rva + near(), -rva + uint32(rng.Intn(int(s.raw))), 0xFFFFFFFF + near(), 1<<31 + near(), 1<<31 - rva + near(), s.vsize - rva + near(), -s.va - rva + near(), 0xFFFFFFFF - uint32(rng.Intn(int(s.raw)))}[rng.Intn(10)]
		}
		if f.n == 2 {
			le.PutUint16(sec[f.off:], uint16(v))
		} else {
			le.PutUint32(sec[f.off:], v)
		}
		desc += fmt.Sprintf("%s at rsrc+%#x = %#x; ", f.kind, f.off, v)
		c.Event("fields of resource sections set: "+f.kind, 1)
	}
	hostileInput(c, b, desc+spec.desc)
	c.Nontrivial(b)
}

// exeWithRSRC makes a small image whose resource section holds the given bytes.
func exeWithRSRC(rng *rand.Rand, mk func(rva uint32) []byte) []byte {
	const fa, sa = 0x200, 0x1000
	data := mk(0x2000)
	raw := align32(uint32(len(data)), fa)
	b := make([]byte, 0x600+raw)
	copy(b, "MZ")
	le.PutUint32(b[0x3C:], 0x40)
	copy(b[0x40:], "PE\x00\x00")
	f := b[0x44:]
	le.PutUint16(f, 0x8664)
	le.PutUint16(f[2:], 2)
	le.PutUint16(f[16:], 112+128)
	le.PutUint16(f[18:], 0x22)
	o := b[0x58:]
	le.PutUint16(o, 0x20b)
	le.PutUint32(o[8:], raw)
	le.PutUint32(o[32:], sa)
	le.PutUint32(o[36:], fa)
	le.PutUint32(o[56:], align32(0x2000+raw, sa))
	le.PutUint32(o[60:], 0x400)
	le.PutUint32(o[108:], 16)
	le.PutUint32(o[112+16:], 0x2000)
	le.PutUint32(o[112+20:], uint32(len(data)))
	s := o[240:]
	copy(s, ".text")
	le.PutUint32(s[8:], 0x100)
	le.PutUint32(s[12:], 0x1000)
	le.PutUint32(s[16:], 0x200)
	le.PutUint32(s[20:], 0x400)
	le.PutUint32(s[36:], 0x60000020)
	s = s[40:]
	copy(s, ".rsrc")
	le.PutUint32(s[8:], uint32(len(data)))
	le.PutUint32(s[12:], 0x2000)
	le.PutUint32(s[16:], raw)
	le.PutUint32(s[20:], 0x600)
	le.PutUint32(s[36:], 0x40000040)
	copy(b[0x600:], data)
	return b
}

// hostileShared builds sections where a few bytes are designated again and again.
func hostileShared(c *Ctx) {
	rng := c.Rng
	var kind string
	b := exeWithRSRC(rng, func(rva uint32) []byte {
		n1, n2, n3 := 1, 1, 1
		dataLen, nameLen := 8, 0
		switch c.Index % 5 {
		case 0:
			kind, n1, n2, n3 = "shared tables", 20+rng.Intn(150), 20+rng.Intn(150), 20+rng.Intn(150)
			if rng.Intn(2) == 0 { // about as many as may be
				n1, n2, n3 = 30+rng.Intn(14), 30+rng.Intn(14), 30+rng.Intn(14)
			}
		case 1:
			kind, n3, dataLen = "shared data", 500+rng.Intn(1500), 100000+rng.Intn(100000)
		case 2:
			kind, n2, nameLen = "overlapping names", 500+rng.Intn(1500), 30000+rng.Intn(30000)
		case 3:
			kind, n1, n2, dataLen = "shared tables and data", 200+rng.Intn(200), 200+rng.Intn(200), 50000
		case 4:
			kind, n1, n2, nameLen = "one long name", 30+rng.Intn(30), 30+rng.Intn(30), 60000
		}
		root := 0
		res := root + 16 + 8*n1
		lang := res + 16 + 8*n2
		leaf := lang + 16 + 8*n3
		data := leaf + 16*n3
		name := data + dataLen
		total := name + 2 + 2*nameLen
		if kind == "overlapping names" {
			total += 2 * n2
		}
		d := make([]byte, total+64)
		for i := range d[data:] {
			d[data+i] = byte(i)
		}
		table := func(off, n int, named bool, f func(i int) (uint32, uint32)) {
			if named {
				le.PutUint16(d[off+12:], uint16(n))
			} else {
				le.PutUint16(d[off+14:], uint16(n))
			}
			for i := 0; i < n; i++ {
				a, b := f(i)
				le.PutUint32(d[off+16+8*i:], a)
				le.PutUint32(d[off+20+8*i:], b)
			}
		}
		table(root, n1, false, func(i int) (uint32, uint32) { return uint32(i + 1), 1<<31 | uint32(res) })
		table(res, n2, nameLen > 0, func(i int) (uint32, uint32) {
			if nameLen == 0 {
				return uint32(i + 1), 1<<31 | uint32(lang)
			}
			if kind == "one long name" {
				return 1<<31 | uint32(name), 1<<31 | uint32(lang)
			}
			return 1<<31 | uint32(name+2*i), 1<<31 | uint32(lang)
		})
		table(lang, n3, false, func(i int) (uint32, uint32) { return uint32(i), uint32(leaf + 16*i) })
		for i := 0; i < n3; i++ {
			le.PutUint32(d[leaf+16*i:], rva+uint32(data))
			le.PutUint32(d[leaf+16*i+4:], uint32(dataLen-i%4))
		}
		if nameLen > 0 {
			for o := name; o+1 < len(d); o += 2 {
				le.PutUint16(d[o:], uint16(nameLen))
			}
		}
		return d
	})
	c.Event("overlapping structures: "+kind, 1)
	hostileInput(c, b, kind)
	c.Nontrivial(kind, len(b))
	c.Sample("%s, %d bytes", kind, len(b))
}

// hostileLoop makes directories that contain themselves.
func hostileLoop(c *Ctx) {
	rng := c.Rng
	b := exeWithRSRC(rng, func(rva uint32) []byte {
		d := make([]byte, 16+8*(1+rng.Intn(2000))+64)
		n := (len(d) - 64 - 16) / 8
		names := rng.Intn(n + 1)
		le.PutUint16(d[12:], uint16(names))
		le.PutUint16(d[14:], uint16(n-names))
		for i := 0; i < n; i++ {
			id := uint32(1 + i)
			if i < names {
				id = 1<<31 | uint32(16+8*rng.Intn(n))
			}
			le.PutUint32(d[16+8*i:], id)
			t := uint32(0)
			if rng.Intn(3) == 0 {
				t = uint32(8 * rng.Intn(n))
			}
			le.PutUint32(d[20+8*i:], 1<<31*uint32(1-rng.Intn(30)/29)|t)
		}
		return d
	})
	c.Event("self-containing directories", 1)
	hostileInput(c, b, "directory loop")
	c.Nontrivial(b)
}

// C12

func foreignCase(c *Ctx) {
	m := genModelFit(c.Rng)
	far := 0
	switch {
	case c.Index%200 == 7:
		far = 1<<24 + c.Rng.Intn(1<<20)
	case c.Index%20 == 7:
		far = 1<<20 + c.Rng.Intn(1<<18)
	case c.Index%5 == 2:
		far = 1<<16 + c.Rng.Intn(1<<16)
	}
	high := c.Rng.Intn(12) == 0
	spec := genPE(c.Rng, peProfile{keepSmall: true, needsSet: m, far: far, rsrcPos: []string{"last", "middle", "beforereloc", "first", "only"}[c.Rng.Intn(5)], high: high, highAny: high && c.Rng.Intn(3) > 0})
	b := spec.build()
	if far > 0 {
		c.Event("sections with distant parts", 1)
	}
	foreignLoad(c, b, m, spec.desc)
}

// foreignShared: resources that differ by their keys alone, in a section that shares tables, strings and data.
func foreignShared(c *Ctx) {
	rng := c.Rng
	idents := func(max int, typ bool) []ident {
		var l []ident
		n := 1 + rng.Intn(max)
		for i := 0; i < n; i++ {
			switch {
			case rng.Intn(4) == 0:
				l = append(l, nam(genName(rng)))
			case typ:
				l = append(l, genType(rng))
			default:
				l = append(l, idn(uint16(1+rng.Intn(0xFFFF))))
			}
		}
		return l
	}
	shape := [][3]int{{3, 3, 3}, {30, 30, 30}, {2, 150, 100}, {100, 1, 200}, {1, 20000, 1}, {1, 150, 150}, {20000, 1, 1}, {10, 1000, 2}}[rng.Intn(8)]
	types, ress := idents(shape[0], true), idents(shape[1], false)
	var langs []uint16
	for i, n := 0, 1+rng.Intn(shape[2]); i < n; i++ {
		langs = append(langs, genLang(rng))
	}
	data := [][]byte{genData(rng, 300), {}, randBytes(rng, 60+rng.Intn(3000))}[rng.Intn(3)]
	other := genData(rng, 100)
	m := model{}
	for _, t := range types {
		for _, r := range ress {
			for _, l := range langs {
				m[rkey{t, r, l}] = data
			}
		}
	}
	for i := 0; i < rng.Intn(3); i++ {
		m[rkey{types[rng.Intn(len(types))], ress[rng.Intn(len(ress))], genLang(rng)}] = other
	}
	spec := genPE(rng, peProfile{keepSmall: true, needsSet: m, share: true, rsrcPos: []string{"last", "middle", "beforereloc"}[rng.Intn(3)]})
	c.Event("sections that share tables", 1)
	foreignLoad(c, spec.build(), m, spec.desc)
}

// foreignMega: as many entries as directories can list.
func foreignMega(c *Ctx) {
	specs := megaSpecs()
	s := specs[c.Index%len(specs)]
	if !s.okX {
		return
	}
	m := model{}
	s.mk(m)
	spec := genPE(c.Rng, peProfile{keepSmall: true, needsSet: m, rsrcPos: "last"})
	b := spec.build()
	rs, err := winres.LoadFromEXE(bytes.NewReader(b))
	if err != nil {
		c.Failf("load-error", "LoadFromEXE: %v\n%s\n%s", err, s.name, spec.desc)
	}
	if e := checkSet(rs, m); e != "" {
		c.Failf("load", "LoadFromEXE: %s\n%s\n%s", e, s.name, spec.desc)
	}
	c.Event("sections at the limits", 1)
	c.Nontrivial(s.name)
}

// foreignLoad checks what is loaded from an image holding m.
func foreignLoad(c *Ctx, b []byte, m model, desc string) {
	c.Attach("input.exe", b)
	// the independent reader must agree, else the harness is wrong
	t, err := mustParse(b).resources(false)
	if err != nil {
		panic(fmt.Sprintf("harness: unreadable: %v (%s)", err, desc))
	}
	if s := compareEntries(t.entries, m); s != "" {
		panic(fmt.Sprintf("harness: %s (%s)", s, desc))
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(b))
	if err != nil {
		c.Failf("load-error", "LoadFromEXE: %v\nset: %s\n%s", err, m.describe(), desc)
	}
	if s := checkSet(rs, m); s != "" {
		c.Failf("load", "LoadFromEXE: %s\nset: %s\n%s", s, m.describe(), desc)
	}
	c.Event("sections loaded", 1)
	c.Event("resources compared", len(m))
	// single types
	types := map[ident]bool{}
	for k := range m {
		types[k.typ] = true
	}
	var l []ident
	for t := range types {
		l = append(l, t)
	}
	l = append(l, idn(16), idn(uint16(1+c.Rng.Intn(300))), genType(c.Rng))
	if len(l) > 12 {
		l = l[len(l)-12:]
	}
	for _, t := range l {
		singleType(c, b, m, t, desc)
	}
	for _, t := range []ident{idn(12), idn(14)} {
		singleType(c, b, m, t, desc)
	}
	if len(m) > 0 {
		c.Nontrivial(m.describe(), len(b))
	}
	c.Sample("%s: %s", desc, m.describe())
}

func singleType(c *Ctx, b []byte, m model, t ident, desc string) {
	rs, err := winres.LoadFromEXESingleType(bytes.NewReader(b), t.wr())
	if err != nil {
		c.Failf("single-error", "LoadFromEXESingleType(%s): %v\nset: %s\n%s", t, err, m.describe(), desc)
	}
	want := model{}
	optional := model{}
	img := ident{}
	switch t {
	case idn(14):
		img = idn(3)
	case idn(12):
		img = idn(1)
	}
	for k, d := range m {
		if k.typ == t {
			want[k] = d
		}
		if img.id != 0 && k.typ == img {
			optional[k] = d
		}
	}
	got := map[rkey][]byte{}
	rs.Walk(func(ty, r winres.Identifier, lang uint16, data []byte) bool {
		got[rkey{fromWr(ty), fromWr(r), lang}] = data
		return true
	})
	for k, d := range want {
		g, ok := got[k]
		if !ok {
			c.Failf("single-missing", "LoadFromEXESingleType(%s) misses %s\n%s", t, k, desc)
		}
		if !bytes.Equal(g, d) {
			c.Failf("single-data", "LoadFromEXESingleType(%s): %s differs\n%s", t, k, desc)
		}
	}
	needed := map[uint16]bool{}
	if img.id != 0 {
		for _, d := range want {
			// 6 byte header, 14 byte entries ending with the image ID
			if len(d) >= 6 {
				for i := 0; i < int(le.Uint16(d[4:])) && 6+14*i+14 <= len(d); i++ {
					needed[le.Uint16(d[6+14*i+12:])] = true
				}
			}
		}
	}
	for k, g := range got {
		if _, ok := want[k]; ok {
			continue
		}
		d, ok := optional[k]
		if !ok {
			c.Failf("single-extra", "LoadFromEXESingleType(%s) gives %s too\n%s", t, k, desc)
		}
		if !bytes.Equal(g, d) {
			c.Failf("single-data", "LoadFromEXESingleType(%s): %s differs\n%s", t, k, desc)
		}
	}
	for k := range optional {
		if !k.res.isName && needed[k.res.id] {
			if _, ok := got[k]; !ok {
				c.Failf("single-image", "LoadFromEXESingleType(%s) misses image %s used by a group\n%s", t, k, desc)
			}
			c.Event("group images found", 1)
		}
	}
	c.Event("single type loads", 1)
}

// groupsCase has icon and cursor groups along with their images.
func groupsCase(c *Ctx) {
	rng := c.Rng
	m := model{}
	for _, x := range [][2]uint16{{14, 3}, {12, 1}} {
		ids := 1 + rng.Intn(8)
		for i := 0; i < ids; i++ {
			lang := genLang(rng)
			m[rkey{idn(x[1]), idn(uint16(1 + i)), lang}] = randBytes(rng, 20+rng.Intn(100))
		}
		for g, n := 0, 1+rng.Intn(3); g < n; g++ {
			k := 1 + rng.Intn(5)
			d := make([]byte, 6+14*k)
			le.PutUint16(d[2:], 1)
			le.PutUint16(d[4:], uint16(k))
			for i := 0; i < k; i++ {
				rng.Read(d[6+14*i : 6+14*i+12])
				le.PutUint16(d[6+14*i+12:], uint16(1+rng.Intn(ids)))
			}
			m[rkey{idn(x[0]), genIdent(rng), genLang(rng)}] = d
		}
	}
	for k, d := range genModel(rng) {
		if len(d) < 3000 && !k.typ.isName && k.typ.id > 14 {
			m[k] = d
		}
	}
	spec := genPE(rng, peProfile{keepSmall: true, needsSet: m, rsrcPos: "last"})
	foreignLoad(c, spec.build(), m, spec.desc)
}

func noResCase(c *Ctx) {
	spec := genPE(c.Rng, peProfile{keepSmall: true, rsrcPos: "none", signed: 1})
	b := spec.build()
	for i := 0; i < 2; i++ {
		var rs *winres.ResourceSet
		var err error
		if i == 0 {
			rs, err = winres.LoadFromEXE(bytes.NewReader(b))
		} else {
			rs, err = winres.LoadFromEXESingleType(bytes.NewReader(b), genType(c.Rng).wr())
		}
		if err != winres.ErrNoResources {
			c.Failf("nores-error", "an image without resources gives error %v (%s)", err, spec.desc)
		}
		if rs == nil || rs.Count() != 0 {
			c.Failf("nores-set", "an image without resources gives no empty set (%s)", spec.desc)
		}
		// usable
		m := model{}
		for k, d := range genModel(c.Rng) {
			if e := rs.Set(k.typ.wr(), k.res.wr(), k.lang, d); e != nil {
				c.Failf("nores-unusable", "Set on the empty set: %v", e)
			}
			m[k] = d
		}
		if s := checkSet(rs, m); s != "" {
			c.Failf("nores-unusable", "the empty set, filled: %s", s)
		}
	}
	c.Event("images without resources", 1)
	c.Nontrivial(spec.desc)
}

// foreignReal loads what real tools made.
func foreignReal(c *Ctx) {
	b, desc := realExe(c)
	if b == nil {
		c.Event("real executables unavailable", 1)
		return
	}
	p := mustParse(b)
	if p.rsrcIndex() < 0 {
		rs, err := winres.LoadFromEXE(bytes.NewReader(b))
		if err != winres.ErrNoResources || rs == nil || rs.Count() != 0 {
			c.Failf("nores-error", "%s has no resources, error is %v", desc, err)
		}
		c.Event("real executables without resources", 1)
		return
	}
	t, err := p.resources(false)
	if err != nil {
		panic("harness: " + desc + ": " + err.Error())
	}
	m := model{}
	for _, e := range t.entries {
		m[e.rkey] = e.data
	}
	foreignLoad(c, b, m, desc)
	c.Event("real executables with resources", 1)
}

func init() {
	register(&Prop{
		ID:   "C11",
		Rule: "synthetic images with mutated header fields, cut or random bytes, corrupted, overlapping or self-containing resource directories; every call is watched for panics, allocations out of proportion, endless output, and output written before an error; non-trivial: distinct input",
		Min: map[string]int64{"calls": 30000, "LoadFromEXE error": 1000, "LoadFromEXE result": 1000, "WriteToEXE error": 1000, "WriteToEXE result": 1000, "IsSignedEXE error": 500,
			"overlapping structures: shared tables": 5, "overlapping structures: shared data": 5, "overlapping structures: overlapping names": 5, "self-containing directories": 50, "files that are almost PE images": 300, "refusals of files that are no PE images": 1500, "fields of resource sections set: size": 500, "fields of resource sections set: rva": 500},
		Families: []Family{
			{"headers", 3000, 120000, hostileHeaders},
			{"fields", 400, 6000, hostileEach},
			{"kinds", 120, 4000, hostileKinds},
			{"bytes", 1200, 40000, hostileBytes},
			{"rsrc", 2000, 80000, hostileRSRC},
			{"entries", 2000, 80000, hostileEntries},
			{"shared", 50, 1000, hostileShared},
			{"loops", 100, 4000, hostileLoop},
		},
	})
	register(&Prop{
		ID:   "C12",
		Rule: "resource trees laid out in many ways (orders, padding, sharing, filled unused fields, empty directories) inside images of many layouts, and images made by real tools, loaded whole and by type; non-trivial: distinct non-empty set and image",
		Min:  map[string]int64{"sections loaded": 600, "resources compared": 3000, "single type loads": 2000, "group images found": 100, "images without resources": 50, "sections that share tables": 80, "sections at the limits": 8},
		Families: []Family{
			{"foreign", 700, 30000, foreignCase},
			{"limits", len(megaSpecs()), 3 * len(megaSpecs()), foreignMega},
			{"shared", 100, 3000, foreignShared},
			{"groups", 150, 6000, groupsCase},
			{"none", 80, 1500, noResCase},
			{"real", 20, 60, foreignReal},
		},
	})
}
