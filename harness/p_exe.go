package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"

	"github.com/tc-hib/winres"
)

const (
	aResources = 1 << iota
	aDirectory
	aPreserve
	aStructure
	aChecksum
	aSignature
)

// mustSucceed tells whether a patch has no reason to fail.
func mustSucceed(src *pImage, m model) bool {
	if uint64(src.sizeOfImage)+uint64(expectedSectionSize(m))+2*uint64(src.sa+src.fa)+0x1000 > 1<<32 {
		return false // it might not fit 32 bits
	}
	if src.inPlace() {
		return true
	}
	if src.minPtr == 0xFFFFFFFF || uint64(src.minPtr) < uint64(src.hdrEnd)+40 {
		return false
	}
	if uint32(src.hdrEnd)+40 > src.sizeOfHeaders {
		return false
	}
	for _, x := range src.b[src.hdrEnd : src.hdrEnd+40] {
		if x != 0 {
			return false
		}
	}
	return len(src.secs) < 0xFFFF
}

// checkPatched observes one patch with the chosen oracles. It returns false if the patch was (legitimately) refused.
func checkPatched(c *Ctx, aspects int, src, out []byte, err error, m model, o patchOpts, desc string) bool {
	attach := func() {
		c.Attach("src.exe", src)
		c.Attach("out.exe", out)
	}
	ps, perr := parsePE(src)
	if perr != nil {
		panic(fmt.Sprintf("harness: source does not parse: %v (%s)", perr, desc))
	}
	if perr := ps.structure(); perr != nil {
		panic(fmt.Sprintf("harness: source is not well-formed: %v (%s)\n%s", perr, desc, ps.describe()))
	}
	if err != nil {
		if aspects&aResources != 0 && mustSucceed(ps, m) {
			attach()
			c.Failf("patch-error", "WriteToEXE: %v\nset: %s\n%s\n%s", err, m.describe(), desc, ps.describe())
		}
		if aspects&aSignature != 0 && ps.signed() && o.auth != 0 && mustSucceed(ps, m) {
			attach()
			c.Failf("signed-refused", "WriteToEXE refuses a signed image in spite of the option: %v\n%s\n%s", err, desc, ps.describe())
		}
		c.Event("patches refused", 1)
		return false
	}
	c.Event("patches observed", 1)
	if ps.sizeOfImage > 0xFF000000 {
		c.Event("images of nearly 4 GB patched", 1)
	}
	po, perr := parsePE(out)
	if perr != nil {
		attach()
		c.Failf("output-unreadable", "output does not parse: %v\nset: %s\n%s\n%s", perr, m.describe(), desc, ps.describe())
	}
	both := func() string {
		return fmt.Sprintf("set: %s, opts %+v\n%s\nsource: %s\noutput: %s", m.describe(), o, desc, ps.describe(), po.describe())
	}
	newSec := len(po.secs) > len(ps.secs)
	if ps.shared() {
		c.Event("resource section holds other directories", 1)
	}
	switch {
	case newSec && ps.rsrcIndex() >= 0:
		c.Event("resource section abandoned", 1)
	case newSec:
		c.Event("resource section added", 1)
	case ps.movable() >= 0:
		c.Event("resource section before relocations", 1)
	case ps.rsrcIndex() == len(ps.secs)-1:
		c.Event("resource section last", 1)
	default:
		c.Event("resource section kept in place", 1)
	}
	if aspects&aResources != 0 {
		t, err := po.resources(false)
		if err != nil {
			attach()
			c.Failf("resources-unreadable", "independent reader: %v\n%s", err, both())
		}
		if s := compareEntries(t.entries, m); s != "" {
			attach()
			c.Failf("resources", "independent reader: %s\n%s", s, both())
		}
		rs, err := winres.LoadFromEXE(bytes.NewReader(out))
		if err != nil {
			attach()
			c.Failf("load-error", "LoadFromEXE: %v\n%s", err, both())
		}
		if s := checkSet(rs, m); s != "" {
			attach()
			c.Failf("load", "LoadFromEXE: %s\n%s", s, both())
		}
		c.Event("resources compared", 2*len(m))
	}
	if aspects&aDirectory != 0 {
		t, err := po.resources(true)
		if err != nil {
			attach()
			c.Failf("rsrc-dir", "%v\n%s", err, both())
		}
		if s := compareEntries(t.entries, m); s != "" {
			attach()
			c.Failf("content", "%s\n%s", s, both())
		}
		c.Event("executables decoded", 1)
		c.Event("binary searches", len(t.entries))
	}
	if aspects&aPreserve != 0 {
		if sig, err := checkPreserved(ps, po, o.auth == 1); err != nil {
			attach()
			c.Failf(sig, "%v\n%s", err, both())
		}
		c.Event("sections compared", len(ps.secs))
		c.Event("overlay bytes compared", len(src)-int(ps.maxRawEnd))
		for i, d := range ps.dirs {
			if d.va != 0 && i != 2 && i != 4 {
				c.Event("directories compared", 1)
				if ps.movable() >= 0 && d.va >= ps.secs[ps.movable()].va {
					c.Event("directories moved", 1)
				}
			}
		}
		if ps.symPtr != 0 {
			c.Event("symbol tables followed", 1)
		}
	}
	if aspects&aStructure != 0 {
		if sig, err := checkStructure(ps, po); err != nil {
			attach()
			c.Failf(sig, "%v\n%s", err, both())
		}
		c.Event("structures checked", 1)
	}
	if aspects&aChecksum != 0 {
		if ps.checksum != 0 || o.force {
			w := peChecksum(out, po.sumOff)
			if po.checksum != w {
				attach()
				c.Failf("checksum", "checksum is %#x, want %#x (%d bytes)\n%s", po.checksum, w, len(out), both())
			}
			c.Event("checksums compared", 1)
			if len(out)%2 == 1 {
				c.Event("odd length checksums", 1)
			}
		} else {
			if po.checksum != 0 {
				attach()
				c.Failf("checksum-unwanted", "checksum is %#x though none was there nor asked\n%s", po.checksum, both())
			}
			c.Event("absent checksums", 1)
		}
	}
	if aspects&aSignature != 0 && ps.signed() {
		a, b := ps.dirs[4], po.dirs[4]
		switch o.auth {
		case 0:
			attach()
			c.Failf("signed-patched", "a signed image was patched without option\n%s", both())
		case 1:
			if b != (peDir{}) {
				attach()
				c.Failf("cert-entry", "certificate entry is %+v after RemoveSignature\n%s", b, both())
			}
			os, oo := src[ps.maxRawEnd:], out[po.maxRawEnd:]
			if uint64(a.va)+uint64(a.size) == uint64(len(src)) {
				os = src[ps.maxRawEnd:a.va]
				c.Event("certificates removed", 1)
			} else {
				c.Event("certificates not at the end", 1)
			}
			if !bytes.Equal(os, oo) {
				attach()
				c.Failf("cert-removal", "appended data: %d bytes, want %d, first difference at %d\n%s", len(oo), len(os), firstDiff(os, oo), both())
			}
		case 2:
			if b.size != a.size || uint64(b.va)+uint64(b.size) > uint64(len(out)) || !bytes.Equal(src[a.va:a.va+a.size], out[b.va:b.va+b.size]) {
				attach()
				c.Failf("cert-moved", "certificate entry %+v becomes %+v, which does not designate the same bytes\n%s", a, b, both())
			}
			if a.va != b.va {
				c.Event("certificates moved", 1)
			}
			c.Event("certificates kept", 1)
		}
	}
	return true
}

func patchChain(aspects int, prof peProfile, kinds bool) func(c *Ctx) {
	return func(c *Ctx) {
		spec := genPE(c.Rng, prof)
		src := spec.build()
		n := 1 + c.Rng.Intn(4)
		desc := spec.desc
		done := 0
		for i := 0; i < n; i++ {
			var m model
			switch c.Rng.Intn(6) {
			case 0:
				m = model{}
			case 1: // same as what is there
				if t, err := mustParse(src).resources(false); err == nil {
					m = model{}
					for _, e := range t.entries {
						m[e.rkey] = append([]byte{}, e.data...)
					}
				} else {
					m = genModelFit(c.Rng)
				}
			case 2: // close to the room that is there
				m = genModel(c.Rng)
				ps := mustParse(src)
				if r := ps.rsrcIndex(); r >= 0 {
					k := rkey{idn(10), idn(0x7ABC), 0x409}
					m[k] = []byte{}
					want := []uint32{ps.secs[r].raw, ps.secs[r].eff, align32(ps.secs[r].eff, ps.sa)}[c.Rng.Intn(3)]
					d := int(want) - expectedSectionSize(m) + []int{-16, -8, 0, 8, 16}[c.Rng.Intn(5)]
					if d > 0 && d < 1<<20 {
						m[k] = randBytes(c.Rng, d)
					}
				}
			default:
				m = genModelFit(c.Rng)
			}
			o := spec.options(c.Rng)
			rs := m.build(c, c.Rng)
			var out []byte
			var err error
			if kinds {
				out, err = patchKinds(c, rs, src, o)
			} else {
				out, err = patch(rs, src, o)
			}
			if aspects == aSignature && !mustParse(src).signed() {
				c.Event("unsigned again", 1)
			}
			if !checkPatched(c, aspects, src, out, err, m, o, fmt.Sprintf("patch %d of: %s", i, desc)) {
				break
			}
			done++
			if !goodSource(c, aspects, out, desc) {
				break
			}
			src = out
			if spec.certOff > 0 && o.auth == 1 {
				spec.certOff = 0
			}
		}
		if done > 0 {
			c.Event("chains", 1)
			if done > 1 {
				c.Event("patches of patched images", done-1)
			}
			c.Nontrivial(desc, len(src), done)
		}
		c.Event("images rsrc="+spec.rsrcPos, 1)
		if spec.sa < 0x1000 {
			c.Event("images aligned to less than a page", 1)
		}
		c.Sample("%s, %d patches", desc, done)
	}
}

// goodSource tells whether a patched image can be patched again. Were it malformed, nothing could be expected of the next patch.
func goodSource(c *Ctx, aspects int, out []byte, desc string) bool {
	p, err := parsePE(out)
	if err == nil {
		err = p.structure()
	}
	if err == nil {
		return true
	}
	c.Event("patched images that are malformed", 1)
	if aspects&(aResources|aPreserve|aStructure) != 0 {
		c.Attach("out.exe", out)
		c.Failf("malformed", "the patched image is malformed: %v (%s)", err, desc)
	}
	return false
}

func mustParse(b []byte) *pImage {
	p, err := parsePE(b)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// patchKinds patches through streams of random kinds.
func patchKinds(c *Ctx, rs *winres.ResourceSet, src []byte, o patchOpts) ([]byte, error) {
	k := srcKinds[c.Rng.Intn(len(srcKinds)-1)]
	r, cl := k.open(src, c.Rng, "")
	defer cl()
	var b bytes.Buffer
	err := patchTo(&b, r, rs, o)
	c.Event("source kind "+k.name, 1)
	return b.Bytes(), err
}

// noDataExe patches images whose sections have no data in the file: the result must be sound, or there must be none.
func noDataExe(c *Ctx) {
	spec := genPE(c.Rng, peProfile{rsrcPos: "none", keepSmall: true, tiny: true})
	src := spec.build()
	p := mustParse(src)
	h := p.dirsOff + 8*len(p.dirs)
	for i := range p.secs {
		b := src[h+40*i:]
		if le.Uint32(b[8:]) == 0 {
			le.PutUint32(b[8:], le.Uint32(b[16:]))
		}
		if c.Rng.Intn(2) == 0 {
			le.PutUint32(b[36:], 0xC0000080)
		}
		for j := 16; j < 36; j++ {
			b[j] = 0
		}
	}
	for i := range p.dirs {
		for j := 0; j < 8; j++ {
			src[p.dirsOff+8*i+j] = 0
		}
	}
	le.PutUint32(src[p.optOff+8:], 0)
	le.PutUint32(src[p.lfanew+12:], 0)
	le.PutUint32(src[p.lfanew+16:], 0)
	n := int(p.sizeOfHeaders)
	if c.Rng.Intn(2) == 0 {
		n += c.Rng.Intn(len(src) - n + 1)
	}
	src = src[:n]
	if p, err := parsePE(src); err != nil || p.structure() != nil {
		c.Event("images without data out of the domain", 1)
		return
	}
	m := genModel(c.Rng)
	o := spec.options(c.Rng)
	out, err := patch(m.build(c, c.Rng), src, o)
	c.Event("images without data", 1)
	c.Nontrivial(src, len(m))
	if err != nil {
		c.Event("images without data refused", 1)
		return
	}
	checkPatched(c, aResources|aStructure, src, out, nil, m, o, spec.desc)
}

func exeDirCase(c *Ctx) {
	patchChain(aDirectory, peProfile{keepSmall: true}, false)(c)
}

// hugeExe patches with more resources than an object can hold, or more than a directory can hold.
func exeMega(c *Ctx) {
	specs := megaSpecs()
	s := specs[c.Index%len(specs)]
	m := model{}
	s.mk(m)
	rs := m.build(c, c.Rng)
	spec := genPE(c.Rng, peProfile{keepSmall: true})
	src := spec.build()
	out, err := patch(rs, src, spec.options(c.Rng))
	if !s.okX {
		if err == nil {
			c.Failf("limit-silent", "%s: WriteToEXE reports success although a directory cannot hold them", s.name)
		}
		c.Event("sets beyond the limits refused", 1)
		return
	}
	if checkPatched(c, aResources|aDirectory, src, out, err, m, patchOpts{}, s.name) {
		c.Event("sets at the limits held", 1)
	}
	c.Nontrivial(s.name)
}

// hugeExe patches with more data than 32 bits can count.
func hugeExe(c *Ctx) {
	spec := genPE(c.Rng, peProfile{keepSmall: true})
	src := spec.build()
	rs := &winres.ResourceSet{}
	n := fillHuge(rs, []int{4096 + c.Rng.Intn(60), 4300, 4500, 8192, 4096, 4400, 5000, 12288}[c.Index%8])
	w := &countingWriter{max: 1 << 62}
	err := patchTo(w, bytes.NewReader(src), rs, spec.options(c.Rng))
	if err == nil {
		c.Failf("huge-silent", "WriteToEXE reports success with %d MB of resources, and writes %d MB (%s)", n>>20, w.n>>20, spec.desc)
	}
	if w.n > 0 {
		c.Event("bytes written before refusing", int(w.n))
	}
	c.Event("sets of more than 4 GB refused", 1)
	c.Nontrivial(spec.desc)
}

// bigExe patches with some 16 MB or more, so that offsets need four bytes.
func bigExe(aspects int) func(c *Ctx) {
	return func(c *Ctx) {
		spec := genPE(c.Rng, peProfile{keepSmall: true})
		src := spec.build()
		m := genModelFit(c.Rng)
		for i, n := 0, 1+c.Rng.Intn(3); i < n; i++ {
			m[rkey{idn(5 + uint16(i)*3), idn(uint16(i + 1)), 0}] = randBytes(c.Rng, 1<<uint(22+c.Rng.Intn(4))+c.Rng.Intn(100))
		}
		m[rkey{idn(24), idn(1), 0}] = randBytes(c.Rng, 100)
		o := spec.options(c.Rng)
		out, err := patch(m.build(c, c.Rng), src, o)
		if !checkPatched(c, aspects, src, out, err, m, o, "big set: "+spec.desc) {
			return
		}
		c.Event("sets of many MB", 1)
		m = genModelFit(c.Rng)
		if !goodSource(c, aspects, out, spec.desc) {
			return
		}
		src = out
		out, err = patch(m.build(c, c.Rng), src, o)
		checkPatched(c, aspects, src, out, err, m, o, "after a big set: "+spec.desc)
		c.Nontrivial(spec.desc)
	}
}

// fillHuge adds about mb megabytes of zeros, which share their memory.
func fillHuge(rs *winres.ResourceSet, mb int) int64 {
	d := make([]byte, 64<<20)
	n := int64(0)
	for i := 1; mb > 0; i++ {
		k := 64
		if k > mb {
			k = mb
		}
		rs.Set(winres.RT_RCDATA, winres.ID(i), 0x409, d[:k<<20])
		n += int64(k) << 20
		mb -= k
	}
	return n
}

// noRoomCase: images without room for another header. A patch fails, or gives a valid image.
func noRoomCase(aspects int) func(c *Ctx) {
	return func(c *Ctx) {
		spec := genPE(c.Rng, peProfile{noRoom: true})
		src := spec.build()
		m := genModelFit(c.Rng)
		o := spec.options(c.Rng)
		out, err := patch(m.build(c, c.Rng), src, o)
		if checkPatched(c, aspects, src, out, err, m, o, spec.desc) {
			c.Event("patched without room", 1)
		} else {
			c.Event("no room: refused", 1)
			if len(out) > 0 {
				c.Event("bytes written before refusing", len(out))
			}
		}
		c.Nontrivial(spec.desc)
	}
}

// checksumCase: big and odd-sized files, all kinds of readers.
func checksumCase(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	switch c.Rng.Intn(4) {
	case 0:
		if spec.certOff == 0 {
			spec.overlay = append(spec.overlay, bytes.Repeat([]byte{0xFF}, 1+c.Rng.Intn(300000))...)
		}
	case 1:
		if spec.certOff == 0 {
			spec.overlay = append(spec.overlay, randBytes(c.Rng, 1+c.Rng.Intn(5))...)
		}
	}
	spec.checksumMode = c.Index % 3
	src := spec.build()
	m := genModelFit(c.Rng)
	o := spec.options(c.Rng)
	o.force = c.Index/3%2 == 0
	out, err := patchKinds(c, m.build(c, c.Rng), src, o)
	if checkPatched(c, aChecksum, src, out, err, m, o, spec.desc) {
		c.Nontrivial(spec.desc, len(out))
	}
	c.Sample("%s -> %d bytes, forced=%v", spec.desc, len(out), o.force)
}

// isSignedCase observes IsSignedEXE and refusals.
func isSignedCase(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	src := spec.build()
	ps := mustParse(src)
	k := srcKinds[c.Rng.Intn(len(srcKinds)-1)]
	r, cl := k.open(src, c.Rng, "")
	defer cl()
	for _, pos := range []int64{0, int64(c.Rng.Intn(len(src) + 1)), int64(len(src)), int64(len(src)) + int64(c.Rng.Intn(50))} {
		if _, err := r.Seek(pos, io.SeekStart); err != nil {
			continue
		}
		signed, err := winres.IsSignedEXE(r)
		if err != nil {
			c.Failf("issigned-error", "IsSignedEXE: %v (%s)", err, spec.desc)
		}
		if signed != ps.signed() {
			c.Failf("issigned", "IsSignedEXE says %v, certificate entry is %+v (%s)", signed, ps.dirs[4], spec.desc)
		}
		if p, _ := r.Seek(0, io.SeekCurrent); p != pos {
			c.Failf("issigned-pos", "IsSignedEXE leaves the reader at %d, was %d (%s, %s)", p, pos, k.name, spec.desc)
		}
		c.Event("IsSignedEXE answers", 1)
		if signed {
			c.Event("IsSignedEXE answers true", 1)
		}
	}
	if ps.signed() {
		rs := genModel(c.Rng).build(c, c.Rng)
		for _, o := range []patchOpts{{}, {force: true}} {
			out, err := patch(rs, src, o)
			if err != winres.ErrSignedPE {
				c.Failf("refusal", "a signed image gives error %v (%s)", err, spec.desc)
			}
			if len(out) > 0 {
				c.Failf("refusal-writes", "%d bytes were written before refusing (%s)", len(out), spec.desc)
			}
			c.Event("signed images refused", 1)
		}
		// explicitly asking for the default is the same
		var b bytes.Buffer
		if err := rs.WriteToEXE(&b, bytes.NewReader(src), winres.WithAuthenticode(winres.ErrorIfSigned)); err != winres.ErrSignedPE || b.Len() > 0 {
			c.Failf("refusal", "ErrorIfSigned gives %v, %d bytes", err, b.Len())
		}
	}
	c.Nontrivial(spec.desc, k.name)
}

// oddEntry gives certificate entries that only have an address or a size: whatever they mean,
// IsSignedEXE and WriteToEXE must agree on it.
func oddEntry(c *Ctx) {
	spec := genPE(c.Rng, peProfile{signed: 1, keepSmall: true})
	src := spec.build()
	ps := mustParse(src)
	if len(ps.dirs) < 5 || !ps.signed() {
		return
	}
	d := ps.dirs[4]
	switch c.Rng.Intn(4) {
	case 0:
		d.size = 0
	case 1:
		d.va = 0
	case 2:
		d = peDir{uint32(c.Rng.Intn(len(src))), 0}
	case 3:
		d = peDir{0, uint32(c.Rng.Intn(20))}
	}
	binary.LittleEndian.PutUint32(src[ps.dirsOff+8*4:], d.va)
	binary.LittleEndian.PutUint32(src[ps.dirsOff+8*4+4:], d.size)
	signed, err := winres.IsSignedEXE(bytes.NewReader(src))
	if err != nil {
		c.Failf("issigned-error", "IsSignedEXE: %v (%s)", err, spec.desc)
	}
	rs := genModelFit(c.Rng).build(c, c.Rng)
	out, err := patch(rs, src, patchOpts{})
	if signed != (err == winres.ErrSignedPE) {
		c.Failf("issigned-disagree", "IsSignedEXE says %v, WriteToEXE gives %v, certificate entry is %+v (%s)", signed, err, d, spec.desc)
	}
	if signed && len(out) > 0 {
		c.Failf("refusal-writes", "%d bytes were written before refusing (%s)", len(out), spec.desc)
	}
	c.Event("incomplete certificate entries", 1)
	c.Nontrivial(spec.desc, d)
}

// realExeChain patches an executable made by the Go linker or lld.
func realExeChain(aspects int) func(c *Ctx) {
	return func(c *Ctx) {
		src, desc := realExe(c)
		if src == nil {
			c.Event("real executables unavailable", 1)
			return
		}
		for i := 0; i < 3; i++ {
			m := genModelFit(c.Rng)
			o := patchOpts{force: c.Rng.Intn(2) == 0}
			out, err := patch(m.build(c, c.Rng), src, o)
			if !checkPatched(c, aspects, src, out, err, m, o, desc) {
				return
			}
			c.Event("patches of real executables", 1)
			if !goodSource(c, aspects, out, desc) {
				return
			}
			src = out
		}
		c.Nontrivial(desc, c.Index)
		c.Sample("%s", desc)
	}
}

func unusedRng(*rand.Rand) {}

func init() {
	register(&Prop{
		ID:   "C06",
		Rule: "synthetic and real PE images (PE32/PE32+, alignments, resource section absent, last, before relocations, in the middle, first, inside another), patched 1 to 4 times in a row with random sets, read back by an independent loader and by LoadFromEXE; non-trivial: at least one successful patch, distinct image and sizes",
		Min: map[string]int64{"patches observed": 1500, "patches of patched images": 500, "resource section abandoned": 20, "resource section added": 100, "resource section before relocations": 100, "resource section holds other directories": 20,
			"resource section last": 100, "resource section kept in place": 20, "sets at the limits held": 3, "sets beyond the limits refused": 1},
		Families: []Family{
			{"chains", 1200, 30000, patchChain(aResources, peProfile{}, false)},
			{"middle", 150, 4000, patchChain(aResources, peProfile{rsrcPos: "middle"}, false)},
			{"reloc", 150, 4000, patchChain(aResources, peProfile{rsrcPos: "beforereloc"}, false)},
			{"big", 6, 60, bigExe(aResources)},
			{"real", 15, 150, realExeChain(aResources)},
			{"limits", len(megaSpecs()), len(megaSpecs()), exeMega},
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "as C06, with header slack, overlays, COFF symbols, bound imports and signatures; every section, header field, directory target, overlay and symbol table is compared between source and output; non-trivial: at least one successful patch, distinct image and sizes",
		Min: map[string]int64{"patches observed": 1500, "sections compared": 5000, "overlay bytes compared": 100000, "directories compared": 3000, "directories moved": 50, "symbol tables followed": 100, "resource section holds other directories": 20,
			"resource section abandoned": 20, "resource section kept in place": 20},
		Families: []Family{
			{"chains", 1200, 30000, patchChain(aPreserve, peProfile{signed: 1}, false)},
			{"middle", 150, 4000, patchChain(aPreserve, peProfile{rsrcPos: "middle"}, false)},
			{"reloc", 200, 4000, patchChain(aPreserve, peProfile{rsrcPos: "beforereloc"}, false)},
			{"noroom", 100, 2000, noRoomCase(aPreserve)},
			{"big", 4, 40, bigExe(aPreserve)},
			{"real", 15, 150, realExeChain(aPreserve)},
		},
	})
	register(&Prop{
		ID:   "C08",
		Rule: "as C06, including images without room for a header; each output goes through a structural checker (headers, raw and virtual ranges, alignment, gaps, totals, resource directory); non-trivial: at least one successful patch, distinct image and sizes",
		Min:  map[string]int64{"structures checked": 1500, "resource section abandoned": 20, "resource section added": 100, "no room: refused": 10},
		Families: []Family{
			{"chains", 1200, 30000, patchChain(aStructure, peProfile{signed: 1}, false)},
			{"middle", 150, 4000, patchChain(aStructure, peProfile{rsrcPos: "middle"}, false)},
			{"reloc", 150, 4000, patchChain(aStructure, peProfile{rsrcPos: "beforereloc"}, false)},
			{"noroom", 200, 4000, noRoomCase(aStructure)},
			{"high", 100, 2000, patchChain(aStructure|aResources, peProfile{high: true, keepSmall: true}, false)},
			{"nodata", 100, 2000, noDataExe},
			{"huge", 2, 8, hugeExe},
			{"big", 4, 40, bigExe(aStructure)},
			{"real", 15, 150, realExeChain(aStructure)},
		},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "images with no, right or stale checksum, forced or not, of odd and even lengths, read through streams that deliver pieces of any size; non-trivial: successful patch, distinct image and length",
		Min:  map[string]int64{"checksums compared": 600, "odd length checksums": 50, "absent checksums": 50},
		Families: []Family{
			{"files", 900, 20000, checksumCase},
			{"chains", 150, 4000, patchChain(aChecksum, peProfile{}, true)},
			{"real", 15, 150, realExeChain(aChecksum)},
		},
	})
	register(&Prop{
		ID:   "C10",
		Rule: "signed images (certificate at the end or followed by data, after overlays and symbols), every option, chains of patches; non-trivial: distinct image",
		Min:  map[string]int64{"IsSignedEXE answers": 1000, "IsSignedEXE answers true": 300, "signed images refused": 300, "certificates removed": 100, "certificates not at the end": 30, "certificates kept": 150, "certificates moved": 100, "incomplete certificate entries": 200},
		Families: []Family{
			{"issigned", 500, 8000, isSignedCase},
			{"entries", 300, 6000, oddEntry},
			{"chains", 800, 20000, patchChain(aSignature, peProfile{signed: 2}, false)},
		},
	})
}
