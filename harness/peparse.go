package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
)

// An independent PE reader and structural checker.

type pSec struct {
	name                string
	vsize, va, raw, ptr uint32
	relPtr, linePtr     uint32
	nrel, nline         uint16
	chars               uint32
	data                []byte
	eff                 uint32 // size in memory
}

type pImage struct {
	b                 []byte
	lfanew            int
	pe64              bool
	optOff            int
	symPtr, nsyms     uint32
	hdrEnd            int
	fa, sa            uint32
	sizeOfImage       uint32
	sizeOfHeaders     uint32
	sizeInit          uint32
	checksum          uint32
	sumOff            int
	ndirs             int
	dirsOff           int
	dirs              []peDir
	secs              []pSec
	minPtr, maxRawEnd uint32
	initTotal         uint32
}

func hasRaw(s *pSec) bool { return s.raw != 0 && s.ptr != 0 && s.chars&0x80 == 0 }

func parsePE(b []byte) (*pImage, error) {
	im := &pImage{b: b}
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return nil, fmt.Errorf("no DOS header")
	}
	im.lfanew = int(le.Uint32(b[0x3C:]))
	if im.lfanew < 0 || im.lfanew+24 > len(b) || string(b[im.lfanew:im.lfanew+4]) != "PE\x00\x00" {
		return nil, fmt.Errorf("no PE signature")
	}
	f := b[im.lfanew+4:]
	n := int(le.Uint16(f[2:]))
	im.symPtr, im.nsyms = le.Uint32(f[8:]), le.Uint32(f[12:])
	optSize := int(le.Uint16(f[16:]))
	im.optOff = im.lfanew + 24
	im.hdrEnd = im.optOff + optSize + 40*n
	if im.hdrEnd > len(b) {
		return nil, fmt.Errorf("headers end at %d, file is %d bytes", im.hdrEnd, len(b))
	}
	o := b[im.optOff : im.optOff+optSize]
	if optSize < 96 {
		return nil, fmt.Errorf("optional header of %d bytes", optSize)
	}
	switch le.Uint16(o) {
	case 0x10b:
		im.dirsOff = im.optOff + 96
	case 0x20b:
		im.pe64 = true
		im.dirsOff = im.optOff + 112
		if optSize < 112 {
			return nil, fmt.Errorf("optional header of %d bytes", optSize)
		}
	default:
		return nil, fmt.Errorf("optional header magic %#x", le.Uint16(o))
	}
	im.sizeInit = le.Uint32(o[8:])
	im.sa, im.fa = le.Uint32(o[32:]), le.Uint32(o[36:])
	im.sizeOfImage, im.sizeOfHeaders = le.Uint32(o[56:]), le.Uint32(o[60:])
	im.sumOff = im.optOff + 64
	im.checksum = le.Uint32(o[64:])
	im.ndirs = int(le.Uint32(b[im.dirsOff-4:]))
	if im.dirsOff+8*im.ndirs != im.optOff+optSize {
		return nil, fmt.Errorf("%d directories do not fit the optional header of %d bytes", im.ndirs, optSize)
	}
	for i := 0; i < im.ndirs; i++ {
		im.dirs = append(im.dirs, peDir{le.Uint32(b[im.dirsOff+8*i:]), le.Uint32(b[im.dirsOff+8*i+4:])})
	}
	im.minPtr = 0xFFFFFFFF
	for i := 0; i < n; i++ {
		h := b[im.optOff+optSize+40*i:]
		s := pSec{name: string(h[:8]), vsize: le.Uint32(h[8:]), va: le.Uint32(h[12:]), raw: le.Uint32(h[16:]), ptr: le.Uint32(h[20:]),
			relPtr: le.Uint32(h[24:]), linePtr: le.Uint32(h[28:]), nrel: le.Uint16(h[32:]), nline: le.Uint16(h[34:]), chars: le.Uint32(h[36:])}
		s.eff = s.vsize
		if s.eff == 0 {
			s.eff = s.raw
		}
		if hasRaw(&s) {
			if uint64(s.ptr)+uint64(s.raw) > uint64(len(b)) {
				return nil, fmt.Errorf("section %d %q: data [%#x,%#x) beyond the file (%#x)", i, s.name, s.ptr, uint64(s.ptr)+uint64(s.raw), len(b))
			}
			s.data = b[s.ptr : s.ptr+s.raw]
			if s.ptr < im.minPtr {
				im.minPtr = s.ptr
			}
			if s.ptr+s.raw > im.maxRawEnd {
				im.maxRawEnd = s.ptr + s.raw
			}
		}
		if s.chars&0x40 != 0 {
			im.initTotal += s.raw
		}
		im.secs = append(im.secs, s)
	}
	return im, nil
}

func (im *pImage) gapless() bool {
	for i := 1; i < len(im.secs); i++ {
		if im.secs[i].va != align32(im.secs[i-1].va+im.secs[i-1].eff, im.sa) {
			return false
		}
	}
	return true
}

// structure checks what a loader and other tools ask of an image.
func (im *pImage) structure() error {
	if im.fa == 0 || im.sa == 0 {
		return fmt.Errorf("zero alignment")
	}
	if uint32(im.hdrEnd) > im.minPtr {
		return fmt.Errorf("headers end at %#x, after the first section's data at %#x", im.hdrEnd, im.minPtr)
	}
	if uint32(im.hdrEnd) > im.sizeOfHeaders {
		return fmt.Errorf("headers end at %#x, beyond SizeOfHeaders %#x", im.hdrEnd, im.sizeOfHeaders)
	}
	if im.sizeOfHeaders%im.fa != 0 {
		return fmt.Errorf("SizeOfHeaders %#x not aligned", im.sizeOfHeaders)
	}
	if im.sizeOfHeaders > im.minPtr {
		return fmt.Errorf("SizeOfHeaders %#x reaches into the first section's data at %#x", im.sizeOfHeaders, im.minPtr)
	}
	end := align32(im.sizeOfHeaders, im.sa)
	type span struct {
		a, b uint32
		i    int
	}
	var raws []span
	for i := range im.secs {
		s := &im.secs[i]
		if s.va%im.sa != 0 {
			return fmt.Errorf("section %d %q at unaligned address %#x", i, s.name, s.va)
		}
		if s.va < end {
			return fmt.Errorf("section %d %q at %#x overlaps what ends at %#x", i, s.name, s.va, end)
		}
		if e := uint64(s.va) + uint64(s.eff) + uint64(im.sa) - 1; e-e%uint64(im.sa) > 0xFFFFFFFF {
			return fmt.Errorf("section %d %q ends beyond 4 GB", i, s.name)
		}
		end = align32(s.va+s.eff, im.sa)
		if hasRaw(s) {
			if s.ptr%im.fa != 0 || s.raw%im.fa != 0 {
				return fmt.Errorf("section %d %q: data at %#x, size %#x not aligned on %#x", i, s.name, s.ptr, s.raw, im.fa)
			}
			raws = append(raws, span{s.ptr, s.ptr + s.raw, i})
		}
	}
	sort.Slice(raws, func(i, j int) bool { return raws[i].a < raws[j].a })
	for i := 1; i < len(raws); i++ {
		if raws[i-1].b > raws[i].a {
			return fmt.Errorf("data of sections %d and %d overlap", raws[i-1].i, raws[i].i)
		}
	}
	if im.sizeOfImage != end {
		return fmt.Errorf("SizeOfImage is %#x, sections end at %#x", im.sizeOfImage, end)
	}
	return nil
}

// mapped returns a section as a loader would map it: eff bytes, zero filled.
func (s *pSec) mapped() []byte {
	m := make([]byte, s.eff)
	copy(m, s.data)
	return m
}

func (im *pImage) rsrcIndex() int {
	if im.ndirs < 3 || im.dirs[2].va == 0 {
		return -1
	}
	for i := range im.secs {
		if im.secs[i].va == im.dirs[2].va {
			return i
		}
	}
	return -1
}

// resources reads the resources as a loader would see them.
func (im *pImage) resources(strict bool) (*rsrcTree, error) {
	i := im.rsrcIndex()
	if i < 0 {
		return nil, fmt.Errorf("resource directory %#x designates no section", im.dirs[2].va)
	}
	s := &im.secs[i]
	m := s.mapped()
	if strict && uint64(im.dirs[2].size) < uint64(len(m)) {
		m = m[:im.dirs[2].size]
	}
	return decodeRsrc(m, s.va, strict)
}

func (im *pImage) signed() bool { return im.ndirs > 4 && im.dirs[4].va > 0 }

// checkStructure is C08: out is the patched form of src.
func checkStructure(src, out *pImage) (string, error) {
	if err := out.structure(); err != nil {
		return "structure", err
	}
	if src.gapless() && !out.gapless() {
		return "gap", fmt.Errorf("a gap appears between sections")
	}
	if d, w := out.sizeInit-src.sizeInit, out.initTotal-src.initTotal; d != w {
		return "size-init", fmt.Errorf("SizeOfInitializedData changes by %d, sections by %d", int32(d), int32(w))
	}
	if src.inPlace() && len(out.secs) != len(src.secs) {
		return "abandoned", fmt.Errorf("a section was added though the resource section closes the image")
	}
	if len(out.secs) > len(src.secs) {
		if s := &out.secs[len(out.secs)-1]; s.name != ".rsrc\x00\x00\x00" || s.va != out.dirs[2].va {
			return "new-section", fmt.Errorf("the last section is %q at %#x", s.name, s.va)
		}
	}
	d := out.dirs[2]
	n := 0
	for i := range out.secs {
		if out.secs[i].va == d.va {
			n++
		}
	}
	if d.va == 0 || n != 1 {
		return "rsrc-dir", fmt.Errorf("resource directory %#x designates %d sections", d.va, n)
	}
	if i := src.named(".rsrc"); (i < 0 && len(out.secs) > len(src.secs) || i >= 0 && i == src.rsrcIndex()) && out.named(".rsrc") != out.rsrcIndex() {
		return "rsrc-name", fmt.Errorf("the first section named .rsrc is number %d, resources are in number %d", out.named(".rsrc"), out.rsrcIndex())
	}
	s := &out.secs[out.rsrcIndex()]
	if s.chars&0x40000000 == 0 {
		return "rsrc-flags", fmt.Errorf("resource section is not readable: %#x", s.chars)
	}
	if s.chars&0x40 == 0 {
		return "rsrc-flags", fmt.Errorf("resource section is not initialized data: %#x", s.chars)
	}
	if d.size > align32(s.eff, out.sa) || d.size == 0 {
		return "rsrc-size", fmt.Errorf("resource directory of %#x bytes in a section of %#x", d.size, s.eff)
	}
	t, err := decodeRsrc(s.mapped(), s.va, false)
	if err != nil {
		return "rsrc-tree", err
	}
	if t.end > d.size {
		return "rsrc-size", fmt.Errorf("resources end at %#x, the directory entry says %#x", t.end, d.size)
	}
	if t.end > s.raw {
		return "rsrc-raw", fmt.Errorf("resources end at %#x, the section's data at %#x", t.end, s.raw)
	}
	return "", nil
}

// named returns the first section of that name, as tools that look resources up by name do.
func (im *pImage) named(name string) int {
	for i := range im.secs {
		if strings.TrimRight(im.secs[i].name, "\x00") == name {
			return i
		}
	}
	return -1
}

// shared tells whether another directory designates something inside the resource section, which then must stay.
func (im *pImage) shared() bool {
	r := im.rsrcIndex()
	for i, d := range im.dirs {
		if r < 0 || i == 2 || i == 4 || d.va == 0 {
			continue
		}
		if j, _ := im.locate(d.va); j == r {
			return true
		}
	}
	return false
}

// inPlace tells whether the resource section may grow where it is: nothing but relocations follow it.
func (im *pImage) inPlace() bool {
	r := im.rsrcIndex()
	return r >= 0 && hasRaw(&im.secs[r]) && !im.shared() && (r == len(im.secs)-1 || im.movable() >= 0)
}

// movable tells whether the relocation section may move: it directly follows the resources and closes the image.
func (im *pImage) movable() int {
	r := im.rsrcIndex()
	if r < 0 || r != len(im.secs)-2 || im.dirs[5].va == 0 || im.shared() {
		return -1
	}
	rel := len(im.secs) - 1
	if im.secs[rel].va != im.dirs[5].va || im.secs[rel].va != align32(im.secs[r].va+im.secs[r].eff, im.sa) {
		return -1
	}
	return rel
}

func (im *pImage) locate(va uint32) (int, uint32) {
	for i := range im.secs {
		s := &im.secs[i]
		if va >= s.va && va < s.va+align32(s.eff, im.sa) {
			return i, va - s.va
		}
	}
	return -1, va
}

// checkPreserved is C07.
func checkPreserved(src, out *pImage, removeSig bool) (string, error) {
	r := src.rsrcIndex()
	mov := src.movable()
	if len(out.secs) < len(src.secs) || len(out.secs) > len(src.secs)+1 {
		return "sections", fmt.Errorf("%d sections become %d", len(src.secs), len(out.secs))
	}
	for i := range src.secs {
		a, b := &src.secs[i], &out.secs[i]
		if i == r {
			continue
		}
		if a.name != b.name || a.chars != b.chars || a.vsize != b.vsize || a.raw != b.raw ||
			a.relPtr != b.relPtr || a.linePtr != b.linePtr || a.nrel != b.nrel || a.nline != b.nline {
			return "section-header", fmt.Errorf("section %d %q: header changes from %+v to %+v", i, a.name, hdrOnly(a), hdrOnly(b))
		}
		if a.va != b.va && i != mov {
			return "section-moved", fmt.Errorf("section %d %q moves from %#x to %#x", i, a.name, a.va, b.va)
		}
		if !bytes.Equal(a.data, b.data) {
			return "section-bytes", fmt.Errorf("section %d %q: bytes change at %#x", i, a.name, firstDiff(a.data, b.data))
		}
	}
	// header fields
	if out.lfanew != src.lfanew {
		return "header", fmt.Errorf("e_lfanew changes")
	}
	hs, ho := append([]byte{}, src.b[:src.dirsOff]...), append([]byte{}, out.b[:out.dirsOff]...)
	newSec := len(out.secs) > len(src.secs)
	for _, h := range [][]byte{hs, ho} {
		clear := func(off, n int) { copy(h[off:off+n], make([]byte, n)) }
		clear(src.lfanew+4+2, 2) // NumberOfSections
		clear(src.lfanew+4+8, 4) // PointerToSymbolTable
		clear(src.optOff+8, 4)   // SizeOfInitializedData
		clear(src.optOff+56, 4)  // SizeOfImage
		clear(src.optOff+64, 4)  // CheckSum
		if newSec {
			if uint32(out.hdrEnd) > src.sizeOfHeaders {
				clear(src.optOff+60, 4) // SizeOfHeaders
			}
		}
	}
	if !bytes.Equal(hs, ho) {
		return "header", fmt.Errorf("header bytes change at %#x", firstDiff(hs, ho))
	}
	// data between the headers and the first section
	if src.minPtr != 0xFFFFFFFF {
		end := int(src.minPtr)
		if int(out.minPtr) < end {
			end = int(out.minPtr)
		}
		if out.hdrEnd < end && !bytes.Equal(src.b[out.hdrEnd:end], out.b[out.hdrEnd:end]) {
			return "slack", fmt.Errorf("data between the headers and the first section changes at %#x (headers end at %#x, were %#x)", out.hdrEnd+firstDiff(src.b[out.hdrEnd:end], out.b[out.hdrEnd:end]), out.hdrEnd, src.hdrEnd)
		}
	}
	// appended data
	os, oo := src.b[src.maxRawEnd:], out.b[out.maxRawEnd:]
	if removeSig && src.signed() && uint64(src.dirs[4].va)+uint64(src.dirs[4].size) == uint64(len(src.b)) && src.dirs[4].va >= src.maxRawEnd {
		os = os[:src.dirs[4].va-src.maxRawEnd]
	}
	if !bytes.Equal(os, oo) {
		return "overlay", fmt.Errorf("appended data changes: %d bytes become %d, first difference at %d", len(os), len(oo), firstDiff(os, oo))
	}
	// directories
	if src.ndirs != out.ndirs {
		return "dirs", fmt.Errorf("%d directories become %d", src.ndirs, out.ndirs)
	}
	for i := range src.dirs {
		if i == 2 || i == 4 {
			continue
		}
		a, b := src.dirs[i], out.dirs[i]
		if i == 11 && newSec && a.va != 0 && int(a.va) < out.hdrEnd && b == (peDir{}) {
			continue // a bound import table whose place the new header takes is dropped
		}
		if a.size != b.size || (a.va == 0) != (b.va == 0) {
			return "dirs", fmt.Errorf("directory %d changes from %+v to %+v", i, a, b)
		}
		if i == 11 {
			if a != b {
				return "dirs", fmt.Errorf("directory %d changes from %+v to %+v", i, a, b)
			}
			if a.va != 0 && !bytes.Equal(src.b[a.va:a.va+a.size], out.b[a.va:a.va+a.size]) {
				return "dirs", fmt.Errorf("bound import table at %#x changes", a.va)
			}
			continue
		}
		sa, oa := src.locate(a.va)
		sb, ob := out.locate(b.va)
		if sa != sb || oa != ob {
			return "dirs", fmt.Errorf("directory %d designated offset %#x of section %d, now %#x of section %d", i, oa, sa, ob, sb)
		}
		if sa == r && sa >= 0 && a.va != 0 { // the bytes of other sections were compared
			ma, mb := src.secs[sa].mapped(), out.secs[sb].mapped()
			end := uint64(oa) + uint64(a.size)
			if end > uint64(len(ma)) {
				end = uint64(len(ma))
			}
			if uint64(oa) < end && (end > uint64(len(mb)) || !bytes.Equal(ma[oa:end], mb[oa:end])) {
				return "dirs", fmt.Errorf("what directory %d designates at offset %#x of the old resource section changes", i, oa)
			}
		}
	}
	// symbols
	if src.symPtr != 0 {
		n := uint64(src.nsyms)*18 + 4
		if uint64(src.symPtr)+n > uint64(len(src.b)) {
			n = uint64(src.nsyms) * 18
		}
		if uint64(out.symPtr)+n > uint64(len(out.b)) || !bytes.Equal(src.b[src.symPtr:uint64(src.symPtr)+n], out.b[out.symPtr:uint64(out.symPtr)+n]) {
			return "symbols", fmt.Errorf("PointerToSymbolTable %#x becomes %#x, which designates other bytes", src.symPtr, out.symPtr)
		}
	} else if out.symPtr != 0 {
		return "symbols", fmt.Errorf("PointerToSymbolTable appears: %#x", out.symPtr)
	}
	return "", nil
}

func hdrOnly(s *pSec) pSec {
	c := *s
	c.data = nil
	return c
}

func (im *pImage) describe() string {
	var b bytes.Buffer
	fmt.Fprintf(&b, "pe64=%v fa=%#x sa=%#x hdrEnd=%#x/%#x image=%#x len=%#x dirs=%d rsrc=%+v reloc=%+v sym=%#x", im.pe64, im.fa, im.sa, im.hdrEnd, im.sizeOfHeaders, im.sizeOfImage, len(im.b), im.ndirs, im.dirs[2], im.dirs[5], im.symPtr)
	for i := range im.secs {
		if i > 12 {
			b.WriteString(" ...")
			break
		}
		s := &im.secs[i]
		fmt.Fprintf(&b, "\n   %q va=%#x+%#x ptr=%#x+%#x %#x", s.name, s.va, s.vsize, s.ptr, s.raw, s.chars)
	}
	return b.String()
}
