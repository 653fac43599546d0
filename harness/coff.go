package main

import (
	"fmt"
)

var archs = []string{"386", "amd64", "arm", "arm64"}

var archMachine = map[string]uint16{"386": 0x14c, "amd64": 0x8664, "arm": 0x1c4, "arm64": 0xaa64}

// relocation types "32-bit address relative to the image base"
var archReloc = map[string]uint16{"386": 7, "amd64": 3, "arm": 2, "arm64": 2}

type coffObj struct {
	section []byte // content of .rsrc
	relocs  []coffReloc
	syms    []coffSym
	machine uint16
}

type coffReloc struct {
	va, sym uint32
	typ     uint16
}

type coffSym struct {
	name    string
	value   uint32
	section int16
	typ     uint16
	class   uint8
}

// parseCOFF parses an object file and checks its structure.
func parseCOFF(b []byte, arch string) (*coffObj, error) {
	if len(b) < 20 {
		return nil, fmt.Errorf("file is %d bytes", len(b))
	}
	o := &coffObj{}
	o.machine = le.Uint16(b)
	if o.machine != archMachine[arch] {
		return nil, fmt.Errorf("machine is %#x, want %#x", o.machine, archMachine[arch])
	}
	nsec := int(le.Uint16(b[2:]))
	symOff, nsym := uint64(le.Uint32(b[8:])), uint64(le.Uint32(b[12:]))
	optSize := int(le.Uint16(b[16:]))
	if optSize != 0 {
		return nil, fmt.Errorf("optional header of %d bytes in an object", optSize)
	}
	if nsec != 1 {
		return nil, fmt.Errorf("%d sections", nsec)
	}
	if le.Uint16(b[18:])&0x0002 != 0 {
		return nil, fmt.Errorf("flagged as an executable image")
	}
	if len(b) < 60 {
		return nil, fmt.Errorf("no room for the section header")
	}
	h := b[20:60]
	if string(h[:8]) != ".rsrc\x00\x00\x00" {
		return nil, fmt.Errorf("section name %q", h[:8])
	}
	rawSize, rawPtr := uint64(le.Uint32(h[16:])), uint64(le.Uint32(h[20:]))
	relPtr, linePtr := uint64(le.Uint32(h[24:])), le.Uint32(h[28:])
	nrel, nline := uint64(le.Uint16(h[32:])), le.Uint16(h[34:])
	chars := le.Uint32(h[36:])
	if chars&0x40000040 != 0x40000040 {
		return nil, fmt.Errorf("characteristics %#x lack initialized data or read", chars)
	}
	if chars&0xA0000080 != 0 {
		return nil, fmt.Errorf("characteristics %#x: executable, writable or uninitialized", chars)
	}
	if chars&0x00000800 != 0 || chars&0x00000200 != 0 {
		return nil, fmt.Errorf("characteristics %#x: section would be dropped by linkers", chars)
	}
	if chars&0x00001437 != 0 {
		return nil, fmt.Errorf("characteristics %#x: code, COMDAT or reserved flags", chars)
	}
	if linePtr != 0 || nline != 0 {
		return nil, fmt.Errorf("line numbers")
	}
	type span struct {
		off, size uint64
		what      string
	}
	strOff := symOff + nsym*18
	spans := []span{{0, 60, "headers"}, {rawPtr, rawSize, "section data"}, {relPtr, nrel * 10, "relocations"}, {symOff, nsym * 18, "symbols"}}
	if strOff+4 > uint64(len(b)) {
		return nil, fmt.Errorf("no string table: symbols end at %d, file is %d bytes", strOff, len(b))
	}
	strSize := uint64(le.Uint32(b[strOff:]))
	if strSize < 4 {
		return nil, fmt.Errorf("string table of %d bytes", strSize)
	}
	spans = append(spans, span{strOff, strSize, "string table"})
	var end uint64
	for i, s := range spans {
		if s.off+s.size > uint64(len(b)) {
			return nil, fmt.Errorf("%s [%d,%d) beyond the end of the file (%d)", s.what, s.off, s.off+s.size, len(b))
		}
		if s.off+s.size > end {
			end = s.off + s.size
		}
		if s.size == 0 {
			continue
		}
		for _, q := range spans[:i] {
			if q.size > 0 && s.off < q.off+q.size && q.off < s.off+s.size {
				return nil, fmt.Errorf("%s overlaps %s", s.what, q.what)
			}
		}
	}
	if end != uint64(len(b)) {
		return nil, fmt.Errorf("%d stray bytes at the end of the file", uint64(len(b))-end)
	}
	if rawPtr%4 != 0 {
		return nil, fmt.Errorf("section data at unaligned offset %d", rawPtr)
	}
	o.section = append([]byte{}, b[rawPtr:rawPtr+rawSize]...)
	for i := uint64(0); i < nrel; i++ {
		p := b[relPtr+i*10:]
		o.relocs = append(o.relocs, coffReloc{le.Uint32(p), le.Uint32(p[4:]), le.Uint16(p[8:])})
	}
	for i := uint64(0); i < nsym; i++ {
		p := b[symOff+i*18:]
		o.syms = append(o.syms, coffSym{string(p[:8]), le.Uint32(p[8:]), int16(le.Uint16(p[12:])), le.Uint16(p[14:]), p[16]})
		if p[17] != 0 {
			i += uint64(p[17]) // auxiliary records
			for k := 0; k < int(p[17]); k++ {
				o.syms = append(o.syms, coffSym{})
			}
		}
	}
	for i, r := range o.relocs {
		if r.typ != archReloc[arch] {
			return nil, fmt.Errorf("relocation %d has type %d, want %d", i, r.typ, archReloc[arch])
		}
		if int(r.sym) >= len(o.syms) {
			return nil, fmt.Errorf("relocation %d refers to symbol %d of %d", i, r.sym, len(o.syms))
		}
		s := o.syms[r.sym]
		if s.section != 1 || s.value != 0 || s.class != 3 || s.name != ".rsrc\x00\x00\x00" {
			return nil, fmt.Errorf("relocation %d is against symbol %+v, not the section's", i, s)
		}
		if uint64(r.va)+4 > rawSize {
			return nil, fmt.Errorf("relocation %d at %#x beyond the section's %#x bytes", i, r.va, rawSize)
		}
	}
	return o, nil
}

// link returns the section's content with relocations applied, as a linker placing it at rva would.
func (o *coffObj) link(rva uint32) []byte {
	s := append([]byte{}, o.section...)
	for _, r := range o.relocs {
		v := le.Uint32(s[r.va:]) + rva
		le.PutUint32(s[r.va:], v)
	}
	return s
}

// checkRelocSites checks that there is exactly one relocation per data entry and none elsewhere.
func (o *coffObj) checkRelocSites(t *rsrcTree) error {
	want := map[uint32]bool{}
	for _, off := range t.dataEntryOffs {
		want[off] = true
	}
	seen := map[uint32]bool{}
	for _, r := range o.relocs {
		if seen[r.va] {
			return fmt.Errorf("two relocations at %#x", r.va)
		}
		seen[r.va] = true
		if !want[r.va] {
			return fmt.Errorf("relocation at %#x, which is no data entry", r.va)
		}
	}
	for off := range want {
		if !seen[off] {
			return fmt.Errorf("no relocation for the data entry at %#x", off)
		}
	}
	return nil
}
