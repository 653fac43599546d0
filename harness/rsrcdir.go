package main

import (
	"encoding/binary"
	"fmt"
	"sort"
)

var le = binary.LittleEndian

// rsrcTree is a decoded resource directory.
type rsrcTree struct {
	entries []rentry
	// offset of every data entry (for relocations), in order of discovery
	dataEntryOffs []uint32
	regions       []region
	end           uint32 // highest offset used in the section
	nodes         int
}

type region struct {
	off, size uint32
	kind      string
}

// decodeRsrc decodes a resource section. dataRVA maps a data entry's RVA to an offset in sec.
// strict adds everything that C03 asks of a directory we wrote.
func decodeRsrc(sec []byte, rva uint32, strict bool) (*rsrcTree, error) {
	t := &rsrcTree{}
	d := &rsrcDecoder{sec: sec, rva: rva, strict: strict, t: t, strs: map[uint32]bool{}, seenDir: map[uint32]bool{}}
	if err := d.dir(0, 0, nil); err != nil {
		return nil, err
	}
	if strict {
		if err := d.checkRegions(); err != nil {
			return nil, err
		}
		// The search Windows does must find every resource.
		for _, e := range t.entries {
			if err := d.search(e); err != nil {
				return nil, err
			}
		}
	}
	for _, r := range t.regions {
		if r.off+r.size > t.end {
			t.end = r.off + r.size
		}
	}
	return t, nil
}

type rsrcDecoder struct {
	sec     []byte
	rva     uint32
	strict  bool
	t       *rsrcTree
	strs    map[uint32]bool
	seenDir map[uint32]bool
}

func (d *rsrcDecoder) need(off, size uint64, kind string) error {
	if off+size > uint64(len(d.sec)) {
		return fmt.Errorf("%s at %#x (%d bytes) is outside of the section (%d bytes)", kind, off, size, len(d.sec))
	}
	return nil
}

func (d *rsrcDecoder) str(off uint32) (string, error) {
	if err := d.need(uint64(off), 2, "string"); err != nil {
		return "", err
	}
	n := uint64(le.Uint16(d.sec[off:]))
	if err := d.need(uint64(off), 2+2*n, "string"); err != nil {
		return "", err
	}
	if d.strict && off%2 != 0 {
		return "", fmt.Errorf("string at odd offset %#x", off)
	}
	if !d.strs[off] {
		d.strs[off] = true
		d.t.regions = append(d.t.regions, region{off, uint32(2 + 2*n), "string"})
	}
	return string(d.sec[off+2 : uint64(off)+2+2*n]), nil
}

func (d *rsrcDecoder) dir(off uint32, level int, path []ident) error {
	if err := d.need(uint64(off), 16, "directory table"); err != nil {
		return err
	}
	if d.seenDir[off] && d.strict {
		return fmt.Errorf("directory table at %#x used twice", off)
	}
	d.seenDir[off] = true
	nNames, nIDs := int(le.Uint16(d.sec[off+12:])), int(le.Uint16(d.sec[off+14:]))
	n := nNames + nIDs
	if err := d.need(uint64(off), 16+8*uint64(n), "directory table"); err != nil {
		return err
	}
	if d.strict {
		if off%4 != 0 {
			return fmt.Errorf("directory table at unaligned offset %#x", off)
		}
		if le.Uint32(d.sec[off:]) != 0 {
			return fmt.Errorf("directory characteristics not zero at %#x", off)
		}
		if level > 0 && n == 0 {
			return fmt.Errorf("empty directory table at %#x, level %d", off, level)
		}
	}
	d.t.regions = append(d.t.regions, region{off, uint32(16 + 8*n), "table"})
	var prev ident
	for i := 0; i < n; i++ {
		p := off + 16 + uint32(i)*8
		idf, o := le.Uint32(d.sec[p:]), le.Uint32(d.sec[p+4:])
		var id ident
		if idf&0x80000000 != 0 {
			s, err := d.str(idf & 0x7FFFFFFF)
			if err != nil {
				return err
			}
			id = ident{isName: true, name: s}
			if level == 2 {
				return fmt.Errorf("named language at %#x", p)
			}
			if d.strict && s == "" {
				return fmt.Errorf("empty name at %#x", p)
			}
		} else {
			if d.strict && idf > 0xFFFF {
				return fmt.Errorf("ID %#x at %#x", idf, p)
			}
			if d.strict && idf == 0 && level < 2 {
				return fmt.Errorf("ID 0 at %#x", p)
			}
			id = ident{id: uint16(idf)}
		}
		if (i < nNames) != id.isName {
			return fmt.Errorf("entry %d at %#x: name flag disagrees with the table's counts (%d names, %d IDs)", i, p, nNames, nIDs)
		}
		if d.strict && i > 0 && cmpIdent(prev, id) >= 0 {
			return fmt.Errorf("level %d entries not in strictly ascending order: %s then %s", level, prev, id)
		}
		prev = id
		np := append(append([]ident{}, path...), id)
		if level < 2 {
			if o&0x80000000 == 0 {
				return fmt.Errorf("entry at %#x, level %d is a leaf", p, level)
			}
			if err := d.dir(o&0x7FFFFFFF, level+1, np); err != nil {
				return err
			}
			continue
		}
		if o&0x80000000 != 0 {
			return fmt.Errorf("entry at %#x, level 2 is a directory", p)
		}
		if err := d.need(uint64(o), 16, "data entry"); err != nil {
			return err
		}
		if d.strict && o%4 != 0 {
			return fmt.Errorf("data entry at unaligned offset %#x", o)
		}
		if d.strict && le.Uint32(d.sec[o+12:]) != 0 {
			return fmt.Errorf("reserved field of the data entry at %#x is not zero", o)
		}
		drva, size := le.Uint32(d.sec[o:]), le.Uint32(d.sec[o+4:])
		d.t.dataEntryOffs = append(d.t.dataEntryOffs, o)
		d.t.regions = append(d.t.regions, region{o, 16, "data entry"})
		if drva < d.rva {
			return fmt.Errorf("data of %v at RVA %#x, before the section's %#x", np, drva, d.rva)
		}
		doff := drva - d.rva
		if err := d.need(uint64(doff), uint64(size), fmt.Sprintf("data of %v", np)); err != nil {
			return err
		}
		if d.strict && doff%4 != 0 {
			return fmt.Errorf("data of %v at unaligned offset %#x", np, doff)
		}
		if size > 0 {
			d.t.regions = append(d.t.regions, region{doff, size, "data"})
		}
		d.t.entries = append(d.t.entries, rentry{rkey{np[0], np[1], np[2].id}, d.sec[doff : uint64(doff)+uint64(size)]})
	}
	return nil
}

func (d *rsrcDecoder) checkRegions() error {
	r := append([]region{}, d.t.regions...)
	sort.Slice(r, func(i, j int) bool {
		if r[i].off != r[j].off {
			return r[i].off < r[j].off
		}
		return r[i].size < r[j].size
	})
	for i := 1; i < len(r); i++ {
		if r[i-1].off+r[i-1].size > r[i].off {
			return fmt.Errorf("%s [%#x,%#x) overlaps %s [%#x,%#x)", r[i-1].kind, r[i-1].off, r[i-1].off+r[i-1].size, r[i].kind, r[i].off, r[i].off+r[i].size)
		}
	}
	return nil
}

// find does the binary search the Windows loader does (LdrpSearchResourceSection_U / find_entry_by_name).
func (d *rsrcDecoder) find(off uint32, id ident) (uint32, bool) {
	nNames, nIDs := int(le.Uint16(d.sec[off+12:])), int(le.Uint16(d.sec[off+14:]))
	lo, hi := 0, nNames-1
	if !id.isName {
		lo, hi = nNames, nNames+nIDs-1
	}
	for lo <= hi {
		mid := (lo + hi) / 2
		p := off + 16 + uint32(mid)*8
		f := le.Uint32(d.sec[p:])
		var c int
		if id.isName {
			so := f & 0x7FFFFFFF
			n := uint32(le.Uint16(d.sec[so:]))
			c = cmpU16(id.name, string(d.sec[so+2:so+2+2*n]))
		} else {
			c = int(id.id) - int(f)
		}
		switch {
		case c == 0:
			return le.Uint32(d.sec[p+4:]), true
		case c < 0:
			hi = mid - 1
		default:
			lo = mid + 1
		}
	}
	return 0, false
}

func (d *rsrcDecoder) search(e rentry) error {
	off := uint32(0)
	for lvl, id := range []ident{e.typ, e.res, {id: e.lang}} {
		o, ok := d.find(off, id)
		if !ok {
			return fmt.Errorf("%s: a binary search does not find %s at level %d", e.rkey, id, lvl)
		}
		d.t.nodes++
		if lvl < 2 {
			off = o & 0x7FFFFFFF
			continue
		}
		drva, size := le.Uint32(d.sec[o:]), le.Uint32(d.sec[o+4:])
		if uint64(drva-d.rva)+uint64(size) > uint64(len(d.sec)) || string(d.sec[drva-d.rva:drva-d.rva+size]) != string(e.data) {
			return fmt.Errorf("%s: a binary search leads elsewhere", e.rkey)
		}
	}
	return nil
}
