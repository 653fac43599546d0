package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
)

// foreignRsrc lays a resource tree out in ways other tools may: any order of tables, strings, data entries and data,
// padding, sharing, unused fields filled.
type foreignRsrc struct {
	rng   *rand.Rand
	m     model
	parts []*fpart
	root  *ftable
	plain bool
	seed  int64
	fill  bool
}

type fpart struct {
	kind  string
	size  int
	align int
	pad   int
	off   int
	table *ftable
	str   string
	leaf  *fleaf
	data  []byte
}

type ftable struct {
	part    *fpart
	names   []fentry
	ids     []fentry
	unused  [12]byte
	isShare bool
}

type fentry struct {
	id   ident
	str  *fpart
	sub  *ftable
	leaf *fpart
}

type fleaf struct {
	data     *fpart
	size     int
	codepage uint32
	reserved uint32
	at       int // offset in the data part
}

func newForeignRsrc(rng *rand.Rand, m model, far int, share bool) *foreignRsrc {
	f := &foreignRsrc{rng: rng, m: m}
	f.fill = rng.Intn(2) == 0
	shareData := rng.Intn(3) == 0
	shareStr := rng.Intn(3) > 0
	shareLeaf := rng.Intn(5) == 0
	shareTable := rng.Intn(5) == 0
	if share { // all that can be
		shareData, shareStr, shareLeaf, shareTable = true, true, true, true
	}
	strs := map[string]*fpart{}
	datas := map[string]*fpart{}
	leaves := map[*fpart]*fpart{}
	newTable := func() *ftable {
		t := &ftable{}
		if f.fill {
			rng.Read(t.unused[:])
		}
		t.part = &fpart{kind: "table", align: 4, table: t}
		f.parts = append(f.parts, t.part)
		return t
	}
	str := func(id ident) *fpart {
		if !id.isName {
			return nil
		}
		if p := strs[id.name]; p != nil && shareStr {
			return p
		}
		al := 2
		if rng.Intn(10) == 0 {
			al = 1
		}
		p := &fpart{kind: "str", size: 2 + len(id.name), align: al, str: id.name}
		f.parts = append(f.parts, p)
		strs[id.name] = p
		return p
	}
	f.root = newTable()
	l := m.sorted()
	type tr struct{ a, b ident }
	typeT := map[ident]*ftable{}
	resT := map[tr]*ftable{}
	add := func(t *ftable, e fentry) {
		if e.id.isName {
			t.names = append(t.names, e)
		} else {
			t.ids = append(t.ids, e)
		}
	}
	var allData *fpart
	for _, e := range l {
		tt := typeT[e.typ]
		if tt == nil {
			tt = newTable()
			typeT[e.typ] = tt
			add(f.root, fentry{id: e.typ, str: str(e.typ), sub: tt})
		}
		rt := resT[tr{e.typ, e.res}]
		if rt == nil {
			rt = newTable()
			resT[tr{e.typ, e.res}] = rt
			add(tt, fentry{id: e.res, str: str(e.res), sub: rt})
		}
		var dp *fpart
		at := 0
		if shareData {
			dp = datas[string(e.data)]
			if dp == nil && allData != nil {
				if i := bytes.Index(allData.data, e.data); i >= 0 && rng.Intn(2) == 0 {
					dp, at = allData, i // data inside other data
				}
			}
		}
		if dp == nil {
			al := []int{1, 2, 4, 4, 4, 8, 8, 16}[rng.Intn(8)]
			dp = &fpart{kind: "data", size: len(e.data), align: al, data: e.data}
			f.parts = append(f.parts, dp)
			datas[string(e.data)] = dp
			if len(e.data) > 50 {
				allData = dp
			}
		}
		var lp *fpart
		if shareLeaf && at == 0 {
			if lp = leaves[dp]; lp != nil && lp.leaf.size != len(e.data) {
				lp = nil
			}
		}
		if lp == nil {
			lf := &fleaf{data: dp, size: len(e.data), at: at}
			if f.fill {
				lf.codepage, lf.reserved = rng.Uint32(), rng.Uint32()
			}
			lp = &fpart{kind: "leaf", size: 16, align: 4, leaf: lf}
			f.parts = append(f.parts, lp)
			if at == 0 {
				leaves[dp] = lp
			}
		}
		add(rt, fentry{id: ident{id: e.lang}, leaf: lp})
	}
	if shareTable {
		f.shareTables()
		if share || rng.Intn(2) == 0 {
			f.prune()
		}
	}
	// tables whose entries are in another order
	if rng.Intn(4) == 0 {
		for _, p := range f.parts {
			if t := p.table; t != nil {
				rng.Shuffle(len(t.names), func(i, j int) { t.names[i], t.names[j] = t.names[j], t.names[i] })
				rng.Shuffle(len(t.ids), func(i, j int) { t.ids[i], t.ids[j] = t.ids[j], t.ids[i] })
			}
		}
	}
	// an empty directory level
	if rng.Intn(20) == 0 && typeT[idn(0x7777)] == nil {
		e := newTable()
		add(f.root, fentry{id: idn(0x7777), sub: e})
	}
	for _, p := range f.parts {
		if p.table != nil {
			p.size = 16 + 8*(len(p.table.names)+len(p.table.ids))
		}
	}
	f.layout(far)
	return f
}

// shareTables makes equal sub-trees use a same table.
func (f *foreignRsrc) shareTables() {
	sig := func(t *ftable) string {
		var b bytes.Buffer
		for _, e := range append(append([]fentry{}, t.names...), t.ids...) {
			b.WriteString(e.id.String())
			if e.leaf == nil {
				fmt.Fprintf(&b, "[%p]", e.sub)
				continue
			}
			fmt.Fprintf(&b, "[%d]", e.leaf.leaf.size)
			b.Write(e.leaf.leaf.data.data[e.leaf.leaf.at : e.leaf.leaf.at+e.leaf.leaf.size])
		}
		return b.String()
	}
	seen := map[string]*ftable{}
	dropped := map[*fpart]bool{}
	fix := func(l []fentry) {
		for i := range l {
			t := l[i].sub
			if t == nil {
				continue
			}
			s := sig(t)
			if s == "" {
				continue
			}
			if o := seen[s]; o != nil && o != t {
				l[i].sub = o
				dropped[t.part] = true
			} else {
				seen[s] = t
			}
		}
	}
	// first the tables of languages, then those that list them
	for _, upper := range []bool{false, true} {
		for _, p := range append([]*fpart{}, f.parts...) {
			if p.table != nil && (p.table == f.root) == upper {
				fix(p.table.names)
				fix(p.table.ids)
			}
		}
	}
	var keep []*fpart
	for _, p := range f.parts {
		if !dropped[p] {
			keep = append(keep, p)
		}
	}
	f.parts = keep
}

// prune removes what nothing designates.
func (f *foreignRsrc) prune() {
	used := map[*fpart]bool{}
	var visit func(t *ftable)
	visit = func(t *ftable) {
		if used[t.part] {
			return
		}
		used[t.part] = true
		for _, e := range append(append([]fentry{}, t.names...), t.ids...) {
			if e.str != nil {
				used[e.str] = true
			}
			if e.sub != nil {
				visit(e.sub)
			}
			if e.leaf != nil {
				used[e.leaf] = true
				used[e.leaf.leaf.data] = true
			}
		}
	}
	visit(f.root)
	var keep []*fpart
	for _, p := range f.parts {
		if used[p] {
			keep = append(keep, p)
		}
	}
	f.parts = keep
}

func (f *foreignRsrc) layout(far int) {
	rng := f.rng
	rest := append([]*fpart{}, f.parts[1:]...)
	switch rng.Intn(4) {
	case 0: // anything anywhere
		rng.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
	case 1: // the usual grouping
		rank := map[string]int{"table": 0, "leaf": 1, "str": 2, "data": 3}
		sort.SliceStable(rest, func(i, j int) bool { return rank[rest[i].kind] < rank[rest[j].kind] })
	case 2: // strings before leaves, as others do
		rank := map[string]int{"table": 0, "str": 1, "leaf": 2, "data": 3}
		sort.SliceStable(rest, func(i, j int) bool { return rank[rest[i].kind] < rank[rest[j].kind] })
	case 3: // data first
		rank := map[string]int{"data": 0, "table": 1, "str": 2, "leaf": 3}
		sort.SliceStable(rest, func(i, j int) bool { return rank[rest[i].kind] < rank[rest[j].kind] })
	}
	f.parts = append([]*fpart{f.parts[0]}, rest...)
	padded := rng.Intn(3) == 0
	off := 0
	for _, p := range f.parts {
		off = (off + p.align - 1) / p.align * p.align
		if padded && p != f.parts[0] && rng.Intn(2) == 0 {
			off += p.align * rng.Intn(9)
		}
		if far > 0 && p != f.parts[0] && rng.Intn(len(f.parts)) == 0 {
			off += far / 16 * 16
			far = 0
		}
		p.off = off
		off += p.size
	}
	f.seed = rng.Int63()
}

func (f *foreignRsrc) bytes(rva uint32) []byte {
	end := 0
	for _, p := range f.parts {
		if p.off+p.size > end {
			end = p.off + p.size
		}
	}
	b := make([]byte, end)
	if f.fill {
		rand.New(rand.NewSource(f.seed)).Read(b)
	}
	for _, p := range f.parts {
		q := b[p.off:]
		switch p.kind {
		case "table":
			t := p.table
			copy(q, t.unused[:])
			le.PutUint16(q[12:], uint16(len(t.names)))
			le.PutUint16(q[14:], uint16(len(t.ids)))
			for i, e := range append(append([]fentry{}, t.names...), t.ids...) {
				x := q[16+8*i:]
				if e.id.isName {
					le.PutUint32(x, 0x80000000|uint32(e.str.off))
				} else {
					le.PutUint32(x, uint32(e.id.id))
				}
				if e.sub != nil {
					le.PutUint32(x[4:], 0x80000000|uint32(e.sub.part.off))
				} else {
					le.PutUint32(x[4:], uint32(e.leaf.off))
				}
			}
		case "str":
			le.PutUint16(q, uint16(len(p.str)/2))
			copy(q[2:], p.str)
		case "leaf":
			le.PutUint32(q, rva+uint32(p.leaf.data.off+p.leaf.at))
			le.PutUint32(q[4:], uint32(p.leaf.size))
			le.PutUint32(q[8:], p.leaf.codepage)
			le.PutUint32(q[12:], p.leaf.reserved)
		case "data":
			copy(q, p.data)
		}
	}
	return b
}
