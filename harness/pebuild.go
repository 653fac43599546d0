package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"

	"github.com/tc-hib/winres"
)

// A generator of synthetic, well-formed PE images.

type peSec struct {
	name             string
	kind             string // text data bss empty rsrc reloc
	va, vsize        uint32
	ptr, raw         uint32
	chars            uint32
	data             []byte // raw bytes of content, padded to raw when written
	gapBefore        uint32 // hidden raw data before the section
	vaGap            uint32
	relPtr, linePtr  uint32
	nrel, nline      uint16
	zeroVirtualField bool   // VirtualSize field is 0, as old linkers wrote it
	tail             []byte // what a resource section holds after resources (a packer's import table, for instance)
}

type peDir struct{ va, size uint32 }

type peSpec struct {
	pe64         bool
	machine      uint16
	lfanew       uint32
	stub         []byte
	fa, sa       uint32
	nd           int
	secs         []*peSec
	dirs         []peDir
	slack        []byte // bytes after the section table
	hdrEnd       uint32
	sizeOfHdrs   uint32
	dataOff      uint32
	overlay      []byte
	certOff      uint32 // file offset, 0 if none
	certSize     uint32
	certAtEnd    bool
	symPtr       uint32
	nsyms        uint32
	stale        uint32
	checksumMode int // 0 none, 1 right, 2 stale
	rsrc         model
	rsrcPos      string
	relocPos     string
	room         int // bytes free after the section table
	imageBase    uint64
	misc         [64]byte
	rawPermuted  bool
	desc         string
}

type peProfile struct {
	signed    int    // 0 never, 1 sometimes, 2 always
	rsrcPos   string // forced position
	noRoom    bool   // may generate images without room
	noRSRC    bool
	needsSet  model
	allowOdd  bool
	relaxed   bool
	keepSmall bool
	tiny      bool // nothing long
	share     bool // the resource section shares all it can
	high      bool // addresses reach nearly 4 GB
	highAny   bool // with high: addresses reach somewhere below
	far       int  // how far apart parts of the resource section may be
}

func align32(n, a uint32) uint32 { return (n + a - 1) / a * a }

func genPE(rng *rand.Rand, p peProfile) *peSpec {
	s := &peSpec{}
	s.pe64 = rng.Intn(2) == 0
	s.machine = []uint16{0x14c, 0x8664, 0x1c4, 0xaa64}[rng.Intn(4)]
	rng.Read(s.misc[:])
	s.fa = []uint32{0x200, 0x200, 0x200, 0x200, 0x400, 0x800, 0x1000}[rng.Intn(7)]
	s.sa = []uint32{0x1000, 0x1000, 0x1000, 0x1000, 0x2000, 0x4000, 0x10000}[rng.Intn(7)]
	if rng.Intn(25) == 0 && !p.tiny {
		s.fa = []uint32{0x2000, 0x8000, 0x10000}[rng.Intn(3)]
	}
	if rng.Intn(40) == 0 {
		s.sa = []uint32{0x200000, 0x40000, 0x8000}[rng.Intn(3)]
	}
	if rng.Intn(16) == 0 {
		// like drivers: sections are aligned in memory as they are in the file, to less than a page
		s.fa = []uint32{0x10, 0x20, 0x20, 0x40, 0x80, 0x80, 0x100, 0x200, 0x400, 0x800}[rng.Intn(10)]
		s.sa = s.fa
	}
	if s.sa < s.fa {
		s.sa = s.fa
	}
	s.nd = []int{16, 16, 16, 16, 16, 16, 6, 7, 8, 10, 13, 15}[rng.Intn(12)]
	if rng.Intn(8) == 0 {
		s.nd = 6 + rng.Intn(11)
	}
	s.imageBase = uint64(1+rng.Intn(0x7000)) << 16
	if s.pe64 && rng.Intn(2) == 0 {
		s.imageBase += 0x140000000
	}

	// sections
	s.rsrcPos = p.rsrcPos
	if s.rsrcPos == "" {
		s.rsrcPos = []string{"none", "last", "last", "last", "beforereloc", "beforereloc", "beforereloc", "middle", "middle", "first", "inother", "only"}[rng.Intn(12)]
	}
	s.relocPos = []string{"none", "last", "last", "notlast", "inother"}[rng.Intn(5)]
	if s.rsrcPos == "beforereloc" {
		s.relocPos = "last"
	}
	if s.rsrcPos == "last" && s.relocPos == "last" {
		s.relocPos = []string{"none", "notlast", "inother"}[rng.Intn(3)]
	}
	add := func(x *peSec) *peSec { s.secs = append(s.secs, x); return x }
	plain := func() {
		k := rng.Intn(10)
		switch {
		case k < 2:
			add(&peSec{name: ".text", kind: "text", chars: 0x60000020})
		case k < 4:
			add(&peSec{name: ".rdata", kind: "data", chars: 0x40000040})
		case k < 7:
			add(&peSec{name: []string{".data", ".pdata", ".idata", ".tls", "CODE", "sectname", "/4", ".\xff\xfe"}[rng.Intn(8)], kind: "data", chars: 0xC0000040})
		case k < 8:
			add(&peSec{name: ".bss", kind: "bss", chars: 0xC0000080})
		case k < 9:
			add(&peSec{name: ".data1", kind: "empty", chars: 0xC0000040})
		default:
			add(&peSec{name: ".debug$", kind: "data", chars: 0x42000040})
		}
	}
	rsrc := func() { add(&peSec{name: ".rsrc", kind: "rsrc", chars: 0x40000040}) }
	reloc := func() { add(&peSec{name: ".reloc", kind: "reloc", chars: 0x42000040}) }
	nplain := 1 + rng.Intn(5)
	if rng.Intn(30) == 0 && !p.keepSmall {
		nplain = 20 + rng.Intn(80)
		if k := rng.Intn(10); k < 2 {
			nplain = 6 + rng.Intn(20)
		} else if k < 4 {
			nplain = 80 + rng.Intn(600)
		} else if k < 6 {
			nplain = 1500 + rng.Intn(500) // 64 KB of headers
			if s.sa > 0x10000 {
				s.sa = 0x10000
			}
		}
	}
	if s.rsrcPos == "only" {
		rsrc()
		s.relocPos = "none"
	} else {
		if s.rsrcPos == "first" {
			rsrc()
		}
		add(&peSec{name: ".text", kind: "text", chars: 0x60000020})
		mid := rng.Intn(nplain)
		for i := 0; i < nplain; i++ {
			if i == mid {
				if s.rsrcPos == "middle" && rng.Intn(2) == 0 {
					rsrc()
					if s.relocPos == "notlast" {
						reloc()
					}
				} else if s.rsrcPos == "middle" {
					if s.relocPos == "notlast" {
						reloc()
					}
					rsrc()
				} else if s.relocPos == "notlast" {
					reloc()
				}
			}
			plain()
		}
		if s.rsrcPos == "last" || s.rsrcPos == "beforereloc" {
			rsrc()
		}
		if s.relocPos == "last" {
			reloc()
		}
	}

	// section contents
	for _, x := range s.secs {
		n := uint32(1 + rng.Intn(3000))
		switch rng.Intn(6) {
		case 0:
			n = s.fa * uint32(1+rng.Intn(3))
		case 1:
			n = s.sa
			if n > 0x4000 {
				n = 0x4000
			}
		}
		switch x.kind {
		case "bss":
			x.vsize = n
			if rng.Intn(4) == 0 {
				x.raw = align32(n, s.fa) // some linkers wrote the size, without any pointer
			}
		case "empty":
			x.vsize = n
		case "rsrc":
			// filled below, once the address is known; only the size matters here
		default:
			x.data = make([]byte, n)
			rng.Read(x.data)
			x.raw = align32(n, s.fa)
			switch rng.Intn(8) {
			case 0:
				x.vsize = n + uint32(rng.Intn(0x3000)) // zero filled part
			case 1:
				x.vsize = align32(n, s.fa)
			case 2:
				x.vsize = uint32(len(x.data)) // usual
				if x.raw > s.fa && x.vsize > 8 {
					x.vsize -= uint32(rng.Intn(8)) // raw data longer than what is loaded
				}
			case 3:
				if rng.Intn(6) == 0 && align32(x.raw, s.sa) == align32(n, s.sa) {
					x.zeroVirtualField = true
				}
				x.vsize = n
			default:
				x.vsize = n
			}
			if rng.Intn(10) == 0 {
				x.raw += s.fa * uint32(1+rng.Intn(2))
				if x.zeroVirtualField {
					x.zeroVirtualField = false
				}
			}
		}
	}

	for _, x := range s.secs {
		if x.kind != "rsrc" && !x.zeroVirtualField && rng.Intn(12) == 0 { // one byte into a page, or short of it
			x.vsize = align32(x.vsize, s.sa) + 1
			if rng.Intn(3) == 0 {
				x.vsize -= 2
			}
		}
	}

	// resources
	if p.needsSet != nil {
		s.rsrc = p.needsSet
	} else {
		s.rsrc = model{}
		for i, n := 0, rng.Intn(8); i < n; i++ {
			s.rsrc[rkey{genType(rng), genIdent(rng), genLang(rng)}] = genData(rng, 5000)
		}
		if rng.Intn(12) == 0 {
			s.rsrc[rkey{idn(10), idn(999), 0}] = randBytes(rng, 20000)
		}
	}
	enc := newForeignRsrc(rng, s.rsrc, p.far, p.share)
	rsrcContent := enc.bytes(0)
	for _, x := range s.secs {
		if x.kind != "rsrc" {
			continue
		}
		x.data = rsrcContent
		if rng.Intn(12) == 0 && s.nd > 2 {
			x.tail = randBytes(rng, 16+4*rng.Intn(200))
			for (len(x.data)+len(x.tail))%4 != 0 {
				x.tail = append([]byte{0}, x.tail...)
			}
			x.data = append(append([]byte{}, x.data...), x.tail...)
		}
		n := uint32(len(x.data))
		x.raw = align32(n, s.fa)
		x.vsize = n
		switch rng.Intn(8) {
		case 0:
			x.vsize = align32(n, s.fa)
		case 4:
			x.vsize = align32(n, s.sa) + uint32(rng.Intn(2))
		case 1:
			x.vsize = n + uint32(rng.Intn(0x2800)) // virtual size beyond raw data
		case 2:
			x.raw += s.fa * uint32(1+rng.Intn(4)) // spare raw room
		case 3:
			x.raw += align32(uint32(rng.Intn(0x6000)), s.fa)
			if rng.Intn(2) == 0 {
				x.vsize = x.raw
			}
		case 5:
			x.zeroVirtualField = rng.Intn(3) == 0 && align32(x.raw, s.sa) == align32(n, s.sa)
		}
	}

	// headers
	optSize := uint32(96)
	if s.pe64 {
		optSize = 112
	}
	optSize += uint32(8 * s.nd)
	s.lfanew = 0x40 + 8*uint32(rng.Intn(24))
	if rng.Intn(5) == 0 {
		s.lfanew += 4
	}
	fixed := 24 + optSize + 40*uint32(len(s.secs))
	if p.high {
		fixed += 40
	}
	s.room = -1
	if rng.Intn(4) == 0 || p.noRoom {
		want := []uint32{40, 40, 40, 48, 64, 44}[rng.Intn(6)]
		if p.noRoom {
			want = []uint32{0, 8, 16, 24, 32, 36, 4}[rng.Intn(7)]
		}
		base := 0x40 + fixed + want
		s.lfanew = 0x40 + (s.fa-base%s.fa)%s.fa
		if rng.Intn(3) == 0 && s.sa <= 0x10000 { // the first section may come right after
			s.lfanew = 0x40 + (s.sa-base%s.sa)%s.sa
		}
	} else if rng.Intn(60) == 0 && !p.tiny {
		s.lfanew += 8 * uint32(rng.Intn(0x5000))
	}
	s.hdrEnd = s.lfanew + fixed
	s.sizeOfHdrs = align32(s.hdrEnd, s.fa)
	for !p.noRoom && s.sizeOfHdrs-s.hdrEnd < 40 {
		s.sizeOfHdrs += s.fa
	}
	s.dataOff = s.sizeOfHdrs
	if rng.Intn(12) == 0 || p.noRoom && rng.Intn(2) == 0 {
		s.dataOff += s.fa * uint32(1+rng.Intn(2)) // data does not start right after the headers
	}
	s.room = int(s.sizeOfHdrs - s.hdrEnd)
	s.stub = make([]byte, s.lfanew)
	rng.Read(s.stub)
	s.slack = make([]byte, s.dataOff-s.hdrEnd)
	switch rng.Intn(4) {
	case 0: // beyond what a new section header would take
		if len(s.slack) > 40 {
			rng.Read(s.slack[40:])
		}
	case 1:
		if rng.Intn(3) == 0 {
			rng.Read(s.slack)
		}
	}

	// addresses
	if p.high {
		// a section of zeros fills up the address space, but for some room
		x := &peSec{name: ".bss", kind: "bss", chars: 0xC0000080}
		s.secs = append(s.secs[:1:1], append([]*peSec{x}, s.secs[1:]...)...)
		used := align32(s.sizeOfHdrs+40, s.sa)
		for _, y := range s.secs {
			used += align32(y.vsize, s.sa)
			if y.vsize == 0 {
				used += align32(y.raw, s.sa)
			}
		}
		room := uint32(0)
		switch rng.Intn(4) {
		case 0:
		case 1:
			room = uint32(rng.Intn(0x10000))
		default:
			room = uint32(rng.Intn(0x80000))
		}
		x.vsize = (0xFFFFFFFF - 2*s.sa - used - room) / s.sa * s.sa
		if p.highAny {
			x.vsize = align32(x.vsize>>uint(rng.Intn(14)), s.sa)
		}
	}
	va := align32(s.sizeOfHdrs, s.sa)
	for i, x := range s.secs {
		if i > 0 && rng.Intn(25) == 0 && !p.high {
			x.vaGap = s.sa * uint32(1+rng.Intn(3))
			va += x.vaGap
		}
		x.va = va
		va += align32(x.vsize, s.sa)
		if x.vsize == 0 {
			va += align32(x.raw, s.sa)
		}
	}
	// raw order
	order := make([]*peSec, len(s.secs))
	copy(order, s.secs)
	if rng.Intn(6) == 0 {
		s.rawPermuted = true
		rng.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	ptr := s.dataOff
	for i, x := range order {
		if x.kind == "bss" || x.kind == "empty" {
			if x.kind == "empty" && rng.Intn(3) == 0 {
				x.ptr = ptr // a pointer, without any data
			}
			continue
		}
		if i > 0 && rng.Intn(20) == 0 && ptr > s.dataOff {
			x.gapBefore = s.fa
			ptr += s.fa
		}
		x.ptr = ptr
		ptr += x.raw
	}
	rawEnd := ptr

	// resource section's content
	s.dirs = make([]peDir, s.nd)
	for _, x := range s.secs {
		if x.kind != "rsrc" {
			continue
		}
		x.data = append(append([]byte{}, enc.bytes(x.va)...), x.tail...)
		sz := uint32(len(x.data))
		if rng.Intn(4) == 0 {
			sz = x.vsize
		}
		if rng.Intn(8) == 0 { // it is not used by the system
			sz = []uint32{0, 0, 1, 16, uint32(rng.Intn(0x1000)), rng.Uint32() >> uint(rng.Intn(32))}[rng.Intn(6)]
		}
		s.dirs[2] = peDir{x.va, sz}
	}
	hosts := func() []*peSec {
		var l []*peSec
		for _, x := range s.secs {
			if (x.kind == "text" || x.kind == "data") && len(x.data) > 64 {
				l = append(l, x)
			}
		}
		return l
	}()
	inside := func(atStart bool) peDir {
		x := hosts[rng.Intn(len(hosts))]
		off := uint32(0)
		lim := x.vsize
		if uint32(len(x.data)) < lim {
			lim = uint32(len(x.data))
		}
		if !atStart {
			off = uint32(4 * (1 + rng.Intn(int(lim/8))))
		}
		return peDir{x.va + off, uint32(1 + rng.Intn(int(lim-off)))}
	}
	if s.rsrcPos == "inother" {
		if len(hosts) > 0 {
			s.dirs[2] = inside(false)
		}
		s.rsrc = nil
	}
	if s.rsrcPos == "none" {
		s.rsrc = nil
	}
	for _, x := range s.secs {
		if x.kind == "reloc" {
			s.dirs[5] = peDir{x.va, uint32(len(x.data))}
		}
	}
	if s.relocPos == "inother" && len(hosts) > 0 {
		s.dirs[5] = inside(false)
	}
	for i := range s.dirs {
		if i == 2 || i == 4 || i == 5 || i == 11 || len(hosts) == 0 {
			continue
		}
		switch rng.Intn(5) {
		case 0, 1:
			s.dirs[i] = inside(false)
		case 2:
			s.dirs[i] = inside(true)
		}
		if i == 8 {
			s.dirs[i].size = 0
		}
	}
	// the directory of a relocation section may share that section with others
	for _, x := range s.secs {
		if x.kind == "reloc" && rng.Intn(4) == 0 && len(x.data) > 16 && s.nd > 6 {
			s.dirs[6] = peDir{x.va + uint32(len(x.data)/2), uint32(len(x.data) / 4)}
			for i := 7; i < s.nd; i++ {
				// such as the global pointer, which has no size
				if i != 11 && rng.Intn(6) == 0 {
					s.dirs[i] = peDir{x.va + uint32(rng.Intn(len(x.data))), uint32(rng.Intn(2) * rng.Intn(8))}
				}
			}
			if s.nd > 8 && rng.Intn(2) == 0 {
				s.dirs[8] = peDir{x.va + uint32(rng.Intn(len(x.data))), 0}
			}
		}
	}
	// a packer's resource section holds other things too
	for _, x := range s.secs {
		if len(x.tail) == 0 {
			continue
		}
		done := false
		for i := range s.dirs {
			if i == 2 || i == 4 || i == 11 || i == 5 && s.dirs[5].va != 0 && s.relocPos != "none" {
				continue
			}
			if rng.Intn(5) != 0 && (done || i != 1) {
				continue
			}
			done = true
			off := 4 * rng.Intn(len(x.tail)/8)
			s.dirs[i] = peDir{x.va + uint32(len(x.data)-len(x.tail)+off), uint32(1 + rng.Intn(len(x.tail)-off))}
			if i == 8 {
				s.dirs[i].size = 0
			}
		}
	}
	// bound imports live between the headers and the first section
	if s.nd > 11 && len(s.slack) > 80 && rng.Intn(8) == 0 {
		o := uint32(40)
		if rng.Intn(3) == 0 {
			o = 0
		}
		s.dirs[11] = peDir{s.hdrEnd + o, 32}
		if s.hdrEnd+o+32 <= s.sizeOfHdrs {
			rng.Read(s.slack[o : o+32])
		} else {
			s.dirs[11] = peDir{}
		}
	}

	// overlay
	switch rng.Intn(5) {
	case 0, 1:
	case 2:
		s.overlay = randBytes(rng, 1+rng.Intn(2000))
	case 3:
		s.overlay = randBytes(rng, 1+rng.Intn(8))
	case 4: // COFF symbols, as GNU tools leave them
		s.nsyms = uint32(1 + rng.Intn(20))
		s.symPtr = rawEnd
		o := make([]byte, 18*s.nsyms+4+uint32(rng.Intn(30)))
		rng.Read(o)
		le.PutUint32(o[18*s.nsyms:], uint32(len(o))-18*s.nsyms)
		if rng.Intn(3) == 0 {
			pre := randBytes(rng, 1+rng.Intn(60))
			s.symPtr += uint32(len(pre))
			o = append(append([]byte{}, pre...), o...)
		}
		if rng.Intn(3) == 0 {
			o = append(o, randBytes(rng, 1+rng.Intn(60))...)
		}
		s.overlay = o
	}
	if s.symPtr == 0 && rng.Intn(8) == 0 && len(hosts) > 0 { // symbols inside a section, as Go does
		x := hosts[rng.Intn(len(hosts))]
		n := uint32(len(x.data)-8) / 18
		if n > 0 {
			s.nsyms = n
			s.symPtr = x.ptr
		}
	}
	if p.signed == 2 || p.signed == 1 && rng.Intn(2) == 0 {
		for (rawEnd+uint32(len(s.overlay)))%8 != 0 {
			s.overlay = append(s.overlay, 0)
		}
		s.certOff = rawEnd + uint32(len(s.overlay))
		s.certSize = 8 * uint32(1+rng.Intn(100))
		if rng.Intn(4) == 0 && !p.tiny {
			s.certSize = 8 * uint32(1+rng.Intn(16<<uint(rng.Intn(9))))
		}
		if rng.Intn(3) == 0 { // its length is meant to be padded, some tools do not
			s.certSize += uint32(1 + rng.Intn(7))
		}
		if rng.Intn(15) == 0 && !p.tiny {
			s.certSize += 8 * uint32(0x1F00+rng.Intn(0x4000))
		}
		cert := make([]byte, s.certSize)
		rng.Read(cert)
		le.PutUint32(cert, s.certSize)
		le.PutUint32(cert[4:], 0x00020200)
		s.overlay = append(s.overlay, cert...)
		s.certAtEnd = true
		if rng.Intn(3) == 0 {
			s.certAtEnd = false
			s.overlay = append(s.overlay, randBytes(rng, 1+rng.Intn([]int{7, 15, 100}[rng.Intn(3)]))...)
		}
		s.dirs[4] = peDir{s.certOff, s.certSize}
	}
	s.checksumMode = rng.Intn(3)
	s.stale = rng.Uint32() | 1
	switch rng.Intn(6) {
	case 0:
		s.stale = uint32(1+rng.Intn(0xFFFF)) << 16
	case 1:
		s.stale = 1 << uint(rng.Intn(32))
	case 2:
		s.stale = []uint32{0xFFFFFFFF, 0xFFFF, 0xFFFF0000, 0x80000000}[rng.Intn(4)]
	}
	var names []string
	for _, x := range s.secs {
		if len(names) < 12 {
			names = append(names, x.kind)
		}
	}
	s.desc = fmt.Sprintf("pe64=%v fa=%#x sa=%#x dirs=%d sections=%v(%d) rsrc=%s reloc=%s room=%d overlay=%d cert=%v syms=%d checksum=%d permuted=%v",
		s.pe64, s.fa, s.sa, s.nd, names, len(s.secs), s.rsrcPos, s.relocPos, s.room, len(s.overlay), s.certOff > 0, s.nsyms, s.checksumMode, s.rawPermuted)
	return s
}

func (s *peSpec) build() []byte {
	var b bytes.Buffer
	stub := append([]byte{}, s.stub...)
	copy(stub, "MZ")
	le.PutUint32(stub[0x3C:], s.lfanew)
	b.Write(stub)
	b.WriteString("PE\x00\x00")
	u16 := func(v uint16) { b.Write([]byte{byte(v), byte(v >> 8)}) }
	u32 := func(v uint32) { b.Write([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}) }
	u64 := func(v uint64) { u32(uint32(v)); u32(uint32(v >> 32)) }
	m32 := func(i int) uint32 { return le.Uint32(s.misc[i:]) }
	m16 := func(i int) uint16 { return le.Uint16(s.misc[i:]) }
	u16(s.machine)
	u16(uint16(len(s.secs)))
	u32(m32(0))
	u32(s.symPtr)
	u32(s.nsyms)
	opt := uint16(96 + 8*s.nd)
	if s.pe64 {
		opt += 16
	}
	u16(opt)
	u16(0x0002 | m16(4)&0x0120)
	if s.pe64 {
		u16(0x20b)
	} else {
		u16(0x10b)
	}
	b.Write(s.misc[6:8])
	var code, init, uninit, image, entry, baseCode, baseData uint32
	for _, x := range s.secs {
		switch {
		case x.chars&0x20 != 0:
			code += x.raw
			if entry == 0 {
				entry, baseCode = x.va+uint32(len(x.data)/2), x.va
			}
		case x.chars&0x80 != 0:
			uninit += align32(x.vsize, s.fa)
		default:
			init += x.raw
			if baseData == 0 {
				baseData = x.va
			}
		}
		image = x.va + align32(x.effVirt(), s.sa)
	}
	if len(s.secs) == 0 {
		image = align32(s.sizeOfHdrs, s.sa)
	}
	u32(code)
	u32(init)
	u32(uninit)
	u32(entry)
	u32(baseCode)
	if s.pe64 {
		u64(s.imageBase)
	} else {
		u32(baseData)
		u32(uint32(s.imageBase))
	}
	u32(s.sa)
	u32(s.fa)
	b.Write(s.misc[8:16])
	u16(6)
	u16(m16(16))
	u32(m32(18)) // Win32VersionValue
	u32(image)
	u32(s.sizeOfHdrs)
	sumPos := b.Len()
	u32(0)
	u16(3)
	u16(m16(22))
	if s.pe64 {
		u64(uint64(m32(24)))
		u64(uint64(m32(28)))
		u64(uint64(m32(32)) | uint64(m16(50))<<32)
		u64(uint64(m32(36)))
	} else {
		u32(m32(24))
		u32(m32(28))
		u32(m32(32))
		u32(m32(36))
	}
	u32(m32(40)) // loader flags
	u32(uint32(s.nd))
	for _, d := range s.dirs {
		u32(d.va)
		u32(d.size)
	}
	for _, x := range s.secs {
		var n [8]byte
		copy(n[:], x.name)
		b.Write(n[:])
		if x.zeroVirtualField {
			u32(0)
		} else {
			u32(x.vsize)
		}
		u32(x.va)
		u32(x.raw)
		u32(x.ptr)
		u32(x.relPtr)
		u32(x.linePtr)
		u16(x.nrel)
		u16(x.nline)
		u32(x.chars)
	}
	if b.Len() != int(s.hdrEnd) {
		panic(fmt.Sprintf("harness: headers end at %d, planned %d", b.Len(), s.hdrEnd))
	}
	b.Write(s.slack)
	var rawSecs []*peSec
	for _, x := range s.secs {
		if x.kind != "bss" && x.kind != "empty" {
			rawSecs = append(rawSecs, x)
		}
	}
	sort.Slice(rawSecs, func(i, j int) bool { return rawSecs[i].ptr < rawSecs[j].ptr })
	for _, x := range rawSecs {
		for b.Len() < int(x.ptr) {
			b.WriteByte(byte(b.Len()*7 + 1))
		}
		b.Write(x.data)
		pad := int(x.raw) - len(x.data)
		fill := byte(0)
		if x.kind == "text" {
			fill = 0xCC
		}
		b.Write(bytes.Repeat([]byte{fill}, pad))
	}
	b.Write(s.overlay)
	out := b.Bytes()
	switch s.checksumMode {
	case 1:
		le.PutUint32(out[sumPos:], peChecksum(out, sumPos))
	case 2:
		le.PutUint32(out[sumPos:], s.stale)
	}
	return out
}

func (x *peSec) effVirt() uint32 {
	if x.zeroVirtualField || x.vsize == 0 {
		return x.raw
	}
	return x.vsize
}

// peChecksum is the documented algorithm: sum of 16-bit words with carries folded, plus the length.
func peChecksum(b []byte, fieldPos int) uint32 {
	var sum uint64
	for i := 0; i < len(b); i += 2 {
		w := uint64(b[i])
		if i >= fieldPos && i < fieldPos+4 {
			w = 0
		}
		if i+1 < len(b) {
			v := uint64(b[i+1])
			if i+1 >= fieldPos && i+1 < fieldPos+4 {
				v = 0
			}
			w |= v << 8
		}
		sum += w
	}
	for sum>>16 != 0 {
		sum = sum&0xFFFF + sum>>16
	}
	return uint32(sum) + uint32(len(b))
}

type patchOpts struct {
	force bool
	auth  int // 0 default, 1 remove, 2 ignore
}

func (s *peSpec) options(rng *rand.Rand) patchOpts {
	o := patchOpts{force: rng.Intn(2) == 0}
	if s.certOff > 0 {
		o.auth = 1 + rng.Intn(2)
	} else {
		o.auth = rng.Intn(3)
	}
	return o
}

func patch(rs *winres.ResourceSet, src []byte, o patchOpts) ([]byte, error) {
	var b bytes.Buffer
	err := patchTo(&b, bytes.NewReader(src), rs, o)
	return b.Bytes(), err
}
