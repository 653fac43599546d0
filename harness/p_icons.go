package main

import (
	"bytes"
	"fmt"
	"image"
	"io"
	"math/rand"
	"sort"
	"strings"

	"github.com/tc-hib/winres"
)

// C17, C18, C21: icons and cursors, through files, sets, objects and executables.

// dirKind lets the same checks run for icons and cursors.
type dirKind struct {
	name    string
	typ     uint16
	group   ident
	img     ident
	gen     func(*rand.Rand) dirImage
	load    func(io.ReadSeeker) (interface{}, error)
	save    func(interface{}, io.Writer) error
	set     func(*winres.ResourceSet, ident, interface{}) error
	setLang func(*winres.ResourceSet, ident, uint16, interface{}) error
	get     func(*winres.ResourceSet, ident) (interface{}, error)
	getLang func(*winres.ResourceSet, ident, uint16) (interface{}, error)
	colors  bool // the file format's colour count is kept
}

var icoKind = &dirKind{
	name: "icon", typ: 1, group: idn(14), img: idn(3), gen: genIcoImage, colors: true,
	load: func(r io.ReadSeeker) (interface{}, error) { x, err := winres.LoadICO(r); return x, err },
	save: func(x interface{}, w io.Writer) error { return x.(*winres.Icon).SaveICO(w) },
	set: func(rs *winres.ResourceSet, id ident, x interface{}) error {
		return rs.SetIcon(id.wr(), x.(*winres.Icon))
	},
	setLang: func(rs *winres.ResourceSet, id ident, l uint16, x interface{}) error {
		return rs.SetIconTranslation(id.wr(), l, x.(*winres.Icon))
	},
	get: func(rs *winres.ResourceSet, id ident) (interface{}, error) {
		x, err := rs.GetIcon(id.wr())
		return x, err
	},
	getLang: func(rs *winres.ResourceSet, id ident, l uint16) (interface{}, error) {
		x, err := rs.GetIconTranslation(id.wr(), l)
		return x, err
	},
}

var curKind = &dirKind{
	name: "cursor", typ: 2, group: idn(12), img: idn(1), gen: genCurImage,
	load: func(r io.ReadSeeker) (interface{}, error) { x, err := winres.LoadCUR(r); return x, err },
	save: func(x interface{}, w io.Writer) error { return x.(*winres.Cursor).SaveCUR(w) },
	set: func(rs *winres.ResourceSet, id ident, x interface{}) error {
		return rs.SetCursor(id.wr(), x.(*winres.Cursor))
	},
	setLang: func(rs *winres.ResourceSet, id ident, l uint16, x interface{}) error {
		return rs.SetCursorTranslation(id.wr(), l, x.(*winres.Cursor))
	},
	get: func(rs *winres.ResourceSet, id ident) (interface{}, error) {
		x, err := rs.GetCursor(id.wr())
		return x, err
	},
	getLang: func(rs *winres.ResourceSet, id ident, l uint16) (interface{}, error) {
		x, err := rs.GetCursorTranslation(id.wr(), l)
		return x, err
	},
}

// saved gives the images of an icon or cursor, as its file lists them.
func (k *dirKind) saved(x interface{}, what string) ([]dirImage, string) {
	var b bytes.Buffer
	if err := k.save(x, &b); err != nil {
		return nil, fmt.Sprintf("saving %s: %v", what, err)
	}
	l, err := parseDirFile(b.Bytes(), k.typ, true)
	if err != nil {
		return nil, fmt.Sprintf("file saved from %s: %v", what, err)
	}
	return l, ""
}

// shows tells whether x is made of these images.
func (k *dirKind) same(x interface{}, want []dirImage, what string) string {
	l, s := k.saved(x, what)
	if s != "" {
		return s
	}
	if s := sameImages(l, want, k.colors); s != "" {
		return what + ": " + s
	}
	return ""
}

// listed is same, and the file lists the images as it should.
func (k *dirKind) listed(x interface{}, want []dirImage, what string) string {
	if s := k.same(x, want, what); s != "" {
		return s
	}
	l, s := k.saved(x, what)
	if s != "" {
		return s
	}
	if s := k.ordered(l, want); s != "" {
		return fmt.Sprintf("file saved from %s: %s", what, s)
	}
	return ""
}

// ordered tells whether images come by decreasing depth, then width, and otherwise as they were given.
func (k *dirKind) ordered(l, want []dirImage) string {
	depth := func(d *dirImage) uint16 {
		if k.typ == 1 {
			return d.b
		}
		_, b := cursorDepth(d.data)
		return b
	}
	want = append([]dirImage{}, want...)
	sort.SliceStable(want, func(i, j int) bool {
		a, b := &want[i], &want[j]
		return depth(a) > depth(b) || depth(a) == depth(b) && side(a.w) > side(b.w)
	})
	for i := range want {
		if l[i].key(k.colors) != want[i].key(k.colors) {
			return fmt.Sprintf("image %d is %s, depth %d, want %s, depth %d", i, l[i].attrs(), depth(&l[i]), want[i].attrs(), depth(&want[i]))
		}
	}
	return ""
}

// groupImages reads a group in stored resources, independently.
func (k *dirKind) groupImages(m model, key rkey) ([]dirImage, error) {
	g, ok := m[key]
	if !ok {
		return nil, fmt.Errorf("no group %s", key)
	}
	if len(g) < 6 || le.Uint16(g) != 0 || le.Uint16(g[2:]) != k.typ {
		return nil, fmt.Errorf("group %s has a wrong header", key)
	}
	n := int(le.Uint16(g[4:]))
	if len(g) != 6+14*n {
		return nil, fmt.Errorf("group %s is %d bytes long, for %d images", key, len(g), n)
	}
	var l []dirImage
	for i := 0; i < n; i++ {
		e := g[6+14*i:]
		id := le.Uint16(e[12:])
		d, ok := m[rkey{k.img, idn(id), 0}]
		if !ok {
			return nil, fmt.Errorf("group %s refers to image %d which does not exist", key, id)
		}
		if s := le.Uint32(e[8:]); int(s) != len(d) {
			return nil, fmt.Errorf("group %s says image %d is %d bytes long, it is %d", key, id, s, len(d))
		}
		if k.typ == 1 {
			l = append(l, dirImage{e[0], e[1], e[2], e[3], le.Uint16(e[4:]), le.Uint16(e[6:]), d})
			continue
		}
		if len(d) < 4 {
			return nil, fmt.Errorf("cursor image %d has no hot spot", id)
		}
		w, h := le.Uint16(e), le.Uint16(e[2:])
		if w == 0 || w > 256 || h == 0 || h > 256 {
			return nil, fmt.Errorf("group %s says image %d is %dx%d", key, id, w, h)
		}
		p, b := cursorDepth(d[4:])
		if gp, gb := le.Uint16(e[4:]), le.Uint16(e[6:]); gp != p || gb != b {
			return nil, fmt.Errorf("group %s says image %d has %d planes, %d bits; it has %d, %d", key, id, gp, gb, p, b)
		}
		l = append(l, dirImage{w: uint8(w), h: uint8(h), a: le.Uint16(d), b: le.Uint16(d[2:]), data: d[4:]})
	}
	return l, nil
}

// holds tells whether a stored group is made of these images, in any order.
func (k *dirKind) holds(m model, key rkey, want []dirImage) string {
	l, err := k.groupImages(m, key)
	if err != nil {
		return err.Error()
	}
	if s := sameImages(l, want, k.colors); s != "" {
		return fmt.Sprintf("group %s: %s", key, s)
	}
	return ""
}

// checkStored is holds, and the group lists the images as it should.
func (k *dirKind) checkStored(m model, key rkey, want []dirImage) string {
	if s := k.holds(m, key, want); s != "" {
		return s
	}
	l, _ := k.groupImages(m, key)
	if s := k.ordered(l, want); s != "" {
		return fmt.Sprintf("group %s: %s", key, s)
	}
	return ""
}

func openAny(rng *rand.Rand, b []byte) (io.ReadSeeker, func()) {
	k := srcKinds[rng.Intn(len(srcKinds)-1)]
	return k.open(b, rng, "")
}

// otherResources are resources that have nothing to do with icons and cursors.
func otherResources(rng *rand.Rand) model {
	m := model{}
	for k, d := range genModel(rng) {
		if k.typ.isName || k.typ.id > 14 || k.typ.id == 10 {
			m[k] = d
		}
	}
	return m
}

// dirFileCase: file -> icon -> file, set, object, executable.
func dirFileCase(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		n := []int{0, 1, 2, 3, 5, 8, 1 + rng.Intn(30), 1 + rng.Intn(30)}[rng.Intn(8)]
		if rng.Intn(25) == 0 {
			n = []int{250 + rng.Intn(20), 250 + rng.Intn(20), 30 + rng.Intn(110), 60 + rng.Intn(70), 300 + rng.Intn(900)}[rng.Intn(5)]
		}
		want := genImages(rng, n, k.gen)
		file := buildDirFile(rng, k.typ, want)
		c.Attach("input", file)
		desc := fmt.Sprintf("%s of %d images: %s", k.name, n, listAttrs(want))
		r, cl := openAny(rng, file)
		x, err := k.load(r)
		cl()
		if err != nil {
			c.Failf("load", "loading fails: %v (%s)", err, desc)
		}
		check := func(x interface{}, err error, what string) {
			if err != nil {
				c.Failf("get:"+what, "%s: %v (%s)", what, err, desc)
			}
			if s := k.listed(x, want, what); s != "" {
				c.Failf("images:"+what, "%s (%s)", s, desc)
			}
			c.Event(what, 1)
			c.Event("images compared", n)
		}
		check(x, nil, "what was loaded")

		others := otherResources(rng)
		rs := others.build(c, rng)
		id, lang := genIdent(rng), uint16(0)
		// another one before, so that IDs do not start from 1
		if rng.Intn(2) == 0 {
			y, err := k.load(bytes.NewReader(buildDirFile(rng, k.typ, genImages(rng, rng.Intn(5), k.gen))))
			if err != nil {
				c.Failf("load", "loading fails: %v", err)
			}
			if err := k.set(rs, idn(uint16(60000+rng.Intn(1000))), y); err != nil {
				c.Failf("set", "%v", err)
			}
		}
		if rng.Intn(2) == 0 {
			err = k.set(rs, id, x)
		} else {
			lang = genLang(rng)
			err = k.setLang(rs, id, lang, x)
		}
		if err != nil {
			c.Failf("set", "storing as %s fails: %v (%s)", id, err, desc)
		}
		key := rkey{k.group, id, lang}
		stored := entriesModel(walkEntries(rs))
		if s := k.checkStored(stored, key, want); s != "" {
			c.Failf("stored", "%s (%s)", s, desc)
		}
		c.Event("groups read", 1)
		y, err := k.get(rs, id)
		check(y, err, "what the set gives")
		y, err = k.getLang(rs, id, lang)
		check(y, err, "what the set gives by language")
		// still the same after being stored
		check(x, nil, "what was loaded")

		// Through an object, linked
		arch := archs[rng.Intn(4)]
		obj, err := parseCOFF(writeObj(c, rs, arch), arch)
		if err == nil {
			linked := exeWithRSRC(rng, func(rva uint32) []byte { return obj.link(rva) })
			if t, err := decodeRsrc(obj.link(0x2000), 0x2000, false); err != nil {
				c.Failf("object", "%v (%s)", err, desc)
			} else if s := k.checkStored(entriesModel(t.entries), key, want); s != "" {
				c.Failf("object", "in the object, %s (%s)", s, desc)
			}
			if rs2, err := winres.LoadFromEXE(bytes.NewReader(linked)); err != nil {
				c.Failf("object", "loading what was linked: %v (%s)", err, desc)
			} else {
				y, err = k.get(rs2, id)
				check(y, err, "what was linked from an object")
			}
		} else {
			c.Failf("object", "%v", err)
		}
		// Through an executable
		spec := genPE(rng, peProfile{keepSmall: true, rsrcPos: []string{"none", "last"}[rng.Intn(2)]})
		out, err := patch(rs, spec.build(), patchOpts{})
		if err != nil {
			c.Failf("patch", "%v (%s)", err, spec.desc)
		}
		rs3, err := winres.LoadFromEXE(bytes.NewReader(out))
		if err != nil {
			c.Failf("exe", "loading the executable: %v", err)
		}
		y, err = k.getLang(rs3, id, lang)
		check(y, err, "what the executable holds")
		if s := k.checkStored(entriesModel(walkEntries(rs3)), key, want); s != "" {
			c.Failf("exe", "in the executable, %s (%s)", s, desc)
		}
		rs4, err := winres.LoadFromEXESingleType(bytes.NewReader(out), k.group.wr())
		if err != nil {
			c.Failf("exe", "loading one type of the executable: %v", err)
		}
		y, err = k.get(rs4, id)
		check(y, err, "what the executable holds, loading groups only")
		// and again, what was extracted goes on to another set
		rs5 := &winres.ResourceSet{}
		if err := k.set(rs5, id, y); err != nil {
			c.Failf("set", "storing what was extracted: %v (%s)", err, desc)
		}
		if s := k.checkStored(entriesModel(walkEntries(rs5)), rkey{k.group, id, 0}, want); s != "" {
			c.Failf("stored-again", "%s (%s)", s, desc)
		}
		if n > 0 {
			c.Nontrivial(file)
		}
		c.Sample("%s", desc)
	}
}

// notDirFile: files that are not ICO or CUR files, or that lack a part of an image.
func notDirFile(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		n := rng.Intn(6)
		want := genImages(rng, n, k.gen)
		if k.typ == 2 && n > 0 && rng.Intn(3) == 0 {
			// not an image
			d := &want[rng.Intn(n)]
			d.data = append([]byte{}, d.data...)
			what := ""
			if rng.Intn(3) == 0 && d.data[0] != 0x89 {
				d.data = d.data[:rng.Intn(16)]
				what = fmt.Sprintf("an image of %d bytes", len(d.data))
			} else {
				hs := []uint32{0, 1, 39, 41, 107, 109, 123, 125, 296, 40 << 8, 0x01000028, 0x00010028, 0x80000028, 0x0100006C, 124 << 24}[rng.Intn(15)]
				le.PutUint32(d.data, hs)
				what = fmt.Sprintf("an image that starts with %#x", hs)
			}
			file := buildDirFile(rng, k.typ, want)
			if _, err := k.load(bytes.NewReader(file)); err == nil {
				c.Attach("input", file)
				c.Failf("not-an-image", "a file with %s was accepted: %s", what, listAttrs(want))
			}
			c.Event("files refused", 1)
			c.Nontrivial(file)
			return
		}
		file := buildDirFile(rng, k.typ, want)
		what := ""
		switch r := rng.Intn(4); {
		case r == 0:
			t := []uint16{0, 3 - k.typ, 3, 0x100, 0x200, 0x101, 0x202, 0xFFFF, k.typ | 0x8000}[rng.Intn(9)]
			le.PutUint16(file[2:], t)
			what = fmt.Sprintf("type %#x", t)
		case r == 1:
			v := []uint16{1, 2, 0x100, 0xFFFF, 0x4D42}[rng.Intn(5)]
			le.PutUint16(file, v)
			what = fmt.Sprintf("first field %#x", v)
		default: // cut before the last byte of an image, or in the headers
			end := 6 + 16*n
			for i := 0; i < n; i++ {
				e := file[6+16*i:]
				if x := int(le.Uint32(e[8:]) + le.Uint32(e[12:])); x > end && le.Uint32(e[8:]) > 0 {
					end = x
				}
			}
			cut := end - 1
			if rng.Intn(2) == 0 {
				cut = rng.Intn(end)
			}
			what = fmt.Sprintf("only %d bytes of at least %d", cut, end)
			file = file[:cut]
		}
		r, cl := openAny(rng, file)
		defer cl()
		if _, err := k.load(r); err == nil {
			c.Attach("input", file)
			c.Failf("accepted", "a file with %s was accepted: %s", what, listAttrs(want))
		}
		c.Event("files refused", 1)
		c.Nontrivial(file)
	}
}

// tooMany: more images than a file can list.
func tooMany(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		n := 65536 + []int{0, 1, 5}[c.Index%3]
		img := image.NewNRGBA(image.Rect(0, 0, 1, 1))
		img.Pix[0], img.Pix[3] = byte(c.Index), 255
		var x interface{}
		var err error
		if k.typ == 1 {
			l := make([]image.Image, n)
			for i := range l {
				l[i] = img
			}
			x, err = winres.NewIconFromImages(l)
		} else {
			l := make([]winres.CursorImage, n)
			for i := range l {
				l[i].Image = img
			}
			x, err = winres.NewCursorFromImages(l)
		}
		c.Event("too many images", 1)
		c.Nontrivial("too many", c.Index)
		if err != nil {
			return
		}
		if err := k.save(x, io.Discard); err == nil {
			c.Failf("too-many-saved", "%d images were saved to a file, which cannot list that many", n)
		}
		rs := &winres.ResourceSet{}
		if err := k.set(rs, idn(1), x); err == nil {
			c.Failf("too-many-stored", "%d images were stored, and a group cannot list that many", n)
		}
		if rs.Get(k.group.wr(), winres.ID(1), 0) != nil {
			c.Failf("too-many-group", "a group of %d images was stored although the call failed", n)
		}
	}
}

// headWriter keeps the first bytes it is given, and the total.
type headWriter struct {
	head  []byte
	total int64
}

func (w *headWriter) Write(p []byte) (int, error) {
	if n := cap(w.head) - len(w.head); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		w.head = append(w.head, p[:n]...)
	}
	w.total += int64(len(p))
	return len(p), nil
}

// hugeFile: a small file whose entries share an image, which would be nearly 4 GB or more once saved.
func hugeFile(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		d := k.gen(rng)
		size := 0xA00000 - rng.Intn(3)*8*rng.Intn(1000)
		if len(d.data) > size {
			d.data = d.data[:size]
		}
		d.data = append(append([]byte{}, d.data...), make([]byte, size-len(d.data))...)
		most := int((int64(1)<<32 - 1 - 6) / int64(size+16))
		n := []int{most + 2 + rng.Intn(300), most, most + 2, most + 1, most - 1, 3 * most}[c.Index%6]
		file := make([]byte, 6, 6+16*n+size)
		le.PutUint16(file[2:], k.typ)
		le.PutUint16(file[4:], uint16(n))
		var e [16]byte
		e[0], e[1], e[2], e[3] = d.w, d.h, d.colors, d.reserved
		le.PutUint16(e[4:], d.a)
		le.PutUint16(e[6:], d.b)
		le.PutUint32(e[8:], uint32(size))
		le.PutUint32(e[12:], uint32(6+16*n))
		for i := 0; i < n; i++ {
			file = append(file, e[:]...)
		}
		file = append(file, d.data...)
		x, err := k.load(bytes.NewReader(file))
		if err != nil {
			c.Failf("huge-load", "a file of %d images that share %d bytes: %v", n, size, err)
			return
		}
		w := &headWriter{head: make([]byte, 0, 6+16*n)}
		err = k.save(x, w)
		c.Event("files that would be nearly 4 GB or more", 1)
		c.Nontrivial("huge", n, size)
		end := int64(6+16*n) + int64(n)*int64(size)
		if err != nil {
			c.Event("files above 4 GB refused", 1)
			if end < 1<<32 {
				c.Failf("huge-refused", "%d images of %d bytes cannot be saved: %v", n, size, err)
			}
			return
		}
		if w.total != end {
			c.Failf("huge-length", "%d images of %d bytes were saved as %d bytes, want %d", n, size, w.total, end)
			return
		}
		at := int64(6 + 16*n)
		for i := 0; i < n; i++ {
			e := w.head[6+16*i:]
			if int64(le.Uint32(e[12:])) != at || le.Uint32(e[8:]) != uint32(size) {
				c.Failf("huge-offset", "image %d of %d is said to be %d bytes at %d, it was written at %d", i, n, le.Uint32(e[8:]), le.Uint32(e[12:]), at)
				return
			}
			at += int64(size)
		}
	}
}

// groupEntry gives the entry of an image in a group, without an ID, and its resource.
func (k *dirKind) groupEntry(d *dirImage) (e, data []byte) {
	e = make([]byte, 14)
	data = d.data
	if k.typ == 1 {
		e[0], e[1], e[2], e[3] = d.w, d.h, d.colors, d.reserved
		le.PutUint16(e[4:], d.a)
		le.PutUint16(e[6:], d.b)
	} else {
		le.PutUint16(e, uint16(side(d.w)))
		le.PutUint16(e[2:], uint16(side(d.h)))
		p, b := cursorDepth(data)
		le.PutUint16(e[4:], p)
		le.PutUint16(e[6:], b)
		hot := make([]byte, 4)
		le.PutUint16(hot, d.a)
		le.PutUint16(hot[2:], d.b)
		data = append(hot, data...)
	}
	le.PutUint32(e[8:], uint32(len(data)))
	return e, data
}

// foreignGroupCase: groups that other tools made, with sizes that may be wrong and images in several languages.
func foreignGroupCase(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		rs := &winres.ResourceSet{}
		id := genIdent(rng)
		base := rng.Intn(60000)
		imageLangs := map[int][]uint16{}
		var groupLangs []uint16
		rounds := 1
		if rng.Intn(3) == 0 {
			// Other resources with the same identifiers
			rounds += 1 + rng.Intn(2)
			c.Event("groups replaced by hand", rounds-1)
		}
		for round := 0; round < rounds; round++ {
			n := rng.Intn(6)
			images := genImages(rng, n, k.gen)
			if round > 0 && rng.Intn(2) == 0 {
				for _, e := range walkEntries(rs) {
					rs.Set(e.typ.wr(), e.res.wr(), e.lang, nil)
				}
				imageLangs = map[int][]uint16{}
				groupLangs = nil
			}
			g := make([]byte, 6, 6+14*n)
			le.PutUint16(g[2:], k.typ)
			le.PutUint16(g[4:], uint16(n))
			desc := fmt.Sprintf("foreign %s group %s: %s", k.name, id, listAttrs(images))
			for i := range images {
				e, data := k.groupEntry(&images[i])
				size := le.Uint32(e[8:])
				switch rng.Intn(4) {
				case 0:
					size = []uint32{0, 1, size - 1, size + 1, size + 4, 0xFFFFFFFF, 0x80000000}[rng.Intn(7)]
				}
				le.PutUint32(e[8:], size)
				imgID := uint16(base + 1 + 7*i)
				le.PutUint16(e[12:], imgID)
				g = append(g, e...)
				// Windows takes the first language
				langs := imageLangs[i]
				if langs == nil {
					langs = []uint16{genLang(rng), genLang(rng), genLang(rng)}[:1+rng.Intn(3)]
					imageLangs[i] = langs
				}
				low := langs[0]
				for _, l := range langs {
					if l < low {
						low = l
					}
				}
				for _, l := range langs {
					x := data
					if l != low {
						x = append([]byte{9, 9, 9, 9}, randBytes(rng, 50)...)
					}
					rs.Set(k.img.wr(), winres.ID(imgID), l, x)
				}
			}
			if rng.Intn(4) == 0 {
				// What follows the entries means nothing
				g = append(g, make([]byte, 1+rng.Intn(40))...)
				if rng.Intn(2) == 0 {
					for j := 6 + 14*n; j < len(g); j++ {
						g[j] = byte(rng.Intn(256))
					}
				}
				c.Event("groups with more bytes", 1)
			}
			// several languages of the group
			if groupLangs == nil {
				groupLangs = []uint16{genLang(rng), genLang(rng)}[:1+rng.Intn(2)]
			}
			langs := groupLangs
			low := langs[0]
			for _, l := range langs {
				if l < low {
					low = l
				}
			}
			for _, l := range langs {
				if l != low {
					e := append([]byte{}, g[:6]...)
					e[4], e[5] = 0, 0
					rs.Set(k.group.wr(), id.wr(), l, e)
				}
			}
			rs.Set(k.group.wr(), id.wr(), low, g)
			x, err := k.get(rs, id)
			if err != nil {
				c.Failf("get", "%v (%s)", err, desc)
			}
			if s := k.listed(x, images, "what the group gives"); s != "" {
				c.Failf("images", "%s (%s)", s, desc)
			}
			rs2 := &winres.ResourceSet{}
			if err := k.set(rs2, id, x); err != nil {
				c.Failf("set", "%v (%s)", err, desc)
			}
			if s := k.checkStored(entriesModel(walkEntries(rs2)), rkey{k.group, id, 0}, images); s != "" {
				c.Failf("stored-again", "%s (%s)", s, desc)
			}
			y, err := k.get(rs2, id)
			if err != nil {
				c.Failf("get", "%v (%s)", err, desc)
			}
			if s := k.listed(y, images, "what another set gives"); s != "" {
				c.Failf("images", "%s (%s)", s, desc)
			}
			c.Event("foreign groups", 1)
			if n > 0 {
				c.Nontrivial(desc)
			}
		}
	}
}

// manyImagesCase is about files as long as the format allows.
func manyImagesCase(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		base := make([]byte, 40)
		base[0] = 40
		base[12], base[14] = 1, 32
		n := []int{65535, 65534, 32768, 40000}[c.Index%4]
		want := make([]dirImage, n)
		for i := range want {
			d := append([]byte{}, base...)
			le.PutUint32(d[36:], uint32(i))
			want[i] = dirImage{w: 16, h: uint8(i), a: 1, b: 32, data: d}
		}
		x, err := k.load(bytes.NewReader(buildDirFile(rng, k.typ, want)))
		if err != nil {
			c.Failf("load", "%d images: %v", n, err)
		}
		if s := k.listed(x, want, "what was loaded"); s != "" {
			c.Failf("images", "%s", s)
		}
		rs := &winres.ResourceSet{}
		if err := k.set(rs, idn(1), x); err != nil {
			c.Failf("set", "%d images: %v", n, err)
		}
		y, err := k.get(rs, idn(1))
		if err != nil {
			c.Failf("get", "%v", err)
		}
		if s := k.listed(y, want, "what the set gives"); s != "" {
			c.Failf("images", "%s", s)
		}
		c.Event("files of the largest size", 1)
		c.Nontrivial("many", n)
	}
}

// madeThenStored follows icons and cursors made from images.
func madeThenStored(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		var x interface{}
		var err error
		n := 1 + rng.Intn(5)
		if k.typ == 1 && rng.Intn(3) == 0 {
			x, err = winres.NewIconFromResizedImage(genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(100), 1+rng.Intn(100)), []int{1 + rng.Intn(256), 1 + rng.Intn(64)})
			n = 2
		} else if k.typ == 1 {
			var l []image.Image
			for i := 0; i < n; i++ {
				l = append(l, genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(256), 1+rng.Intn(256)))
			}
			x, err = winres.NewIconFromImages(l)
		} else {
			var l []winres.CursorImage
			for i := 0; i < n; i++ {
				l = append(l, winres.CursorImage{Image: genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(256), 1+rng.Intn(256)), HotSpot: winres.HotSpot{X: uint16(rng.Intn(300)), Y: uint16(rng.Intn(300))}})
			}
			x, err = winres.NewCursorFromImages(l)
		}
		if err != nil {
			c.Failf("make", "%v", err)
		}
		want, s := k.saved(x, "what was made")
		if s != "" {
			c.Failf("save", "%s", s)
		}
		if len(want) != n {
			c.Failf("save", "%d images, want %d", len(want), n)
		}
		rs := &winres.ResourceSet{}
		id := genIdent(rng)
		if err := k.set(rs, id, x); err != nil {
			c.Failf("set", "%v", err)
		}
		if s := k.checkStored(entriesModel(walkEntries(rs)), rkey{k.group, id, 0}, want); s != "" {
			c.Failf("stored", "%s", s)
		}
		y, err := k.get(rs, id)
		if err != nil {
			c.Failf("get", "%v", err)
		}
		if s := k.listed(y, want, "what the set gives"); s != "" {
			c.Failf("images", "%s", s)
		}
		c.Event("made from images, then stored", 1)
		c.Nontrivial(listAttrs(want))
	}
}

// ---------------------------------------------------------------- C21

type liveGroup struct {
	kind   *dirKind
	images []dirImage
	ids    []uint16
}

type iconWorld struct {
	high   uint16 // some images are stored by hand from there
	c      *Ctx
	rs     *winres.ResourceSet
	groups map[rkey]*liveGroup
	manual map[rkey][]byte // images stored by hand
	log    strings.Builder
}

func (w *iconWorld) fail(sig, format string, a ...interface{}) {
	s := w.log.String()
	if len(s) > 4000 {
		s = "..." + s[len(s)-4000:]
	}
	w.c.Failf(sig, format+"\nhistory: %s", append(a, s)...)
}

func (w *iconWorld) all() model { return entriesModel(walkEntries(w.rs)) }

func (w *iconWorld) checkAll() {
	for key, g := range w.groups {
		x, err := g.kind.getLang(w.rs, key.res, key.lang)
		if err != nil {
			w.fail("group-lost", "group %s: %v", key, err)
		}
		if s := g.kind.same(x, g.images, "group "+key.String()); s != "" {
			w.fail("group-changed", "%s", s)
		}
		w.c.Event("groups verified", 1)
	}
	for key, d := range w.manual {
		got := w.rs.Get(key.typ.wr(), key.res.wr(), key.lang)
		if !bytes.Equal(got, d) || got == nil {
			w.fail("manual-changed", "image %s stored by hand has changed", key)
		}
	}
}

// used tells whether a live group refers to an image.
func (w *iconWorld) used(k *dirKind, id uint16) bool {
	for _, g := range w.groups {
		if g.kind != k {
			continue
		}
		for _, i := range g.ids {
			if i == id {
				return true
			}
		}
	}
	return false
}

func groupIDs(g []byte) []uint16 {
	var l []uint16
	for i := 6; i+14 <= len(g); i += 14 {
		l = append(l, le.Uint16(g[i+12:]))
	}
	return l
}

func (w *iconWorld) load(k *dirKind, n int) (interface{}, []dirImage) {
	l := genImages(w.c.Rng, n, k.gen)
	x, err := k.load(bytes.NewReader(buildDirFile(w.c.Rng, k.typ, l)))
	if err != nil {
		w.fail("load", "%v (%s)", err, listAttrs(l))
	}
	return x, l
}

// add stores an icon; it must not touch what is there.
func (w *iconWorld) add(k *dirKind, key rkey, x interface{}, l []dirImage, mayFail bool) bool {
	before := w.all()
	var err error
	if key.lang == 0 && w.c.Rng.Intn(2) == 0 {
		err = k.set(w.rs, key.res, x)
	} else {
		err = k.setLang(w.rs, key.res, key.lang, x)
	}
	after := w.all()
	for bk, bd := range before {
		if bk == key && err == nil {
			continue
		}
		if ad, ok := after[bk]; !ok || !bytes.Equal(ad, bd) {
			w.fail("overwritten", "adding %s %s changed or removed %s (error: %v)", k.name, key, bk, err)
		}
	}
	if err != nil {
		if !mayFail {
			w.fail("add-error", "adding %s %s: %v", k.name, key, err)
		}
		return false
	}
	if l == nil {
		return true
	}
	w.groups[key] = &liveGroup{k, l, groupIDs(after[key])}
	return true
}

var dirKinds = []*dirKind{icoKind, curKind}

func (w *iconWorld) randKey(k *dirKind) rkey {
	rng := w.c.Rng
	ids := []ident{idn(1), idn(2), idn(3), nam("APPICON"), nam("B"), idn(65535), nam("\U0001F600")}
	langs := []uint16{0, 0x409, 0x40C, 0xFFFF}
	return rkey{k.group, ids[rng.Intn(len(ids))], langs[rng.Intn(len(langs))]}
}

func (w *iconWorld) someGroup() (rkey, *liveGroup) {
	if len(w.groups) == 0 {
		return rkey{}, nil
	}
	m := model{}
	for k := range w.groups {
		m[k] = nil
	}
	l := m.sorted()
	k := l[w.c.Rng.Intn(len(l))].rkey
	return k, w.groups[k]
}

func (w *iconWorld) step() {
	rng := w.c.Rng
	k := dirKinds[rng.Intn(2)]
	switch op := rng.Intn(18); op {
	case 16, 17: // a group stored by hand, with its images, as another tool makes them
		l := genImages(rng, 1+rng.Intn(3), k.gen)
		lang := genLang(rng)
		taken := map[uint16]bool{}
		for bk := range w.all() {
			if bk.typ == k.img && !bk.res.isName {
				taken[bk.res.id] = true
			}
		}
		top := uint16(0)
		for id := range taken {
			if id > top {
				top = id
			}
		}
		g := &liveGroup{kind: k, images: l}
		var d []byte
		d = append(d, 0, 0, byte(k.typ), 0, byte(len(l)), 0)
		key := w.randKey(k)
		for i := range l {
			id := uint16(0)
			for id == 0 || taken[id] {
				id = uint16(1 + rng.Intn(3000))
				if rng.Intn(2) == 0 && top < 50000 {
					id = top + 1 + uint16(rng.Intn(3))
				}
			}
			taken[id] = true
			g.ids = append(g.ids, id)
			e, data := k.groupEntry(&l[i])
			le.PutUint32(e[8:], uint32(len(data)))
			le.PutUint16(e[12:], id)
			d = append(d, e...)
			ik := rkey{k.img, idn(id), lang}
			if err := w.rs.Set(ik.typ.wr(), ik.res.wr(), ik.lang, data); err != nil {
				w.fail("set", "%v", err)
			}
			w.manual[ik] = data
			fmt.Fprintf(&w.log, "store image %s; ", ik)
		}
		fmt.Fprintf(&w.log, "store group %s; ", key)
		if err := w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, d); err != nil {
			w.fail("set", "%v", err)
		}
		w.groups[key] = g
		w.c.Event("groups stored by hand", 1)
	case 0, 1, 2, 3, 4:
		x, l := w.load(k, rng.Intn(5))
		key := w.randKey(k)
		if w.groups[key] != nil {
			w.c.Event("replaced", 1)
		}
		fmt.Fprintf(&w.log, "add %s %s (%d images); ", k.name, key, len(l))
		w.add(k, key, x, l, false)
		w.c.Event("added", 1)
	case 5: // the same icon, extracted then stored elsewhere
		from, g := w.someGroup()
		if g == nil {
			return
		}
		x, err := g.kind.getLang(w.rs, from.res, from.lang)
		if err != nil {
			w.fail("group-lost", "group %s: %v", from, err)
		}
		key := w.randKey(g.kind)
		fmt.Fprintf(&w.log, "store %s as %s; ", from, key)
		w.add(g.kind, key, x, g.images, false)
		w.c.Event("translated", 1)
	case 6: // the same directory stored under another name: images are shared
		from, g := w.someGroup()
		if g == nil {
			return
		}
		key := w.randKey(g.kind)
		d := append([]byte{}, w.rs.Get(from.typ.wr(), from.res.wr(), from.lang)...)
		fmt.Fprintf(&w.log, "copy group %s as %s; ", from, key)
		if err := w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, d); err != nil {
			w.fail("set", "%v", err)
		}
		w.groups[key] = &liveGroup{g.kind, g.images, g.ids}
		w.c.Event("groups copied by hand", 1)
	case 7: // remove a group, keeping its images
		key, g := w.someGroup()
		if g == nil {
			return
		}
		fmt.Fprintf(&w.log, "remove group %s; ", key)
		w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, nil)
		delete(w.groups, key)
		w.c.Event("groups removed", 1)
	case 8: // remove a group and its images
		key, g := w.someGroup()
		if g == nil {
			return
		}
		fmt.Fprintf(&w.log, "remove group %s and its images; ", key)
		w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, nil)
		delete(w.groups, key)
		for _, id := range g.ids {
			if !w.used(g.kind, id) {
				w.rs.Set(g.kind.img.wr(), winres.ID(id), 0, nil)
				delete(w.manual, rkey{g.kind.img, idn(id), 0})
			}
		}
		w.c.Event("groups removed with images", 1)
	case 9, 10, 11: // images stored by hand
		var key rkey
		for i := 0; ; i++ {
			id := idn(uint16(1 + rng.Intn(40)))
			if rng.Intn(4) == 0 {
				id = idn(uint16(1 + rng.Intn(2000)))
			}
			if rng.Intn(3) == 0 {
				id = idn(w.high + uint16(rng.Intn(24)))
			}
			if rng.Intn(5) == 0 {
				id = nam(genName(rng))
			}
			if gk, g := w.someGroup(); g != nil && g.kind == k && len(g.ids) > 0 && rng.Intn(3) == 0 {
				id = idn(g.ids[rng.Intn(len(g.ids))])
				if rng.Intn(2) == 0 && gk.lang != 0 {
					key = rkey{k.img, id, gk.lang}
					if w.rs.Get(k.img.wr(), id.wr(), 0) != nil {
						w.c.Event("other languages of used images", 1)
						break
					}
				}
			}
			key = rkey{k.img, id, genLang(rng)}
			if id.isName || !w.used(k, id.id) {
				break
			}
			if key.lang != 0 && w.rs.Get(k.img.wr(), id.wr(), 0) != nil {
				// Another language of an image that is used: groups take the first one
				w.c.Event("other languages of used images", 1)
				break
			}
		}
		d := randBytes(rng, 4+rng.Intn(30))
		fmt.Fprintf(&w.log, "store image %s; ", key)
		if err := w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, d); err != nil {
			w.fail("set", "%v", err)
		}
		w.manual[key] = d
		w.c.Event("images stored by hand", 1)
	case 12:
		m := model{}
		for k := range w.manual {
			m[k] = nil
		}
		l := m.sorted()
		if len(l) == 0 {
			return
		}
		key := l[rng.Intn(len(l))].rkey
		if key.typ != k.img {
			k = map[ident]*dirKind{icoKind.img: icoKind, curKind.img: curKind}[key.typ]
		}
		if !key.res.isName && w.used(k, key.res.id) && (key.lang == 0 || w.rs.Get(k.img.wr(), key.res.wr(), 0) == nil) {
			return
		}
		fmt.Fprintf(&w.log, "remove image %s; ", key)
		w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, nil)
		delete(w.manual, key)
	case 13, 14: // through an executable
		spec := genPE(rng, peProfile{keepSmall: true, rsrcPos: []string{"none", "last"}[rng.Intn(2)]})
		out, err := patch(w.rs, spec.build(), patchOpts{})
		if err != nil {
			w.fail("patch", "%v", err)
		}
		if op == 13 {
			w.log.WriteString("write to an executable, load; ")
			rs, err := winres.LoadFromEXE(bytes.NewReader(out))
			if err != nil {
				w.fail("reload", "%v", err)
			}
			w.rs = rs
			w.c.Event("reloaded", 1)
			return
		}
		rs, err := winres.LoadFromEXESingleType(bytes.NewReader(out), k.group.wr())
		if err != nil {
			w.fail("reload", "%v", err)
		}
		fmt.Fprintf(&w.log, "write to an executable, load %s groups; ", k.name)
		w.rs = rs
		for key, g := range w.groups {
			if g.kind != k {
				delete(w.groups, key)
			}
		}
		// images no group needs may be missing
		for key := range w.manual {
			if rs.Get(key.typ.wr(), key.res.wr(), key.lang) == nil {
				delete(w.manual, key)
			}
		}
		w.c.Event("groups reloaded alone", 1)
	case 15: // a refused identifier changes nothing
		bad := invalidIdents()
		x, _ := w.load(k, 1+rng.Intn(3))
		before := w.all()
		b := bad[rng.Intn(len(bad))]
		var err error
		if k.typ == 1 {
			err = w.rs.SetIcon(b, x.(*winres.Icon))
		} else {
			err = w.rs.SetCursor(b, x.(*winres.Cursor))
		}
		fmt.Fprintf(&w.log, "add %s with a wrong name; ", k.name)
		if err == nil {
			w.fail("bad-name", "%q is accepted as a name", b)
		}
		for bk, bd := range w.all() {
			if d, ok := before[bk]; ok && !bytes.Equal(d, bd) {
				w.fail("overwritten", "a refused name changed %s", bk)
			}
		}
	}
}

func newIconWorld(c *Ctx) *iconWorld {
	high := []int{0xF0, 0x7FF0, 0x7FFA, 0x8000, 0xC000, 1 + c.Rng.Intn(50000), 1 + c.Rng.Intn(5000), 1}[c.Rng.Intn(8)]
	return &iconWorld{c: c, rs: &winres.ResourceSet{}, groups: map[rkey]*liveGroup{}, manual: map[rkey][]byte{}, high: uint16(high)}
}

func iconHistory(c *Ctx) {
	w := newIconWorld(c)
	n := 5 + c.Rng.Intn(35)
	for i := 0; i < n; i++ {
		w.step()
		w.checkAll()
		c.Event("operations", 1)
	}
	c.Nontrivial(w.log.String())
	c.Sample("%s", clip(w.log.String(), 500))
}

// exhaustion: image IDs run out.
func exhaustionCase(c *Ctx) {
	rng := c.Rng
	w := newIconWorld(c)
	k := dirKinds[c.Index%2]
	for i, n := 0, 1+rng.Intn(10); i < n; i++ {
		w.step()
	}
	switch c.Index / 2 % 3 {
	case 0: // an image stored by hand has the last ID, or nearly
		id := uint16(65535 - rng.Intn(4))
		key := rkey{k.img, idn(id), genLang(rng)}
		fmt.Fprintf(&w.log, "store image %s; ", key)
		d := randBytes(rng, 30)
		w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, d)
		w.manual[key] = d
	case 1: // a huge icon
		base := make([]byte, 40)
		base[0], base[12], base[14] = 40, 1, 32
		l := make([]dirImage, 40000)
		for i := range l {
			d := append([]byte{}, base...)
			le.PutUint32(d[20:], uint32(i))
			l[i] = dirImage{w: 16, h: 16, a: 1, b: 32, data: d}
		}
		x, err := k.load(bytes.NewReader(buildDirFile(rng, k.typ, l)))
		if err != nil {
			w.fail("load", "%v", err)
		}
		w.log.WriteString("add a huge " + k.name + " twice; ")
		w.add(k, rkey{k.group, idn(1), 0}, x, l, true)
		if w.add(k, rkey{k.group, idn(2), 0}, x, l, true) {
			w.fail("exhausted-silent", "80000 images were stored without an error")
		}
		if w.rs.Get(k.group.wr(), winres.ID(2), 0) != nil && w.groups[rkey{k.group, idn(2), 0}] == nil {
			w.fail("exhausted-group", "a group was stored although the call failed")
		}
		c.Event("additions refused", 1)
	case 2: // through an executable
		key := rkey{k.img, idn(65535), 0}
		d := randBytes(rng, 30)
		w.rs.Set(key.typ.wr(), key.res.wr(), key.lang, d)
		w.manual[key] = d
		spec := genPE(rng, peProfile{keepSmall: true, rsrcPos: "none"})
		out, err := patch(w.rs, spec.build(), patchOpts{})
		if err != nil {
			w.fail("patch", "%v", err)
		}
		if w.rs, err = winres.LoadFromEXE(bytes.NewReader(out)); err != nil {
			w.fail("reload", "%v", err)
		}
	}
	w.checkAll()
	for i := 0; i < 12; i++ {
		kk := k
		if rng.Intn(4) == 0 {
			kk = dirKinds[rng.Intn(2)]
		}
		x, l := w.load(kk, rng.Intn(4))
		key := w.randKey(kk)
		if rng.Intn(2) == 0 { // replace a live one
			if lk, g := w.someGroup(); g != nil && g.kind == kk {
				key = lk
			}
		}
		fmt.Fprintf(&w.log, "add %s %s (%d images); ", kk.name, key, len(l))
		if !w.add(kk, key, x, l, true) {
			c.Event("additions refused", 1)
		} else {
			c.Event("additions done", 1)
		}
		if w.c.Index/2%3 != 1 || i == 11 {
			w.checkAll()
		}
	}
	c.Nontrivial(w.log.String())
}

// sameOutputIcons: a history of icons, cursors, manifests and versions, against a set built from its resources.
func sameOutputIcons(c *Ctx) {
	w := newIconWorld(c)
	h := &history{c: c, rng: c.Rng}
	h.universe()
	for r := 0; r < 3; r++ {
		for i, n := 0, 1+c.Rng.Intn(10); i < n; i++ {
			switch c.Rng.Intn(6) {
			case 0:
				w.rs.SetManifest(winres.AppManifest{Description: fmt.Sprint(c.Rng.Intn(3))})
				w.log.WriteString("manifest; ")
			case 1:
				vi := genVersion(c, versionSmall)
				w.rs.SetVersionInfo(vi)
				w.log.WriteString("version; ")
			default:
				w.step()
			}
		}
		h.rs = w.rs
		h.m = w.all()
		h.log = strings.Builder{}
		h.log.WriteString(w.log.String())
		checkSame(c, h, h.m.build(c, c.Rng))
	}
	c.Nontrivial(w.log.String())
	c.Sample("%s", clip(w.log.String(), 400))
}

func init() {
	for _, k := range dirKinds {
		id, ev := "C17", "ICO"
		if k == curKind {
			id, ev = "C18", "CUR"
		}
		register(&Prop{
			ID:   id,
			Rule: ev + " files with every kind of image (PNG, DIB of each depth and header, any attributes, shared or padded data, up to 65535 images), followed through saving, sets, objects, executables and extraction, each read by an independent parser; groups as other tools make them; non-trivial: distinct non-empty file",
			Min:  map[string]int64{"images compared": 10000, "groups read": 200, "what was linked from an object": 200, "what the executable holds, loading groups only": 200, "foreign groups": 200, "groups with more bytes": 40, "files of the largest size": 1, "files refused": 150, "too many images": 1, "files above 4 GB refused": 2, "files that would be nearly 4 GB or more": 6, "made from images, then stored": 50},
			Families: []Family{
				{"files", 400, 12000, dirFileCase(k)},
				{"foreign", 400, 12000, foreignGroupCase(k)},
				{"made", 100, 1500, madeThenStored(k)},
				{"many", 2, 8, manyImagesCase(k)},
				{"refused", 200, 6000, notDirFile(k)},
				{"too many", 1, 3, tooMany(k)},
				{"huge", 6, 60, hugeFile(k)},
			},
		})
	}
	register(&Prop{
		ID:   "C21",
		Rule: "histories of icons and cursors added, replaced, copied, translated, removed, reloaded from executables and mixed with images stored by hand, until IDs run out; all stored images are compared around each addition, every live group after each step; non-trivial: distinct history",
		Min:  map[string]int64{"operations": 4000, "groups verified": 10000, "replaced": 60, "groups copied by hand": 100, "images stored by hand": 500, "other languages of used images": 20, "groups stored by hand": 400, "reloaded": 100, "groups reloaded alone": 100, "additions refused": 50, "additions done": 50},
		Families: []Family{
			{"histories", 250, 8000, iconHistory},
			{"exhaustion", 60, 600, exhaustionCase},
		},
	})
}
