package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"math"
	"math/rand"

	"github.com/tc-hib/winres"
)

// C13: no icon or cursor input makes the library crash.
// C19, C20, C31: icons and cursors made from images show these images.

// useDir does with an icon or cursor everything one can do.
func useDir(c *Ctx, k *dirKind, x interface{}, desc string) {
	c.Event("obtained from hostile input", 1)
	outcome := func(what string, err error) {
		if err != nil {
			c.Event(what+": error", 1)
		} else {
			c.Event(what+": result", 1)
		}
	}
	var saved bytes.Buffer
	err := k.save(x, &saved)
	outcome("save", err)
	rs := &winres.ResourceSet{}
	err = k.set(rs, idn(1), x)
	outcome("set", err)
	if err == nil {
		y, err := k.get(rs, idn(1))
		outcome("get", err)
		if err == nil {
			k.save(y, &countingWriter{max: 1 << 40})
		}
		outcome("object", rs.WriteObject(&countingWriter{max: 1 << 40}, winres.ArchAMD64))
	}
	outcome("set lang", k.setLang(rs, idn(1), 0x409, x))
}

func loadHostile(c *Ctx, k *dirKind, b []byte, desc string) {
	c.Attach("input."+k.name, b)
	limit := uint64(64<<20 + 1000*len(b))
	r, done := openAny(c.Rng, b)
	defer done()
	var x interface{}
	var err error
	n := watch(func() { x, err = k.load(r) })
	c.Event("loads", 1)
	if n > limit {
		c.Failf("memory", "loading %d bytes as %s allocates %d bytes (%s)", len(b), k.name, n, desc)
	}
	if err != nil {
		c.Event("refused", 1)
		return
	}
	useDir(c, k, x, desc)
}

func hostileDirFile(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		for i := 0; i < 20; i++ {
			l := genImages(rng, rng.Intn(5), k.gen)
			for j := range l {
				if len(l[j].data) > 200 && rng.Intn(3) > 0 {
					l[j].data = l[j].data[:rng.Intn(200)]
				}
				if rng.Intn(4) == 0 {
					l[j].data = l[j].data[:rng.Intn(len(l[j].data)+1)]
				}
			}
			b := buildDirFile(rng, k.typ, l)
			desc := fmt.Sprintf("%d images", len(l))
			for m, nm := 0, rng.Intn(4); m < nm; m++ {
				switch rng.Intn(8) {
				case 0:
					if len(l) > 0 {
						o := 6 + 16*rng.Intn(len(l)) + []int{8, 12}[rng.Intn(2)]
						v := evil(rng, le.Uint32(b[o:]))
						if rng.Intn(2) == 0 {
							v = uint32(rng.Intn(len(b) + 3))
						}
						le.PutUint32(b[o:], v)
						desc += fmt.Sprintf(", field at %d=%#x", o, v)
					}
				case 1:
					le.PutUint16(b[4:], uint16(evil(rng, uint32(le.Uint16(b[4:])))))
					desc += ", count"
				case 2:
					b = append([]byte{}, b[:rng.Intn(len(b)+1)]...)
					desc += ", cut"
					m = nm
				case 3, 4:
					b[rng.Intn(len(b))] = byte(rng.Intn(256))
				case 5:
					if len(l) > 0 && len(l[0].data) > 0 { // inside image headers
						o := 6 + 16*len(l) + rng.Intn(20)
						if o < len(b) {
							b[o] = byte(evil(rng, uint32(b[o])))
						}
					}
				case 6:
					b = append(b, randBytes(rng, rng.Intn(50))...)
				case 7:
					b[rng.Intn(6)] = byte(rng.Intn(3))
				}
				if len(b) < 6 {
					break
				}
			}
			loadHostile(c, k, b, desc)
			if other := dirKinds[rng.Intn(2)]; other != k {
				loadHostile(c, other, b, desc+", as the other kind")
			}
			c.Nontrivial(b)
		}
	}
}

// hugeDirFile: entries that all designate a lot of data, overlapping.
func hugeDirFile(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		n := []int{1, 100, 1000, 5000, 20000, 65535}[c.Index%6]
		body := 1 + rng.Intn(300000)
		b := make([]byte, 6+16*n+body)
		le.PutUint16(b[2:], k.typ)
		le.PutUint16(b[4:], uint16(n))
		mode := c.Index / 6 % 4
		for i := 0; i < n; i++ {
			e := b[6+16*i:]
			o, s := 0, len(b)
			switch mode {
			case 0: // the whole file
			case 1: // different ends
				o, s = i%len(b), 0
				s = len(b) - o
			case 2: // claims 10 MB
				s = 10 << 20
			case 3:
				o, s = rng.Intn(len(b)), rng.Intn(12<<20)
			}
			le.PutUint32(e[8:], uint32(s))
			le.PutUint32(e[12:], uint32(o))
		}
		c.Attach("input."+k.name, b)
		for i := 6 + 16*n; i+4 < len(b); i += 40 {
			b[i] = 40
		}
		limit := uint64(64<<20 + 1000*len(b))
		var err error
		m := watch(func() { _, err = k.load(bytes.NewReader(b)) })
		if m > limit {
			c.Failf("memory", "loading %d bytes as %s allocates %d bytes (%d entries, mode %d)", len(b), k.name, m, n, mode)
		}
		c.Event("overlapping entries", 1)
		if err != nil {
			c.Event("refused", 1)
		}
		c.Nontrivial(n, mode, body)
		if c.Index == 5 {
			storeHuge(c, k)
		}
	}
}

// storeHuge: a file of 1 MB whose entries share one image but have different hot spots, so that its resources
// would need more than 4 GB. No set can be written with these, so there is no reason to allocate that memory.
func storeHuge(c *Ctx, k *dirKind) {
	const n, size = 65535, 66000
	b := make([]byte, 6+16*n, 6+16*n+size)
	le.PutUint16(b[2:], k.typ)
	le.PutUint16(b[4:], n)
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		e[0], e[1] = 32, 32
		le.PutUint16(e[4:], uint16(i))
		le.PutUint16(e[6:], 32)
		le.PutUint32(e[8:], size)
		le.PutUint32(e[12:], uint32(len(b)))
	}
	b = append(b, make([]byte, size)...)
	h := b[6+16*n:]
	h[0], h[4], h[8], h[12], h[14] = 40, 32, 64, 1, 32
	x, err := k.load(bytes.NewReader(b))
	if err != nil {
		c.Event("refused", 1)
		return
	}
	rs := &winres.ResourceSet{}
	m := watch(func() { err = k.set(rs, idn(1), x) })
	c.Event("resources of 4 GB and more", 1)
	if m > 1<<30 {
		c.Failf("memory", "storing the %s of a file of %d bytes allocates %d bytes (%v)", k.name, len(b), m, err)
	}
}

// hostileGroup: any bytes stored as groups and images in a set.
func hostileGroup(k *dirKind) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		for r := 0; r < 20; r++ {
			rs := &winres.ResourceSet{}
			var ids []uint16
			for i, n := 0, rng.Intn(6); i < n; i++ {
				id := genID(rng)
				if rng.Intn(2) == 0 {
					id = uint16(1 + i)
				}
				var d []byte
				switch rng.Intn(4) {
				case 0:
					d = randBytes(rng, rng.Intn(60))
				case 1:
					d = randBytes(rng, rng.Intn(6))
				case 2:
					d = append(randBytes(rng, 4), k.gen(rng).data...)
					d = d[:rng.Intn(len(d)+1)]
				case 3:
					d = k.gen(rng).data
					if len(d) > 100 {
						d = d[:100]
					}
				}
				rs.Set(k.img.wr(), winres.ID(id), genLang(rng), d)
				ids = append(ids, id)
			}
			// the group
			n := rng.Intn(6)
			g := make([]byte, 6+14*n)
			le.PutUint16(g[2:], k.typ)
			le.PutUint16(g[4:], uint16(n))
			for i := 0; i < n; i++ {
				e := g[6+14*i:]
				rng.Read(e[:12])
				id := genID(rng)
				if len(ids) > 0 && rng.Intn(10) > 0 {
					id = ids[rng.Intn(len(ids))]
				}
				le.PutUint16(e[12:], id)
			}
			switch rng.Intn(8) {
			case 0:
				le.PutUint16(g[4:], uint16(evil(rng, uint32(n))))
			case 1:
				g = g[:rng.Intn(len(g)+1)]
			case 2:
				g = append(g, randBytes(rng, rng.Intn(30))...)
			case 3:
				g[rng.Intn(len(g))] ^= 1 << uint(rng.Intn(8))
			case 4:
				g = randBytes(rng, rng.Intn(80))
			}
			c.Attach("group", g)
			key := genIdent(rng)
			lang := genLang(rng)
			rs.Set(k.group.wr(), key.wr(), lang, g)
			if rng.Intn(4) == 0 {
				rs.Set(k.group.wr(), key.wr(), genLang(rng), randBytes(rng, rng.Intn(40)))
			}
			for _, kk := range dirKinds {
				for m := 0; m < 3; m++ {
					var x interface{}
					var err error
					switch m {
					case 0:
						x, err = kk.get(rs, key)
					case 1:
						x, err = kk.getLang(rs, key, lang)
					case 2:
						x, err = kk.getLang(rs, key, genLang(rng))
					}
					c.Event("extractions", 1)
					if err != nil {
						c.Event("refused", 1)
						continue
					}
					useDir(c, kk, x, "group")
					// and back in the same set
					if err := kk.set(rs, genIdent(rng), x); err != nil {
						c.Event("not stored again", 1)
					}
				}
			}
			rs.WriteObject(&countingWriter{max: 1 << 40}, winres.ArchI386)
			c.Nontrivial(g)
		}
	}
}

// bareImage has any bounds, and no pixel anyone could read outside of a small area.
type bareImage struct {
	r     image.Rectangle
	model color.Model
}

func (b bareImage) ColorModel() color.Model { return b.model }
func (b bareImage) Bounds() image.Rectangle { return b.r }
func (b bareImage) At(x, y int) color.Color { return color.NRGBA{1, 2, 3, 4} }

func badBounds(rng *rand.Rand) image.Rectangle {
	big := []int{257, 258, 300, 512, 513, 65535, 65536, 65537, 1 << 20, 1<<31 - 1, 1 << 31, 1 << 32, 1<<32 + 1, 1<<32 + 16, 1 << 40, math.MaxInt64}
	o := genOrigin(rng)
	switch rng.Intn(8) {
	case 0: // empty
		return image.Rectangle{Min: o, Max: o}
	case 1:
		return image.Rectangle{Min: o, Max: o.Add(image.Pt(rng.Intn(300), 0))}
	case 2:
		return image.Rectangle{Min: o, Max: o.Add(image.Pt(0, rng.Intn(300)))}
	case 3: // upside down
		return image.Rectangle{Min: o, Max: o.Sub(image.Pt(rng.Intn(300), -rng.Intn(300)))}
	case 4: // overflow
		return image.Rectangle{Min: image.Pt(math.MinInt64+rng.Intn(3), math.MinInt64+rng.Intn(300)), Max: image.Pt(rng.Intn(300), math.MaxInt64-rng.Intn(300))}
	case 5:
		return image.Rectangle{Min: image.Pt(math.MinInt64, 0), Max: image.Pt(math.MaxInt64-rng.Intn(300), 16)}
	}
	w, h := big[rng.Intn(len(big))], 1+rng.Intn(256)
	if rng.Intn(2) == 0 {
		w, h = h, w
	}
	if w > 1<<40 || h > 1<<40 {
		o = image.Point{}
	}
	return image.Rectangle{Min: o, Max: o.Add(image.Pt(w, h))}
}

// anImage makes a standard image with bad bounds if possible.
func badImage(rng *rand.Rand) image.Image {
	r := badBounds(rng)
	switch rng.Intn(6) {
	case 0:
		return image.NewNRGBA(image.Rectangle{})
	case 1:
		return image.NewUniform(color.NRGBA{1, 2, 3, 4}) // endless
	case 2:
		return (&image.NRGBA{Rect: r, Stride: 4}).SubImage(image.Rectangle{})
	case 3:
		if n := r.Dx(); r.Dx() > 0 && r.Dy() > 0 && r.Dx() < 1000 && r.Dy() < 1000 {
			return &image.Gray{Rect: r, Stride: n, Pix: make([]byte, n*r.Dy())}
		}
	}
	m := []color.Model{color.NRGBAModel, color.RGBAModel, color.GrayModel}[rng.Intn(3)]
	return bareImage{r, m}
}

// badMakes: lists and sizes that make no icon or cursor.
func badMakes(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 20; i++ {
		bad := badImage(rng)
		var l []image.Image
		for j, n := 0, rng.Intn(4); j < n; j++ {
			l = append(l, genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(20), 1+rng.Intn(20)))
		}
		at := rng.Intn(len(l) + 1)
		l = append(l[:at:at], append([]image.Image{bad}, l[at:]...)...)
		desc := fmt.Sprintf("a %T of bounds %v, at %d of %d", bad, bad.Bounds(), at, len(l))
		if x, err := winres.NewIconFromImages(l); err == nil {
			c.Failf("icon-made", "NewIconFromImages makes an icon from %s", desc)
		} else if x != nil {
			c.Event("error with a value", 1)
		}
		c.Event("bad lists refused", 1)
		var cl []winres.CursorImage
		for _, m := range l {
			cl = append(cl, winres.CursorImage{Image: m, HotSpot: winres.HotSpot{X: uint16(rng.Intn(65536)), Y: uint16(rng.Intn(65536))}})
		}
		if _, err := winres.NewCursorFromImages(cl); err == nil {
			c.Failf("cursor-made", "NewCursorFromImages makes a cursor from %s", desc)
		}
		c.Event("bad lists refused", 1)
		if bad.Bounds().Empty() {
			sizes := []int{16, 32}
			if rng.Intn(2) == 0 {
				sizes = nil
			}
			if _, err := winres.NewIconFromResizedImage(bad, sizes); err == nil {
				c.Failf("icon-made", "NewIconFromResizedImage makes an icon from %s", desc)
			}
			c.Event("bad lists refused", 1)
		}
		// sizes
		good := genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(40), 1+rng.Intn(40))
		var sizes []int
		for j, n := 0, rng.Intn(4); j < n; j++ {
			sizes = append(sizes, 1+rng.Intn(64))
		}
		switch rng.Intn(6) {
		case 0:
			for len(sizes) < 31 {
				sizes = append(sizes, 1+rng.Intn(8))
			}
			if rng.Intn(3) == 0 {
				sizes = make([]int, 31+rng.Intn(70000))
				for j := range sizes {
					sizes[j] = 1
				}
			}
		default:
			s := []int{0, -1, -16, -256, -257, 257, 258, 300, 512, 65536, 65536 + 16, 1 << 20, 1<<31 - 1, 1 << 31, 1<<32 + 16, math.MaxInt64, math.MinInt64, math.MinInt64 + 16}[rng.Intn(18)]
			at := rng.Intn(len(sizes) + 1)
			sizes = append(sizes[:at:at], append([]int{s}, sizes[at:]...)...)
		}
		n := watch(func() {
			if _, err := winres.NewIconFromResizedImage(good, sizes); err == nil {
				if len(sizes) > 40 {
					sizes = sizes[:40]
				}
				c.Failf("icon-made", "NewIconFromResizedImage makes an icon of sizes %v", sizes)
			}
		})
		if n > 256<<20 {
			c.Failf("memory", "refusing sizes %v takes %d bytes", sizes, n)
		}
		c.Event("bad sizes refused", 1)
		c.Nontrivial(desc, fmt.Sprint(len(sizes), sizes[0], sizes[len(sizes)-1]))
	}
}

// ---------------------------------------------------------------- C19, C20

func squareSide(img image.Image) int {
	s := img.Bounds().Size()
	if s.X > s.Y {
		return s.X
	}
	return s.Y
}

// centred gives the places where an image may be, centred in a square.
func centred(img image.Image, side int) []image.Point {
	s := img.Bounds().Size()
	var l []image.Point
	xs := []int{(side - s.X) / 2}
	if (side-s.X)%2 != 0 {
		xs = append(xs, xs[0]+1)
	}
	ys := []int{(side - s.Y) / 2}
	if (side-s.Y)%2 != 0 {
		ys = append(ys, ys[0]+1)
	}
	for _, x := range xs {
		for _, y := range ys {
			l = append(l, image.Pt(x, y))
		}
	}
	return l
}

// checkIconEntry decodes an entry and checks its attributes.
func checkIconEntry(d dirImage) (*image.NRGBA, error) {
	m, err := decodePNG32(d.data)
	if err != nil {
		return nil, err
	}
	if m.Rect.Dx() != m.Rect.Dy() {
		return nil, fmt.Errorf("image is %dx%d, not square", m.Rect.Dx(), m.Rect.Dy())
	}
	if side(d.w) != m.Rect.Dx() || side(d.h) != m.Rect.Dy() {
		return nil, fmt.Errorf("directory says %dx%d, image is %dx%d", side(d.w), side(d.h), m.Rect.Dx(), m.Rect.Dy())
	}
	if d.colors != 0 || d.reserved != 0 || d.a > 1 || d.b != 32 {
		return nil, fmt.Errorf("directory says %s, image has 32 bits", d.attrs())
	}
	return m, nil
}

// matchImages pairs decoded images with sources.
func matchImages(got []*image.NRGBA, src []image.Image, ok func(i int, m *image.NRGBA, src image.Image) string) (string, []int) {
	used := make([]bool, len(got))
	pair := make([]int, len(src))
	for i, s := range src {
		why := "no image of that size"
		pair[i] = -1
		for j, m := range got {
			if used[j] || m.Rect.Dx() != squareSide(s) {
				continue
			}
			if why = ok(j, m, s); why == "" {
				used[j] = true
				pair[i] = j
				break
			}
		}
		if pair[i] < 0 {
			return fmt.Sprintf("image %d (%T of bounds %v) is not shown: %s", i, s, s.Bounds(), why), nil
		}
	}
	return "", pair
}

// genSource varies sizes, at limits and with odd differences.
func genSource(c *Ctx) (image.Image, string) {
	rng := c.Rng
	dim := func() int {
		switch rng.Intn(4) {
		case 0:
			return []int{1, 2, 3, 15, 16, 17, 31, 32, 48, 127, 128, 254, 255, 256}[rng.Intn(14)]
		case 1:
			return 1 + rng.Intn(256)
		}
		return 1 + rng.Intn(64)
	}
	w, h := dim(), dim()
	if rng.Intn(3) == 0 {
		h = w
	}
	if rng.Intn(8) == 0 {
		h = w + 1 - rng.Intn(3)
		if h < 1 || h > 256 {
			h = w
		}
	}
	kind := rng.Intn(len(imageKinds))
	return genImage(rng, kind, w, h), fmt.Sprintf("%s %dx%d", imageKinds[kind], w, h)
}

func iconsShow(c *Ctx) {
	rng := c.Rng
	n := []int{1, 1, 2, 3, 1 + rng.Intn(6), 0}[rng.Intn(6)]
	if rng.Intn(60) == 0 {
		n = 7 + rng.Intn(60)
	}
	var src []image.Image
	desc := ""
	for i := 0; i < n; i++ {
		m, d := genSource(c)
		if i > 0 && rng.Intn(6) == 0 {
			m, d = src[rng.Intn(i)], "again"
		}
		src = append(src, m)
		desc += d + "; "
		c.Event("kind "+d[:bytesIndexDigit(d)], 1)
	}
	icon, err := winres.NewIconFromImages(src)
	if err != nil {
		c.Failf("refused", "NewIconFromImages: %v (%s)", err, desc)
	}
	checkIconShows(c, icon, src, desc)
	c.Nontrivial(desc)
	c.Sample("%s", desc)
}

func bytesIndexDigit(s string) int {
	for i := 0; i < len(s); i++ {
		if s[i] >= '0' && s[i] <= '9' && i > 0 && s[i-1] == ' ' {
			return i - 1
		}
	}
	return len(s)
}

func checkIconShows(c *Ctx, icon *winres.Icon, src []image.Image, desc string) {
	l, s := icoKind.saved(icon, "what was made")
	if s != "" {
		c.Failf("save", "%s (%s)", s, desc)
	}
	if len(l) != len(src) {
		c.Failf("count", "%d images, want %d (%s)", len(l), len(src), desc)
	}
	// The set stores the same
	rs := &winres.ResourceSet{}
	if err := rs.SetIcon(winres.ID(1), icon); err != nil {
		c.Failf("set", "%v", err)
	}
	if s := icoKind.holds(entriesModel(walkEntries(rs)), rkey{icoKind.group, idn(1), 0}, l); s != "" {
		c.Failf("set", "%s", s)
	}
	var got []*image.NRGBA
	for i, d := range l {
		m, err := checkIconEntry(d)
		if err != nil {
			c.Failf("entry", "image %d: %v (%s)", i, err, desc)
		}
		got = append(got, m)
		c.Event("PNG entries decoded", 1)
	}
	s, _ = matchImages(got, src, func(_ int, m *image.NRGBA, src image.Image) string {
		why := ""
		for _, at := range centred(src, m.Rect.Dx()) {
			if why = shows(m, src, at); why == "" {
				return ""
			}
		}
		return why
	})
	if s != "" {
		c.Failf("picture", "%s (%s)", s, desc)
	}
	for _, m := range src {
		c.Event("pixels compared", m.Bounds().Dx()*m.Bounds().Dy())
	}
}

func cursorsShow(c *Ctx) {
	rng := c.Rng
	n := []int{1, 1, 2, 3, 1 + rng.Intn(6), 0}[rng.Intn(6)]
	var src []image.Image
	var cl []winres.CursorImage
	desc := ""
	for i := 0; i < n; i++ {
		m, d := genSource(c)
		if i > 0 && rng.Intn(6) == 0 {
			m, d = src[rng.Intn(i)], "again"
		}
		hs := winres.HotSpot{X: uint16(rng.Intn(m.Bounds().Dx())), Y: uint16(rng.Intn(m.Bounds().Dy()))}
		switch rng.Intn(8) {
		case 0:
			hs = winres.HotSpot{}
		case 1:
			hs = winres.HotSpot{X: uint16(rng.Intn(65536)), Y: uint16(rng.Intn(65536))}
		}
		src = append(src, m)
		cl = append(cl, winres.CursorImage{Image: m, HotSpot: hs})
		desc += fmt.Sprintf("%s hot %v; ", d, hs)
		c.Event("kind "+d[:bytesIndexDigit(d)], 1)
	}
	cur, err := winres.NewCursorFromImages(cl)
	if err != nil {
		c.Failf("refused", "NewCursorFromImages: %v (%s)", err, desc)
	}
	l, s := curKind.saved(cur, "what was made")
	if s != "" {
		c.Failf("save", "%s (%s)", s, desc)
	}
	if len(l) != n {
		c.Failf("count", "%d images, want %d (%s)", len(l), n, desc)
	}
	rs := &winres.ResourceSet{}
	if err := rs.SetCursor(winres.ID(1), cur); err != nil {
		c.Failf("set", "%v", err)
	}
	stored := entriesModel(walkEntries(rs))
	if s := curKind.holds(stored, rkey{curKind.group, idn(1), 0}, l); s != "" {
		c.Failf("set", "%s (%s)", s, desc)
	}
	for g := stored[rkey{curKind.group, idn(1), 0}][6:]; len(g) >= 14; g = g[14:] {
		if size, id := le.Uint32(g[8:]), le.Uint16(g[12:]); int(size) != len(stored[rkey{curKind.img, idn(id), 0}]) {
			c.Failf("group-size", "the group says image %d is %d bytes long, it is %d (%s)", id, size, len(stored[rkey{curKind.img, idn(id), 0}]), desc)
		}
	}
	var got []*image.NRGBA
	for i, d := range l {
		m, err := decodeCursorDIB(d.data)
		if err != nil {
			c.Failf("entry", "image %d: %v (%s)", i, err, desc)
		}
		if m.Rect.Dx() != m.Rect.Dy() {
			c.Failf("entry", "image %d is %dx%d, not square (%s)", i, m.Rect.Dx(), m.Rect.Dy(), desc)
		}
		if side(d.w) != m.Rect.Dx() || side(d.h) != m.Rect.Dy() {
			c.Failf("entry", "directory says %s, image is %v (%s)", d.attrs(), m.Rect, desc)
		}
		if d.colors != 0 || d.reserved != 0 {
			c.Failf("entry", "directory says %s (%s)", d.attrs(), desc)
		}
		got = append(got, m)
		c.Event("DIB entries decoded", 1)
	}
	// hot spots go with images
	hots := make([]winres.HotSpot, len(l))
	for i, d := range l {
		hots[i] = winres.HotSpot{X: d.a, Y: d.b}
	}
	i := 0
	s, _ = matchImages(got, src, func(j int, m *image.NRGBA, img image.Image) string {
		for i = 0; i < len(src); i++ {
			if src[i] == img && cl[i].HotSpot == hots[j] {
				break
			}
		}
		if i == len(src) {
			return fmt.Sprintf("hot spot is %v", hots[j])
		}
		return shows(m, img, image.Point{})
	})
	if s != "" {
		c.Failf("picture", "%s (%s)", s, desc)
	}
	// each hot spot as often as asked
	count := map[winres.HotSpot]int{}
	for _, x := range cl {
		count[x.HotSpot]++
	}
	for _, x := range hots {
		count[x]--
		if count[x] < 0 {
			c.Failf("hotspot", "hot spots are %v (%s)", hots, desc)
		}
	}
	for _, m := range src {
		c.Event("pixels compared", m.Bounds().Dx()*m.Bounds().Dy())
	}
	c.Nontrivial(desc)
	c.Sample("%s", desc)
}

// sweepShow goes through every size around limits, for each kind of image.
func sweepShow(cursor bool) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		kind := c.Index % len(imageKinds)
		sizes := []int{1, 2, 3, 127, 128, 255, 256}
		w := sizes[c.Index/len(imageKinds)%len(sizes)]
		for _, h := range []int{w, 1, 256, w - 1, w + 1} {
			if h < 1 || h > 256 {
				continue
			}
			m := genImage(rng, kind, w, h)
			desc := fmt.Sprintf("%s %dx%d", imageKinds[kind], w, h)
			c.Nontrivial(desc)
			if !cursor {
				icon, err := winres.NewIconFromImages([]image.Image{m})
				if err != nil {
					c.Failf("refused", "NewIconFromImages: %v (%s)", err, desc)
				}
				checkIconShows(c, icon, []image.Image{m}, desc)
				continue
			}
			hs := winres.HotSpot{X: uint16(rng.Intn(w)), Y: uint16(rng.Intn(h))}
			cur, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: m, HotSpot: hs}})
			if err != nil {
				c.Failf("refused", "NewCursorFromImages: %v (%s)", err, desc)
			}
			l, s := curKind.saved(cur, "what was made")
			if s != "" || len(l) != 1 {
				c.Failf("save", "%s, %d images (%s)", s, len(l), desc)
			}
			d, err := decodeCursorDIB(l[0].data)
			if err != nil {
				c.Failf("entry", "%v (%s)", err, desc)
			}
			if d.Rect.Dx() != squareSide(m) || d.Rect.Dy() != squareSide(m) || side(l[0].w) != squareSide(m) || side(l[0].h) != squareSide(m) || l[0].a != hs.X || l[0].b != hs.Y {
				c.Failf("entry", "image is %v, directory says %s, want side %d and hot spot %v (%s)", d.Rect, l[0].attrs(), squareSide(m), hs, desc)
			}
			if s := shows(d, m, image.Point{}); s != "" {
				c.Failf("picture", "%s (%s)", s, desc)
			}
			c.Event("DIB entries decoded", 1)
			c.Event("pixels compared", w*h)
		}
	}
}

// refusedSizes: images too big or empty.
func refusedSizes(cursor bool) func(c *Ctx) {
	return func(c *Ctx) {
		rng := c.Rng
		for i := 0; i < 10; i++ {
			var m image.Image
			if rng.Intn(2) == 0 {
				w, h := 257+rng.Intn(3), 1+rng.Intn(256)
				switch rng.Intn(3) {
				case 0:
					w, h = h, w
				case 1:
					h = 257 + rng.Intn(10)
				}
				m = genImage(rng, rng.Intn(len(imageKinds)), w, h)
			} else {
				m = badImage(rng)
			}
			c.Event("refusals", 1)
			c.Nontrivial(m.Bounds().String())
			var err error
			if cursor {
				_, err = winres.NewCursorFromImages([]winres.CursorImage{{Image: m}})
			} else {
				_, err = winres.NewIconFromImages([]image.Image{m})
			}
			if err == nil {
				c.Failf("accepted", "an image of bounds %v is accepted", m.Bounds())
			}
		}
	}
}

// ---------------------------------------------------------------- C31

// A painting is a picture whose colours are known at any place, in [0,1]x[0,1], before sampling.
type painting struct {
	name string
	tol  func(u, v, du, dv float64) float64 // tolerance given the size of half a pixel; negative: not compared
	at   func(u, v float64) [4]float64      // not premultiplied, 0 to 255
}

func smoothPainting(rng *rand.Rand) painting {
	ax, ay := rng.Intn(2) == 0, rng.Intn(2) == 0
	flip := func(b bool, x float64) float64 {
		if b {
			return 1 - x
		}
		return x
	}
	minA := []float64{255, 255, 60, 0}[rng.Intn(4)]
	blue := float64(rng.Intn(256))
	alphaAlongX := rng.Intn(2) == 0
	return painting{
		name: fmt.Sprintf("gradient %v %v alpha from %v", ax, ay, minA),
		at: func(u, v float64) [4]float64 {
			a := u
			if !alphaAlongX {
				a = v
			}
			return [4]float64{255 * flip(ax, u), 255 * flip(ay, v), blue, minA + (255-minA)*a}
		},
		tol: func(u, v, du, dv float64) float64 {
			return 8 + 255*3.0*math.Max(du, dv)
		},
	}
}

// mosaicPainting is made of plain tiles, judged at the middle of each.
func mosaicPainting(rng *rand.Rand, nx, ny int) painting {
	tiles := make([][4]float64, nx*ny)
	for i := range tiles {
		tiles[i] = [4]float64{float64(rng.Intn(2)) * 255, float64(rng.Intn(2)) * 255, float64(rng.Intn(2)) * 255, []float64{255, 255, 0, 128}[rng.Intn(4)]}
	}
	return painting{
		name: fmt.Sprintf("mosaic %dx%d", nx, ny),
		at: func(u, v float64) [4]float64 {
			x, y := int(u*float64(nx)), int(v*float64(ny))
			if x >= nx {
				x = nx - 1
			}
			if y >= ny {
				y = ny - 1
			}
			return tiles[y*nx+x]
		},
		tol: func(u, v, du, dv float64) float64 {
			// far enough from the edges of the tile
			fx, fy := u*float64(nx), v*float64(ny)
			fx, fy = fx-math.Floor(fx), fy-math.Floor(fy)
			mx, my := math.Min(fx, 1-fx)/float64(nx), math.Min(fy, 1-fy)/float64(ny)
			if mx > 5*du && my > 5*dv {
				return 12
			}
			if mx > 2.2*du && my > 2.2*dv {
				return 60
			}
			return -1
		},
	}
}

func paint(p painting, kind int, w, h int, o image.Point) image.Image {
	r := image.Rectangle{Min: o, Max: o.Add(image.Pt(w, h))}
	px := func(x, y int) [4]float64 {
		return p.at((float64(x-o.X)+.5)/float64(w), (float64(y-o.Y)+.5)/float64(h))
	}
	c8 := func(f float64) uint8 { return uint8(f + .5) }
	nrgba := image.NewNRGBA(r)
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			q := px(x, y)
			nrgba.SetNRGBA(x, y, color.NRGBA{c8(q[0]), c8(q[1]), c8(q[2]), c8(q[3])})
		}
	}
	switch kind {
	case 1:
		m := image.NewRGBA(r)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.Set(x, y, nrgba.At(x, y))
			}
		}
		return m
	case 2:
		m := image.NewNRGBA64(r)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				q := px(x, y)
				m.Set(x, y, color.NRGBA64{uint16(q[0] * 257), uint16(q[1] * 257), uint16(q[2] * 257), uint16(q[3] * 257)})
			}
		}
		return m
	case 3:
		m := image.NewRGBA64(r)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.Set(x, y, nrgba.At(x, y))
			}
		}
		return m
	case 4:
		return customImage{nrgba, color.NRGBAModel, r, image.Point{}}
	case 5:
		big := image.NewNRGBA(image.Rectangle{Min: r.Min.Sub(image.Pt(3, 5)), Max: r.Max.Add(image.Pt(4, 2))})
		for i := range big.Pix {
			big.Pix[i] = byte(i * 31)
		}
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				big.Set(x, y, nrgba.At(x, y))
			}
		}
		return big.SubImage(r)
	}
	return nrgba
}

var paintKinds = []string{"NRGBA", "RGBA", "NRGBA64", "RGBA64", "custom", "sub-image"}

func genSizes(rng *rand.Rand) []int {
	switch rng.Intn(8) {
	case 0:
		return nil
	case 1:
		return []int{}
	case 2:
		l := make([]int, 30)
		for i := range l {
			l[i] = 1 + rng.Intn(40)
		}
		return l
	}
	var l []int
	for i, n := 0, 1+rng.Intn(5); i < n; i++ {
		l = append(l, []int{1, 2, 3, 15, 16, 17, 24, 32, 48, 64, 96, 128, 255, 256, 1 + rng.Intn(256), 1 + rng.Intn(256)}[rng.Intn(16)])
	}
	return l
}

func resizedIcon(c *Ctx, big bool) {
	rng := c.Rng
	dim := func(max int) int {
		switch rng.Intn(3) {
		case 0:
			return []int{1, 2, 3, 16, 31, 32, 48, 64, 100, 128, 255, 256, 257, 300}[rng.Intn(14)]
		}
		return 1 + rng.Intn(max)
	}
	max := 300
	if big {
		max = 2000
	}
	w, h := dim(max), dim(max)
	switch rng.Intn(6) {
	case 0, 1:
		h = w
	case 2:
		h = w + rng.Intn(3) - 1
		if h < 1 {
			h = 1
		}
	case 3:
		if big {
			w, h = 1000+rng.Intn(3096), 1+rng.Intn(8)
			if rng.Intn(2) == 0 {
				w, h = h, w
			}
		}
	}
	var p painting
	if rng.Intn(2) == 0 {
		p = smoothPainting(rng)
	} else {
		p = mosaicPainting(rng, 1+rng.Intn(5), 1+rng.Intn(5))
	}
	kind := rng.Intn(len(paintKinds))
	src := paint(p, kind, w, h, genOrigin(rng))
	sizes := genSizes(rng)
	if len(sizes) > 8 && w*h > 90000 {
		sizes = sizes[:8]
	}
	desc := fmt.Sprintf("%s %s %dx%d to %v", paintKinds[kind], p.name, w, h, sizes)
	arg := append([]int{}, sizes...)
	if sizes == nil {
		arg = nil
	}
	icon, err := winres.NewIconFromResizedImage(src, arg)
	if err != nil {
		c.Failf("refused", "NewIconFromResizedImage: %v (%s)", err, desc)
	}
	if sizes == nil {
		sizes = []int{256, 64, 48, 32, 16}
		c.Event("default sizes", 1)
	}
	l, s := icoKind.saved(icon, "what was made")
	if s != "" {
		c.Failf("save", "%s (%s)", s, desc)
	}
	want := map[int]int{}
	for _, s := range sizes {
		want[s]++
	}
	if len(l) != len(sizes) {
		c.Failf("sizes", "%d images, want %d (%s)", len(l), len(sizes), desc)
	}
	for i, d := range l {
		m, err := checkIconEntry(d)
		if err != nil {
			c.Failf("entry", "image %d: %v (%s)", i, err, desc)
		}
		s := m.Rect.Dx()
		if want[s] == 0 {
			c.Failf("sizes", "unexpected image of %d pixels (%s)", s, desc)
		}
		want[s]--
		if s := checkResized(c, m, src, p); s != "" {
			c.Failf("picture", "at size %d: %s (%s)", m.Rect.Dx(), s, desc)
		}
		c.Event("resized images judged", 1)
	}
	c.Nontrivial(desc)
	c.Sample("%s", desc)
}

// checkResized compares a resized picture with the painting it comes from.
func checkResized(c *Ctx, m *image.NRGBA, src image.Image, p painting) string {
	b := src.Bounds()
	w, h, s := b.Dx(), b.Dy(), m.Rect.Dx()
	// where the picture is
	fw, fh := float64(s), float64(s)
	if w < h {
		fw = float64(s) * float64(w) / float64(h)
	} else {
		fh = float64(s) * float64(h) / float64(w)
	}
	// the picture may be rounded up or down, at least one pixel, and be centred to one side or the other
	var why string
	for _, iw := range rounded(fw) {
		for _, ih := range rounded(fh) {
			for _, at := range centred(image.Rect(0, 0, iw, ih), s) {
				n := 0
				if why, n = compareAt(m, at, iw, ih, src, p); why == "" {
					c.Event("pixels compared", n)
					if w == s && h == s {
						c.Event("same size", 1)
					}
					return ""
				}
			}
		}
	}
	return why
}

func rounded(f float64) []int {
	if f <= 1 {
		return []int{1}
	}
	a := int(f)
	if float64(a) == f {
		return []int{a}
	}
	if f-float64(a) > .5 {
		return []int{a + 1, a}
	}
	return []int{a, a + 1}
}

func compareAt(m *image.NRGBA, at image.Point, iw, ih int, src image.Image, p painting) (string, int) {
	b := src.Bounds()
	same := iw == b.Dx() && ih == b.Dy()
	n := 0
	// half a pixel of the result or of the source, whichever is bigger
	du := .5 / math.Min(float64(iw), float64(b.Dx()))
	dv := .5 / math.Min(float64(ih), float64(b.Dy()))
	for y := 0; y < m.Rect.Dy(); y++ {
		for x := 0; x < m.Rect.Dx(); x++ {
			g := m.NRGBAAt(x, y)
			q := image.Pt(x, y).Sub(at)
			if q.X < 0 || q.Y < 0 || q.X >= iw || q.Y >= ih {
				if g.A != 0 {
					return fmt.Sprintf("pixel %d,%d is %v, outside of the picture %v", x, y, g, image.Rectangle{at, at.Add(image.Pt(iw, ih))}), n
				}
				continue
			}
			u, v := (float64(q.X)+.5)/float64(iw), (float64(q.Y)+.5)/float64(ih)
			var t float64
			var want [4]float64
			if same {
				e := color.NRGBAModel.Convert(src.At(b.Min.X+q.X, b.Min.Y+q.Y)).(color.NRGBA)
				want = [4]float64{float64(e.R), float64(e.G), float64(e.B), float64(e.A)}
				t = 3
			} else {
				// what sampling made of the painting: the painting at the nearest source pixels
				want = p.at(u, v)
				t = p.tol(u, v, du, dv)
			}
			if t < 0 {
				continue
			}
			n++
			ga := float64(g.A) / 255
			wa := want[3] / 255
			for k, gv := range []uint8{g.R, g.G, g.B} {
				if math.Abs(float64(gv)*ga-want[k]*wa) > t {
					return fmt.Sprintf("pixel %d,%d is %v, want %.0f within %.0f (premultiplied)", x, y, g, want, t), n
				}
			}
			if math.Abs(float64(g.A)-want[3]) > t {
				return fmt.Sprintf("pixel %d,%d is %v, want %.0f within %.0f", x, y, g, want, t), n
			}
		}
	}
	return "", n
}

func resizeRefusals(c *Ctx) {
	rng := c.Rng
	for i := 0; i < 10; i++ {
		src := genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(50), 1+rng.Intn(50))
		var sizes []int
		for j, n := 0, rng.Intn(5); j < n; j++ {
			sizes = append(sizes, 1+rng.Intn(64))
		}
		if rng.Intn(3) == 0 {
			for len(sizes) < 31+rng.Intn(2) {
				sizes = append(sizes, 1+rng.Intn(32))
			}
		} else {
			s := []int{0, -1, -16, -256, 257, 258, 512, 65536 + 16, 1 << 32, math.MaxInt64, math.MinInt64}[rng.Intn(11)]
			at := rng.Intn(len(sizes) + 1)
			sizes = append(sizes[:at:at], append([]int{s}, sizes[at:]...)...)
		}
		if _, err := winres.NewIconFromResizedImage(src, sizes); err == nil {
			c.Failf("accepted", "sizes %v are accepted", sizes)
		}
		c.Event("refusals", 1)
		c.Nontrivial(fmt.Sprint(sizes))
	}
}

func init() {
	var fams []Family
	for _, k := range dirKinds {
		fams = append(fams, Family{k.name + " files", 600, 30000, hostileDirFile(k)},
			Family{k.name + " groups", 400, 20000, hostileGroup(k)},
			Family{k.name + " overlaps", 24, 120, hugeDirFile(k)})
	}
	fams = append(fams, Family{"makes", 60, 1500, badMakes})
	register(&Prop{
		ID:       "C13",
		Rule:     "ICO and CUR files with mutated fields, counts, sizes, contents and lengths; groups and images of any bytes in sets; lists and sizes that make nothing; whatever is obtained is saved, stored, extracted and written again; panics, allocations and refusals are watched; non-trivial: distinct input",
		Min:      map[string]int64{"loads": 5000, "refused": 3000, "obtained from hostile input": 2000, "extractions": 10000, "overlapping entries": 40, "resources of 4 GB and more": 2, "bad lists refused": 2000, "bad sizes refused": 1000},
		Families: fams,
	})
	register(&Prop{
		ID:   "C19",
		Rule: "images of every colour model (standard, sub-images, custom), any origin, size and transparency, alone and in lists; the PNG entries of the icon are decoded and compared pixel by pixel with the source; non-trivial: distinct list",
		Min:  map[string]int64{"PNG entries decoded": 800, "pixels compared": 2000000, "refusals": 200},
		Families: []Family{
			{"lists", 1500, 40000, iconsShow},
			{"sizes", len(imageKinds) * 7, len(imageKinds) * 7 * 5, sweepShow(false)},
			{"refusals", 30, 600, refusedSizes(false)},
		},
	})
	register(&Prop{
		ID:   "C20",
		Rule: "images of every colour model (standard, sub-images, custom), any origin, size, transparency and hot spot, alone and in lists; the DIB entries of the cursor are decoded by an independent reader and compared pixel by pixel with the source; non-trivial: distinct list",
		Min:  map[string]int64{"DIB entries decoded": 800, "pixels compared": 2000000, "refusals": 200},
		Families: []Family{
			{"lists", 1500, 40000, cursorsShow},
			{"sizes", len(imageKinds) * 7, len(imageKinds) * 7 * 5, sweepShow(true)},
			{"refusals", 30, 600, refusedSizes(true)},
		},
	})
	register(&Prop{
		ID:   "C31",
		Rule: "gradients and mosaics sampled at any size, aspect ratio, colour model and origin, resized to any list of sizes; every pixel of the decoded entries is compared with the painting at that place, and must be transparent outside of it; non-trivial: distinct source and sizes",
		Min:  map[string]int64{"resized images judged": 800, "pixels compared": 500000, "refusals": 200, "default sizes": 10},
		Families: []Family{
			{"small", 1500, 40000, func(c *Ctx) { resizedIcon(c, false) }},
			{"big", 200, 6000, func(c *Ctx) { resizedIcon(c, true) }},
			{"refusals", 30, 400, resizeRefusals},
		},
	})
}
