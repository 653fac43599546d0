package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"math/rand"
	"sort"
	"strings"
)

// ICO and CUR files, independent of the library.

type dirImage struct {
	w, h, colors, reserved uint8
	a, b                   uint16 // planes and bits, or hot spot
	data                   []byte
}

func (d dirImage) attrs() string {
	return fmt.Sprintf("%dx%d colors=%d res=%d %d,%d %d bytes", d.w, d.h, d.colors, d.reserved, d.a, d.b, len(d.data))
}

// key identifies an image among others.
func (d dirImage) key(withColors bool) string {
	s := fmt.Sprintf("%d,%d,%d,%d|", d.w, d.h, d.a, d.b)
	if withColors {
		s += fmt.Sprintf("%d,%d|", d.colors, d.reserved)
	}
	return s + string(d.data)
}

func side(b uint8) int {
	if b == 0 {
		return 256
	}
	return int(b)
}

// buildDirFile lays an ICO (typ 1) or CUR (typ 2) file out.
func buildDirFile(rng *rand.Rand, typ uint16, l []dirImage) []byte {
	hdr := 6 + 16*len(l)
	off := make([]int, len(l))
	order := rng.Perm(len(l))
	if rng.Intn(2) == 0 {
		sort.Ints(order)
	}
	var body bytes.Buffer
	pad := rng.Intn(4) == 0
	share := rng.Intn(4) == 0
	nested := share && len(l) < 400 && rng.Intn(2) == 0
	seed := rng.Int63()
again:
	r := rand.New(rand.NewSource(seed))
	body.Reset()
	seen := map[string]int{}
	for _, i := range order {
		if share {
			if o, ok := seen[string(l[i].data)]; ok {
				off[i] = o
				continue
			}
			if nested { // inside other images
				if o := bytes.Index(body.Bytes(), l[i].data); o >= 0 {
					off[i] = hdr + o
					continue
				}
			}
		}
		if pad {
			body.Write(randBytes(r, r.Intn(20)))
		}
		off[i] = hdr + body.Len()
		seen[string(l[i].data)] = off[i]
		body.Write(l[i].data)
	}
	if pad {
		body.Write(randBytes(r, r.Intn(20)))
	}
	// A file whose images overlap so much that they are bigger than it may be refused.
	if nested {
		end, total := 0, 0
		used := map[[2]int]bool{}
		for i, d := range l {
			if at := [2]int{off[i], len(d.data)}; !used[at] {
				used[at] = true
				total += len(d.data)
			}
			if off[i]+len(d.data) > end {
				end = off[i] + len(d.data)
			}
			if total > end {
				nested = false
				goto again
			}
		}
	}
	b := make([]byte, hdr, hdr+body.Len())
	le.PutUint16(b[2:], typ)
	le.PutUint16(b[4:], uint16(len(l)))
	for i, d := range l {
		e := b[6+16*i:]
		e[0], e[1], e[2], e[3] = d.w, d.h, d.colors, d.reserved
		le.PutUint16(e[4:], d.a)
		le.PutUint16(e[6:], d.b)
		le.PutUint32(e[8:], uint32(len(d.data)))
		le.PutUint32(e[12:], uint32(off[i]))
	}
	return append(b, body.Bytes()...)
}

// parseDirFile reads and checks an ICO or CUR file. Images must not overlap, nothing may be left over.
func parseDirFile(b []byte, typ uint16, strict bool) ([]dirImage, error) {
	if len(b) < 6 {
		return nil, fmt.Errorf("file of %d bytes", len(b))
	}
	if le.Uint16(b) != 0 || le.Uint16(b[2:]) != typ {
		return nil, fmt.Errorf("header is % x", b[:6])
	}
	n := int(le.Uint16(b[4:]))
	hdr := 6 + 16*n
	if len(b) < hdr {
		return nil, fmt.Errorf("file of %d bytes cannot hold %d entries", len(b), n)
	}
	type span struct{ a, b int }
	var spans []span
	var l []dirImage
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		size, off := uint64(le.Uint32(e[8:])), uint64(le.Uint32(e[12:]))
		if off < uint64(hdr) || off+size > uint64(len(b)) {
			return nil, fmt.Errorf("image %d: [%d,%d) is outside of the file's images [%d,%d)", i, off, off+size, hdr, len(b))
		}
		spans = append(spans, span{int(off), int(off + size)})
		l = append(l, dirImage{e[0], e[1], e[2], e[3], le.Uint16(e[4:]), le.Uint16(e[6:]), b[off : off+size]})
	}
	if strict {
		sort.Slice(spans, func(i, j int) bool {
			return spans[i].a < spans[j].a || spans[i].a == spans[j].a && spans[i].b < spans[j].b
		})
		end := hdr
		for _, s := range spans {
			if s.a < end {
				return nil, fmt.Errorf("images overlap at %d", s.a)
			}
			end = s.b
		}
		if end != len(b) {
			return nil, fmt.Errorf("images end at %d, the file at %d", end, len(b))
		}
	}
	return l, nil
}

// sameImages compares lists of images, in any order.
func sameImages(got, want []dirImage, withColors bool) string {
	n := map[string]int{}
	for _, d := range want {
		n[d.key(withColors)]++
	}
	for _, d := range got {
		k := d.key(withColors)
		if n[k] == 0 {
			return fmt.Sprintf("unexpected image %s (want %s)", d.attrs(), listAttrs(want))
		}
		n[k]--
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d images, want %d", len(got), len(want))
	}
	return ""
}

func listAttrs(l []dirImage) string {
	s := ""
	for i, d := range l {
		if i > 8 {
			return s + "..."
		}
		s += d.attrs() + "; "
	}
	return s
}

// Generators.

func genPNG(rng *rand.Rand, w, h int) []byte {
	var b bytes.Buffer
	if err := png.Encode(&b, genImage(rng, rng.Intn(len(imageKinds)), w, h)); err != nil {
		panic(err)
	}
	return b.Bytes()
}

// genDIB makes a device independent bitmap as icons and cursors hold.
func genDIB(rng *rand.Rand, w, h int, bits uint16) []byte {
	hs := []int{40, 40, 40, 108, 124}[rng.Intn(5)]
	b := make([]byte, hs)
	le.PutUint32(b, uint32(hs))
	le.PutUint32(b[4:], uint32(w))
	le.PutUint32(b[8:], uint32(2*h))
	planes := uint16(1)
	if rng.Intn(8) == 0 {
		planes = uint16(rng.Intn(4))
		if rng.Intn(2) == 0 { // nonsense, kept as it is
			planes, bits = uint16(rng.Intn(65536)), uint16(rng.Intn(65536))
		}
	}
	le.PutUint16(b[12:], planes)
	le.PutUint16(b[14:], bits)
	for i := 16; i < hs; i++ {
		b[i] = byte(rng.Intn(256))
	}
	n := (w*int(bits)+31)/32*4*h + (w+31)/32*4*h
	return append(b, randBytes(rng, n%5000)...)
}

func genDims(rng *rand.Rand) (int, int) {
	w := []int{1, 2, 8, 16, 24, 31, 32, 48, 64, 127, 128, 255, 256}[rng.Intn(13)]
	h := w
	if rng.Intn(4) == 0 {
		h = 1 + rng.Intn(256)
	}
	return w, h
}

func genIcoImage(rng *rand.Rand) dirImage {
	w, h := genDims(rng)
	d := dirImage{w: uint8(w), h: uint8(h)}
	bits := []uint16{1, 4, 8, 16, 24, 32, 32, 32}[rng.Intn(8)]
	switch rng.Intn(5) {
	case 0:
		if w > 48 {
			w, h = 48, 48
		}
		d.data = genPNG(rng, w, 1+rng.Intn(48))
	case 1:
		d.data = randBytes(rng, rng.Intn(300))
	default:
		d.data = genDIB(rng, w, h, bits)
	}
	d.a, d.b = 1, bits
	if bits < 8 {
		d.colors = 1 << bits
	}
	switch rng.Intn(10) {
	case 0: // as many tools leave them
		d.a, d.b, d.colors = 0, 0, 0
	case 1:
		d.a, d.b = uint16(rng.Intn(65536)), uint16(rng.Intn(65536))
	case 2:
		d.colors, d.reserved = uint8(rng.Intn(256)), uint8(rng.Intn(256))
	}
	return d
}

func genCurImage(rng *rand.Rand) dirImage {
	w, h := genDims(rng)
	d := dirImage{w: uint8(w), h: uint8(h)}
	if rng.Intn(5) == 0 {
		x, y := w, h
		if x > 48 {
			x = 48
		}
		if y > 48 {
			y = 48
		}
		d.data = genPNG(rng, x, y)
	} else {
		d.data = genDIB(rng, w, h, []uint16{1, 4, 8, 16, 24, 32, 32}[rng.Intn(7)])
	}
	d.a, d.b = uint16(rng.Intn(w+1)), uint16(rng.Intn(h+1))
	if rng.Intn(8) == 0 {
		d.a, d.b = uint16(rng.Intn(65536)), uint16(rng.Intn(65536))
	}
	if rng.Intn(8) == 0 {
		d.colors = uint8(rng.Intn(256))
	}
	return d
}

func genImages(rng *rand.Rand, n int, f func(*rand.Rand) dirImage) []dirImage {
	l := []dirImage{}
	for i := 0; i < n; i++ {
		if i > 0 && rng.Intn(6) == 0 {
			d := l[rng.Intn(i)]
			switch rng.Intn(4) {
			case 0, 1:
				d.data = randomizeTail(rng, d.data)
			case 2: // the beginning of the other one
				if len(d.data) > 40 && d.data[0] != 0x89 {
					d.data = d.data[:40+rng.Intn(len(d.data)-40)]
				}
			}
			l = append(l, d)
			continue
		}
		d := f(rng)
		if rng.Intn(60) == 0 && len(d.data) >= 40 { // as great as real ones can be
			more := 5000 + rng.Intn(60000)
			if k := rng.Intn(4); k == 0 {
				more = rng.Intn(300000)
			} else if k == 1 {
				if more = 1<<uint(12+rng.Intn(7)) + rng.Intn(7) - 3 - len(d.data); more < 0 {
					more = 70000
				}
			}
			d.data = append(append([]byte{}, d.data...), randBytes(rng, more)...)
		}
		l = append(l, d)
	}
	return l
}

func randomizeTail(rng *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	if len(b) > 130 {
		b[len(b)-1] ^= 1 + byte(rng.Intn(255))
	}
	return b
}

// cursorDepth is what the group entry of a cursor must say.
func cursorDepth(d []byte) (planes, bits uint16) {
	if bytes.HasPrefix(d, []byte("\x89PNG\r\n\x1a\n")) {
		return 1, 32
	}
	return le.Uint16(d[12:]), le.Uint16(d[14:])
}

// Source images of every kind.

var imageKinds = []string{"NRGBA", "NRGBA opaque", "NRGBA sub", "RGBA", "RGBA opaque", "NRGBA64", "RGBA64", "Gray", "Gray16", "Alpha", "Alpha16", "Paletted", "CMYK", "YCbCr", "NYCbCrA",
	"custom NRGBA", "custom RGBA", "custom other", "uniform", "NRGBA transparent", "Paletted sub", "NRGBA one hole"}

// customImage hides the concrete type.
type customImage struct {
	img   image.Image
	model color.Model
	r     image.Rectangle
	dx    image.Point
}

func (c customImage) ColorModel() color.Model { return c.model }
func (c customImage) Bounds() image.Rectangle { return c.r }
func (c customImage) At(x, y int) color.Color {
	return c.model.Convert(c.img.At(x+c.dx.X, y+c.dx.Y))
}

func genOrigin(rng *rand.Rand) image.Point {
	switch rng.Intn(3) {
	case 0:
		return image.Point{}
	case 1:
		return image.Pt(rng.Intn(400)-200, rng.Intn(400)-200)
	}
	return image.Pt(-rng.Intn(300), rng.Intn(100000))
}

func genImage(rng *rand.Rand, kind int, w, h int) image.Image {
	o := genOrigin(rng)
	if strings.Contains(imageKinds[kind], "YCbCr") {
		// the standard library does not handle rectangles that cross zero
		o = image.Pt(rng.Intn(100), rng.Intn(100))
	}
	r := image.Rectangle{Min: o, Max: o.Add(image.Pt(w, h))}
	noise := rng.Intn(2) == 0
	fill := func(pix []byte, alphaStep int) {
		if noise {
			rng.Read(pix)
		} else {
			for i := range pix {
				pix[i] = byte(i*7 + i/64*13)
			}
		}
		if alphaStep > 0 {
			mode := rng.Intn(3)
			for i := alphaStep - 1; i < len(pix); i += alphaStep {
				switch mode {
				case 0:
					pix[i] = byte(rng.Intn(2) * 255)
				case 1:
					pix[i] = []byte{0, 1, 2, 127, 128, 254, 255}[rng.Intn(7)]
				}
			}
		}
	}
	nrgba := func(r image.Rectangle) *image.NRGBA {
		m := image.NewNRGBA(r)
		fill(m.Pix, 4)
		return m
	}
	opaque := func(pix []byte) {
		for i := 3; i < len(pix); i += 4 {
			pix[i] = 255
		}
	}
	premul := func(m *image.RGBA) {
		for i := 0; i+3 < len(m.Pix); i += 4 {
			a := m.Pix[i+3]
			for k := 0; k < 3; k++ {
				if m.Pix[i+k] > a {
					m.Pix[i+k] = a
				}
			}
		}
	}
	switch imageKinds[kind] {
	case "NRGBA":
		return nrgba(r)
	case "NRGBA opaque":
		m := nrgba(r)
		opaque(m.Pix)
		return m
	case "NRGBA transparent":
		m := nrgba(r)
		for i := 3; i < len(m.Pix); i += 4 {
			m.Pix[i] = 0
		}
		return m
	case "NRGBA one hole":
		m := nrgba(r)
		opaque(m.Pix)
		m.Pix[4*rng.Intn(w*h)+3] = byte(rng.Intn(255))
		return m
	case "NRGBA sub":
		m := nrgba(image.Rectangle{Min: r.Min.Sub(image.Pt(rng.Intn(9), rng.Intn(9))), Max: r.Max.Add(image.Pt(rng.Intn(9), rng.Intn(9)))})
		return m.SubImage(r)
	case "RGBA":
		m := image.NewRGBA(r)
		fill(m.Pix, 4)
		premul(m)
		return m
	case "RGBA opaque":
		m := image.NewRGBA(r)
		fill(m.Pix, 0)
		opaque(m.Pix)
		return m
	case "NRGBA64":
		m := image.NewNRGBA64(r)
		fill(m.Pix, 0)
		return m
	case "RGBA64":
		m := image.NewRGBA64(r)
		for y := r.Min.Y; y < r.Max.Y; y++ {
			for x := r.Min.X; x < r.Max.X; x++ {
				m.Set(x, y, color.NRGBA64{uint16(rng.Uint32()), uint16(rng.Uint32()), uint16(rng.Uint32()), uint16(rng.Uint32())})
			}
		}
		return m
	case "Gray":
		m := image.NewGray(r)
		fill(m.Pix, 0)
		return m
	case "Gray16":
		m := image.NewGray16(r)
		fill(m.Pix, 0)
		return m
	case "Alpha":
		m := image.NewAlpha(r)
		fill(m.Pix, 0)
		return m
	case "Alpha16":
		m := image.NewAlpha16(r)
		fill(m.Pix, 0)
		return m
	case "Paletted", "Paletted sub":
		n := 1 + rng.Intn(256)
		p := make(color.Palette, n)
		for i := range p {
			p[i] = color.NRGBA{uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256)), []uint8{0, 100, 255, 255}[rng.Intn(4)]}
		}
		rr := r
		if imageKinds[kind] == "Paletted sub" {
			rr = image.Rectangle{Min: r.Min.Sub(image.Pt(rng.Intn(9), rng.Intn(9))), Max: r.Max.Add(image.Pt(rng.Intn(9), rng.Intn(9)))}
		}
		m := image.NewPaletted(rr, p)
		for i := range m.Pix {
			m.Pix[i] = uint8(rng.Intn(n))
		}
		return m.SubImage(r)
	case "CMYK":
		m := image.NewCMYK(r)
		fill(m.Pix, 0)
		return m
	case "YCbCr":
		m := image.NewYCbCr(r, image.YCbCrSubsampleRatio(rng.Intn(6)))
		fill(m.Y, 0)
		fill(m.Cb, 0)
		fill(m.Cr, 0)
		return m
	case "NYCbCrA":
		m := image.NewNYCbCrA(r, image.YCbCrSubsampleRatio(rng.Intn(6)))
		fill(m.Y, 0)
		fill(m.Cb, 0)
		fill(m.Cr, 0)
		fill(m.A, 0)
		return m
	case "custom NRGBA":
		d := image.Pt(rng.Intn(40), rng.Intn(40))
		return customImage{nrgba(image.Rectangle{Max: image.Pt(w, h)}.Add(d)), color.NRGBAModel, r, d.Sub(r.Min)}
	case "custom RGBA":
		m := nrgba(r)
		return customImage{m, color.RGBAModel, r, image.Point{}}
	case "custom other":
		m := nrgba(r)
		return customImage{m, color.ModelFunc(func(c color.Color) color.Color { return color.NRGBA64Model.Convert(c) }), r, image.Point{}}
	case "uniform":
		c := color.NRGBA{uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256)), uint8(rng.Intn(256))}
		return customImage{image.NewUniform(c), color.NRGBAModel, r, image.Point{}}
	}
	panic("harness: image kind")
}

// exactKind tells whether the colours of an image convert to 8 bits without any choice.
func exactKind(img image.Image) bool {
	switch m := img.(type) {
	case *image.NRGBA, *image.Gray, *image.Alpha:
		return true
	case *image.RGBA:
		return m.Opaque()
	case customImage:
		return m.model == color.NRGBAModel
	case *image.Paletted:
		return true
	}
	return false
}

// pixelDiff compares a pixel with what it was made of.
func pixelDiff(got color.NRGBA, want color.Color, exact bool) bool {
	w := color.NRGBAModel.Convert(want).(color.NRGBA)
	if got == w {
		return false
	}
	if got.A == 0 && w.A == 0 {
		return false
	}
	if exact {
		return true
	}
	near := func(a, b uint8) bool { return a == b || a+1 == b && b != 0 || b+1 == a && a != 0 }
	if !near(got.A, w.A) {
		return true
	}
	if w.A < 8 && got.A < 8 {
		return false // colours are hardly defined
	}
	return !near(got.R, w.R) || !near(got.G, w.G) || !near(got.B, w.B)
}

// shows tells whether sq shows img at the given place over a transparent background.
func shows(sq *image.NRGBA, img image.Image, at image.Point) string {
	exact := exactKind(img)
	b := img.Bounds()
	for y := 0; y < sq.Rect.Dy(); y++ {
		for x := 0; x < sq.Rect.Dx(); x++ {
			p := sq.NRGBAAt(x, y)
			q := image.Pt(x, y).Sub(at).Add(b.Min)
			if !q.In(b) {
				if p.A != 0 {
					return fmt.Sprintf("pixel %d,%d is %v, should be transparent", x, y, p)
				}
				continue
			}
			if w := img.At(q.X, q.Y); pixelDiff(p, w, exact) {
				return fmt.Sprintf("pixel %d,%d is %v, want %v", x, y, p, color.NRGBAModel.Convert(w))
			}
		}
	}
	return ""
}

// decodePNG32 decodes a PNG and checks it is 32 bits per pixel.
func decodePNG32(b []byte) (*image.NRGBA, error) {
	if len(b) < 33 || string(b[:8]) != "\x89PNG\r\n\x1a\n" || string(b[12:16]) != "IHDR" {
		return nil, fmt.Errorf("not a PNG")
	}
	if b[24] != 8 || b[25] != 6 {
		return nil, fmt.Errorf("PNG of depth %d and colour type %d, not 32 bits", b[24], b[25])
	}
	img, err := png.Decode(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	m, ok := img.(*image.NRGBA)
	if !ok || m.Rect.Min != (image.Point{}) {
		return nil, fmt.Errorf("decoded as %T %v", img, img.Bounds())
	}
	return m, nil
}

// decodeCursorDIB reads a 32 bits DIB with doubled height.
func decodeCursorDIB(b []byte) (*image.NRGBA, error) {
	if len(b) < 40 || le.Uint32(b) != 40 {
		return nil, fmt.Errorf("no 40 byte header")
	}
	w, h2 := int(int32(le.Uint32(b[4:]))), int(int32(le.Uint32(b[8:])))
	if w <= 0 || h2 <= 0 || h2%2 != 0 || w > 256 || h2 > 512 {
		return nil, fmt.Errorf("dimensions %dx%d", w, h2)
	}
	if p, n := le.Uint16(b[12:]), le.Uint16(b[14:]); p != 1 || n != 32 {
		return nil, fmt.Errorf("%d planes, %d bits", p, n)
	}
	if c := le.Uint32(b[16:]); c != 0 {
		return nil, fmt.Errorf("compression %d", c)
	}
	if u := le.Uint32(b[32:]); u != 0 {
		return nil, fmt.Errorf("%d colours", u)
	}
	h := h2 / 2
	n := 40 + 4*w*h
	mask := (w + 31) / 32 * 4 * h
	if len(b) != n && len(b) != n+mask {
		return nil, fmt.Errorf("%d bytes, want %d for %dx%d", len(b), n, w, h)
	}
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			p := b[40+4*((h-1-y)*w+x):]
			m.SetNRGBA(x, y, color.NRGBA{p[2], p[1], p[0], p[3]})
		}
	}
	return m, nil
}
