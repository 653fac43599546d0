package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
)

// C29 and C30: concurrent work on distinct objects, and inputs left alone.

// ---------------------------------------------------------------- digests

// imageDigest covers everything an image is made of, around its bounds too.
func imageDigest(img image.Image) string {
	h := sha256.New()
	add := func(r image.Rectangle, l ...interface{}) {
		fmt.Fprintf(h, "%T %v ", img, r)
		for _, x := range l {
			if b, ok := x.([]byte); ok {
				h.Write(b[:cap(b)])
			} else {
				fmt.Fprint(h, x, " ")
			}
		}
	}
	switch m := img.(type) {
	case *image.NRGBA:
		add(m.Rect, m.Stride, m.Pix)
	case *image.RGBA:
		add(m.Rect, m.Stride, m.Pix)
	case *image.NRGBA64:
		add(m.Rect, m.Stride, m.Pix)
	case *image.RGBA64:
		add(m.Rect, m.Stride, m.Pix)
	case *image.Gray:
		add(m.Rect, m.Stride, m.Pix)
	case *image.Gray16:
		add(m.Rect, m.Stride, m.Pix)
	case *image.Alpha:
		add(m.Rect, m.Stride, m.Pix)
	case *image.Alpha16:
		add(m.Rect, m.Stride, m.Pix)
	case *image.CMYK:
		add(m.Rect, m.Stride, m.Pix)
	case *image.Paletted:
		add(m.Rect, m.Stride, m.Pix, m.Palette)
	case *image.YCbCr:
		add(m.Rect, m.YStride, m.CStride, m.SubsampleRatio, m.Y, m.Cb, m.Cr)
	case *image.NYCbCrA:
		add(m.Rect, m.YStride, m.CStride, m.AStride, m.SubsampleRatio, m.Y, m.Cb, m.Cr, m.A)
	case *image.Uniform:
		add(image.Rectangle{}, m.C)
	case customImage:
		add(m.r, m.dx, imageDigest(m.img))
	case yieldImage:
		add(m.Bounds(), imageDigest(m.Image))
	default:
		panic(fmt.Sprintf("harness: image %T", img))
	}
	return string(h.Sum(nil))
}

func sum(b []byte) string { s := sha256.Sum256(b); return string(s[:]) }

// wholeDigest covers the spare capacity of a slice.
func wholeDigest(b []byte) string {
	return fmt.Sprint(b == nil, len(b), cap(b)) + sum(b[:cap(b)])
}

func tableDump(lt version.LangTable) string {
	if lt == nil {
		return "nil"
	}
	var langs []int
	for l := range lt {
		langs = append(langs, int(l))
	}
	sort.Ints(langs)
	var sb strings.Builder
	for _, l := range langs {
		fmt.Fprintf(&sb, "[%x", l)
		st := lt[uint16(l)]
		if st == nil {
			sb.WriteString(" nil")
		} else {
			sb.WriteString(stringsDump(*st))
		}
		sb.WriteString("]")
	}
	return sb.String()
}

func stringsDump(st version.StringTable) string {
	if st == nil {
		return " nil"
	}
	var keys []string
	for k := range st {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sb strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&sb, " %q=%q", k, st[k])
	}
	return sb.String()
}

func infoDump(vi *version.Info) string {
	if vi == nil {
		return "nil"
	}
	return fmt.Sprintf("%v %v %v %v %d %d %v", vi.FileVersion, vi.ProductVersion, vi.Flags, vi.Type, vi.Timestamp.UnixNano(), vi.Timestamp.Year(), vi.Timestamp.Location()) + tableDump(vi.Table())
}

func setDump(rs *winres.ResourceSet) string {
	return fmt.Sprint(rs.Count(), " ") + sum(digestSet(rs))
}

func (k *dirKind) dump(x interface{}) string {
	var b bytes.Buffer
	err := k.save(x, &b)
	return fmt.Sprint(err, b.Len()) + sum(b.Bytes())
}

// ---------------------------------------------------------------- C30

type guard struct {
	name string
	dig  func() string
	want string
}

// guarded is a world of inputs and objects, all watched.
type guarded struct {
	c      *Ctx
	rng    *rand.Rand
	guards []*guard
	log    []string
	datas  [][]byte
	sets   []*guard
	setOf  map[*guard]*winres.ResourceSet
	exes   [][]byte
	images []image.Image
	icons  map[*dirKind][]interface{}
	infos  []*guard
	infoOf map[*guard]*version.Info
	tables []*guard
	tabOf  map[*guard]version.LangTable
	keys   []rkey
	checks int
}

func (w *guarded) watch(name string, dig func() string) *guard {
	g := &guard{name, dig, dig()}
	w.guards = append(w.guards, g)
	return g
}

func (w *guarded) verify() {
	for _, g := range w.guards {
		if g.dig() != g.want {
			n := len(w.log)
			from := n - 12
			if from < 0 {
				from = 0
			}
			w.c.Failf("modified:"+strings.Fields(g.name)[0]+":"+strings.Fields(w.log[n-1])[0], "%s modified by: %s\nbefore that: %s", g.name, w.log[n-1], strings.Join(w.log[from:n-1], "; "))
		}
		w.checks++
	}
}

// forget drops some guards, to keep checks cheap.
func (w *guarded) forget(max int) {
	if len(w.guards) <= max {
		return
	}
	keep := map[*guard]bool{}
	for _, l := range [][]*guard{w.sets, w.infos, w.tables} {
		for _, g := range l {
			keep[g] = true
		}
	}
	l := w.guards[:0:0]
	drop := len(w.guards) - max
	for _, g := range w.guards {
		if drop > 0 && !keep[g] && w.rng.Intn(2) == 0 {
			drop--
			continue
		}
		l = append(l, g)
	}
	w.guards = l
}

func (w *guarded) did(format string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, a...))
}

// data gives a slice with a canary in its spare capacity.
func (w *guarded) data(b []byte) []byte {
	spare := w.rng.Intn(24)
	x := make([]byte, len(b)+spare)
	copy(x, b)
	for i := len(b); i < len(x); i++ {
		x[i] = 0xCA
	}
	x = x[:len(b)]
	w.watch("input slice", func() string { return wholeDigest(x) })
	return x
}

func (w *guarded) newSet(rs *winres.ResourceSet, name string) {
	g := w.watch(name, func() string { return setDump(rs) })
	w.setOf[g] = rs
	w.sets = append(w.sets, g)
	if len(w.sets) > 4 {
		w.sets = w.sets[1:]
	}
	rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool {
		if len(w.keys) < 300 {
			w.keys = append(w.keys, rkey{fromWr(t), fromWr(r), l})
		}
		return true
	})
}

func (w *guarded) newInfo(vi *version.Info, name string) {
	g := w.watch(name, func() string { return infoDump(vi) })
	w.infoOf[g] = vi
	w.infos = append(w.infos, g)
	if len(w.infos) > 5 {
		w.infos = w.infos[1:]
	}
}

func (w *guarded) newDir(k *dirKind, x interface{}, name string) {
	w.watch(name, func() string { return k.dump(x) })
	w.icons[k] = append(w.icons[k], x)
	if len(w.icons[k]) > 5 {
		w.icons[k] = w.icons[k][1:]
	}
}

func (w *guarded) newTable(lt version.LangTable, name string) {
	g := w.watch(name, func() string { return tableDump(lt) })
	w.tabOf[g] = lt
	w.tables = append(w.tables, g)
	if len(w.tables) > 4 {
		w.tables = w.tables[1:]
	}
}

func (w *guarded) newImage() image.Image {
	m := genImage(w.rng, w.rng.Intn(len(imageKinds)), 1+w.rng.Intn(40), 1+w.rng.Intn(40))
	if w.rng.Intn(4) == 0 { // components above alpha, as careless programs leave them
		r := image.Rect(0, 0, 1+w.rng.Intn(40), 1+w.rng.Intn(40))
		if w.rng.Intn(2) == 0 {
			r.Max.Y = r.Max.X
		}
		if w.rng.Intn(2) == 0 {
			x := image.NewRGBA(r)
			w.rng.Read(x.Pix)
			m = x
		} else {
			x := image.NewRGBA64(r)
			w.rng.Read(x.Pix)
			m = x
		}
	}
	w.watch("image "+fmt.Sprintf("%T", m), func() string { return imageDigest(m) })
	w.images = append(w.images, m)
	return m
}

func (w *guarded) image() image.Image {
	if len(w.images) == 0 || w.rng.Intn(4) == 0 {
		return w.newImage()
	}
	return w.images[w.rng.Intn(len(w.images))]
}

func (w *guarded) key() rkey {
	if len(w.keys) > 0 && w.rng.Intn(3) > 0 {
		return w.keys[w.rng.Intn(len(w.keys))]
	}
	k := rkey{genType(w.rng), genIdent(w.rng), genLang(w.rng)}
	w.keys = append(w.keys, k)
	return k
}

func smallForeignVersion(rng *rand.Rand) []byte {
	for {
		f := &foreignVer{rng: rng}
		if b := f.block(genVerModel(rng, versionSmall)); len(b) < 30000 {
			return b
		}
	}
}

func (w *guarded) step() {
	c, rng := w.c, w.rng
	g := w.sets[rng.Intn(len(w.sets))]
	rs := w.setOf[g]
	changed := func() { g.want = g.dig() }
	k := icoKind
	if rng.Intn(2) == 0 {
		k = curKind
	}
	pickDir := func() interface{} {
		if l := w.icons[k]; len(l) > 0 {
			return l[rng.Intn(len(l))]
		}
		return nil
	}
	pickInfo := func() (*guard, *version.Info) {
		g := w.infos[rng.Intn(len(w.infos))]
		return g, w.infoOf[g]
	}
	switch op := rng.Intn(30); op {
	case 0, 1:
		var d []byte
		if len(w.datas) > 0 && rng.Intn(3) == 0 {
			d = w.datas[rng.Intn(len(w.datas))]
		} else {
			d = w.data(genData(rng, 3000))
			w.datas = append(w.datas, d)
		}
		key := w.key()
		w.did("Set(%s, %d bytes)", key, len(d))
		if rs.Set(key.typ.wr(), key.res.wr(), key.lang, d) == nil {
			changed()
		}
	case 2:
		key := w.key()
		w.did("Set(%s, nil)", key)
		if rs.Set(key.typ.wr(), key.res.wr(), key.lang, nil) == nil {
			changed()
		}
	case 3:
		w.did("Set with a wrong identifier")
		l := invalidIdents()
		if id := l[rng.Intn(len(l))]; id != nil {
			if rs.Set(id, winres.ID(1), 0, []byte{1}) == nil {
				c.Failf("accepted", "Set accepts %v", id)
			}
		}
	case 4:
		key := w.key()
		d := rs.Get(key.typ.wr(), key.res.wr(), key.lang)
		w.did("Get(%s)", key)
		if d != nil {
			w.watch("data that a set gave", func() string { return fmt.Sprint(len(d)) + sum(d) })
		}
	case 5:
		w.did("Walk")
		n := rng.Intn(20)
		rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool { n--; return n > 0 })
	case 6:
		key := w.key()
		w.did("WalkType(%s)", key.typ)
		rs.WalkType(key.typ.wr(), func(r winres.Identifier, l uint16, d []byte) bool { return true })
	case 7, 8:
		a := archs[rng.Intn(4)]
		w.did("WriteObject(%s)", a)
		var b1, b2 bytes.Buffer
		e1, e2 := rs.WriteObject(&b1, winres.Arch(a)), rs.WriteObject(&b2, winres.Arch(a))
		if fmt.Sprint(e1) != fmt.Sprint(e2) || !bytes.Equal(b1.Bytes(), b2.Bytes()) {
			c.Failf("object-again", "writing an object twice: %v and %v, %d and %d bytes", e1, e2, b1.Len(), b2.Len())
		}
	case 9:
		w.did("WriteObject failing")
		n := rng.Intn(400)
		rs.WriteObject(&limitedWriter{n}, winres.Arch(archs[rng.Intn(4)]))
	case 10, 11:
		x := w.exes[rng.Intn(len(w.exes))]
		o := patchOpts{force: rng.Intn(2) == 0, auth: rng.Intn(3)}
		w.did("WriteToEXE %+v", o)
		var b1, b2 bytes.Buffer
		e1 := patchTo(&b1, bytes.NewReader(x), rs, o)
		if rng.Intn(4) == 0 {
			patchTo(&limitedWriter{rng.Intn(3000)}, bytes.NewReader(x), rs, o)
		}
		e2 := patchTo(&b2, bytes.NewReader(x), rs, o)
		if fmt.Sprint(e1) != fmt.Sprint(e2) || !bytes.Equal(b1.Bytes(), b2.Bytes()) {
			c.Failf("exe-again", "patching twice: %v and %v, %d and %d bytes", e1, e2, b1.Len(), b2.Len())
		}
		if e1 == nil && rng.Intn(3) == 0 {
			y := w.data(b1.Bytes())
			w.exes = append(w.exes, y)
			if len(w.exes) > 4 {
				w.exes = w.exes[1:]
			}
		}
	case 12:
		x := w.exes[rng.Intn(len(w.exes))]
		w.did("LoadFromEXE")
		if y, err := winres.LoadFromEXE(bytes.NewReader(x)); err == nil {
			w.newSet(y, "loaded set")
		}
	case 13:
		x := w.exes[rng.Intn(len(w.exes))]
		key := w.key()
		w.did("LoadFromEXESingleType(%s)", key.typ)
		if y, err := winres.LoadFromEXESingleType(bytes.NewReader(x), key.typ.wr()); err == nil {
			w.newSet(y, "partly loaded set")
		}
		winres.IsSignedEXE(bytes.NewReader(x))
	case 14:
		f := buildDirFile(rng, k.typ, genImages(rng, 1+rng.Intn(4), k.gen))
		b := w.data(f)
		w.did("load %s", k.name)
		x, err := k.load(bytes.NewReader(b))
		if err != nil {
			c.Failf("load", "%v", err)
		}
		w.newDir(k, x, k.name+" loaded from a file")
	case 15, 16:
		var l []image.Image
		for i, n := 0, 1+rng.Intn(4); i < n; i++ {
			l = append(l, w.image())
		}
		spare := l[:len(l):len(l)]
		keep := append([]image.Image{}, spare...)
		sameList := func() string {
			for i := range keep {
				if !sameInterface(spare[i], keep[i]) {
					return "changed"
				}
			}
			return ""
		}
		w.watch("list of images", sameList)
		if k == icoKind {
			w.did("NewIconFromImages(%d images)", len(l))
			if x, err := winres.NewIconFromImages(spare); err == nil {
				w.newDir(k, x, "icon made from images")
			}
			return
		}
		w.did("NewCursorFromImages(%d images)", len(l))
		var cl []winres.CursorImage
		for _, m := range l {
			cl = append(cl, winres.CursorImage{Image: m, HotSpot: winres.HotSpot{X: uint16(rng.Intn(10)), Y: uint16(rng.Intn(10))}})
		}
		kc := append([]winres.CursorImage{}, cl...)
		w.watch("list of cursor images", func() string {
			for i := range kc {
				if cl[i].HotSpot != kc[i].HotSpot || !sameInterface(cl[i].Image, kc[i].Image) {
					return "changed"
				}
			}
			return ""
		})
		if x, err := winres.NewCursorFromImages(cl); err == nil {
			w.newDir(k, x, "cursor made from images")
		}
	case 17:
		m := w.image()
		sizes := [][]int{{16, 32}, {32, 16, 24}, {7}, {20, 20, 1}, {0, 5}, {33, 300}}[rng.Intn(6)]
		sizes = append([]int{}, sizes...)
		if rng.Intn(4) == 0 {
			sizes = nil // the default ones
			w.watch("list of default sizes", func() string { return fmt.Sprint(winres.DefaultIconSizes) })
		}
		if sz := m.Bounds().Size(); sizes != nil && rng.Intn(2) == 0 && sz.X > 0 && sz.Y > 0 && sz.X <= 256 && sz.Y <= 256 {
			// its own size
			sizes = append(sizes, sz.X)
			if sz.Y > sz.X {
				sizes[len(sizes)-1] = sz.Y
			}
		}
		w.watch("list of sizes", func() string { return fmt.Sprint(sizes) })
		w.did("NewIconFromResizedImage(%v)", sizes)
		if x, err := winres.NewIconFromResizedImage(m, sizes); err == nil {
			w.newDir(icoKind, x, "resized icon")
		}
	case 18:
		if x := pickDir(); x != nil {
			w.did("save %s", k.name)
			if a, b := k.dump(x), k.dump(x); a != b {
				c.Failf("save-again", "saving a %s twice differs", k.name)
			}
			k.save(x, &limitedWriter{rng.Intn(200)})
		}
	case 19, 20:
		if x := pickDir(); x != nil {
			id := genIdent(rng)
			w.did("set %s %s", k.name, id)
			lang := genLang(rng)
			before := entriesModel(walkEntries(rs))
			err := k.setLang(rs, id, lang, x)
			if err != nil { // image IDs are exhausted; some images may have been added
				after := entriesModel(walkEntries(rs))
				for key, d := range before {
					if a, ok := after[key]; !ok || !bytes.Equal(a, d) {
						c.Failf("failed-set", "a call that failed (%v) changed %s", err, key)
					}
				}
				changed()
			} else {
				changed()
				w.keys = append(w.keys, rkey{k.group, id, lang})
			}
		}
	case 21:
		key := w.key()
		w.did("get %s %s", k.name, key.res)
		x, err := k.get(rs, key.res)
		if rng.Intn(2) == 0 {
			x, err = k.getLang(rs, key.res, key.lang)
		}
		if err == nil {
			w.newDir(k, x, k.name+" from a set")
		}
	case 22:
		m := genManifest(rng, func() string { return genMText(rng, true) })
		keep := m
		w.did("SetManifest")
		rs.SetManifest(m)
		if m != keep {
			c.Failf("manifest", "modified")
		}
		changed()
		w.keys = append(w.keys, rkey{idn(24), idn(1), 0x409})
	case 23:
		var m winres.AppManifest
		doc := w.data([]byte(foreignManifest(rng, &m)))
		w.did("AppManifestFromXML")
		winres.AppManifestFromXML(doc)
		js, _ := json.Marshal(m)
		js = w.data(js)
		json.Unmarshal(js, &m)
		var lvl winres.ExecutionLevel
		tx := w.data([]byte([]string{" ASInvoker ", "HighestAvailable", "administrator", "x"}[rng.Intn(4)]))
		lvl.UnmarshalText(tx)
		var dpi winres.DPIAwareness
		dpi.UnmarshalText(tx)
		var os winres.SupportedOS
		os.UnmarshalText(tx)
		var id winres.AssemblyIdentity
		tj := w.data([]byte(`{"name":"N","version":"1.2.3.4"}`))
		id.UnmarshalJSON(tj)
	case 24:
		_, vi := pickInfo()
		w.did("SetVersionInfo")
		rs.SetVersionInfo(*vi)
		changed()
	case 25:
		if rng.Intn(3) == 0 {
			// languages that have no strings
			js := []string{`{"info":{"0409":{}}}`, `{"info":{"0000":{},"040C":{}}}`, `{"info":{"0000":{},"0409":{"A":"b"},"0411":{}}}`, `{"fixed":{"file_version":"1.2"}}`, `{"info":{"0407":{"ProductName":""},"0410":{}}}`}[rng.Intn(5)]
			x := &version.Info{}
			if err := json.Unmarshal([]byte(js), x); err == nil {
				w.did("JSON %s", js)
				w.newInfo(x, "version information with empty tables")
			}
			return
		}
		b := w.data(smallForeignVersion(rng))
		w.did("version.FromBytes")
		if vi, err := version.FromBytes(b); err == nil {
			w.newInfo(vi, "version information read")
		}
	case 26:
		gi, vi := pickInfo()
		lang, key := genLang(rng), genKey(rng)
		langs := make([]int, 0)
		for l := range vi.Table() {
			langs = append(langs, int(l))
		}
		sort.Ints(langs)
		if len(langs) > 0 && rng.Intn(2) == 0 {
			lang = uint16(langs[rng.Intn(len(langs))])
		}
		switch rng.Intn(3) {
		case 0:
			w.did("Info.Set(%#x)", lang)
			vi.Set(lang, key, "new value")
		case 1:
			w.did("SetProductVersion")
			vi.SetProductVersion("v1.2.3")
		case 2:
			w.did("SetFileVersion")
			vi.SetFileVersion("4.5")
		}
		gi.want = gi.dig()
	case 27:
		_, vi := pickInfo()
		w.did("Info.Bytes, MarshalJSON, Table")
		b1, b2 := vi.Bytes(), vi.Bytes()
		if !bytes.Equal(b1, b2) {
			c.Failf("bytes-again", "encoding twice differs")
		}
		w.watch("encoded version information", func() string { return wholeDigest(b1) })
		for i := range b2 {
			b2[i] = 0xEE // ours
		}
		if js, err := json.Marshal(vi); err == nil {
			js = w.data(js)
			x := &version.Info{}
			if json.Unmarshal(js, x) == nil {
				w.newInfo(x, "version information from JSON")
			}
		}
		lt := vi.Table()
		w.newTable(lt, "table copy")
		lt.GetMainTranslation()
	case 28:
		_, vi := pickInfo()
		m := vi.SplitTranslations()
		w.did("SplitTranslations (%d)", len(m))
		var langs []int
		for l := range m {
			langs = append(langs, int(l))
		}
		sort.Ints(langs)
		n := 0
		for _, l := range langs {
			if n++; n > 2 {
				break
			}
			w.newInfo(m[uint16(l)], fmt.Sprintf("split translation %#x", l))
		}
		if rng.Intn(2) == 0 {
			m2 := map[uint16]*version.Info{}
			for l, x := range m {
				m2[l] = x
			}
			for i := 0; i < 2; i++ {
				_, x := pickInfo()
				m2[genLang(rng)] = x
			}
			if rng.Intn(3) == 0 {
				m2[genLang(rng)] = nil
			}
			keep := map[uint16]*version.Info{}
			for l, x := range m2 {
				keep[l] = x
			}
			merged := version.MergeTranslations(m2)
			w.did("MergeTranslations (%d)", len(m2))
			if len(keep) != len(m2) {
				c.Failf("merge-map", "the map has changed")
			}
			for l := range keep {
				if x, ok := m2[l]; !ok || keep[l] != x {
					c.Failf("merge-map", "the map has changed")
				}
			}
			w.newInfo(merged, "merged version information")
		}
	case 29:
		if len(w.tables) == 0 {
			return
		}
		gt := w.tables[rng.Intn(len(w.tables))]
		lt := w.tabOf[gt]
		w.did("a copied table is changed")
		for l := range lt {
			if lt[l] != nil && *lt[l] != nil {
				switch rng.Intn(3) {
				case 0:
					(*lt[l])["ProductName"] = "changed"
				case 1:
					for k := range *lt[l] {
						delete(*lt[l], k)
						break
					}
				case 2:
					lt[l] = &version.StringTable{"K": "V"}
				}
			}
		}
		if lt != nil {
			lt[genLang(rng)] = &version.StringTable{"A": "B"}
			if rng.Intn(3) == 0 {
				for l := range lt {
					delete(lt, l)
					break
				}
			}
		}
		gt.want = gt.dig()
	}
}

func sameInterface(a, b image.Image) bool {
	defer func() { recover() }()
	return a == b
}

type limitedWriter struct{ n int }

func (l *limitedWriter) Write(b []byte) (int, error) {
	if len(b) > l.n {
		n := l.n
		l.n = 0
		return n, errInjected
	}
	l.n -= len(b)
	return len(b), nil
}

func unmodifiedCase(c *Ctx) {
	rng := c.Rng
	w := &guarded{c: c, rng: rng, setOf: map[*guard]*winres.ResourceSet{}, icons: map[*dirKind][]interface{}{}, infoOf: map[*guard]*version.Info{}, tabOf: map[*guard]version.LangTable{}}
	w.did("building")
	for i := 0; i < 2; i++ {
		m := genModel(rng)
		for len(m) > 150 || m.totalSize() > 30000 {
			m = genModel(rng)
		}
		rs := &winres.ResourceSet{}
		for _, e := range m.sorted() {
			if err := rs.Set(e.typ.wr(), e.res.wr(), e.lang, w.data(e.data)); err != nil {
				c.Failf("set-refused", "%v", err)
			}
		}
		w.newSet(rs, "set")
		x := w.data(genPE(rng, peProfile{keepSmall: true, signed: rng.Intn(2), needsSet: m, rsrcPos: []string{"last", "middle", "beforereloc", "last"}[rng.Intn(4)]}).build())
		w.exes = append(w.exes, x)
		w.newInfo(genVerModel(rng, versionSmall).info(c, rng), "version information")
	}
	n := 60 + rng.Intn(60)
	for i := 0; i < n; i++ {
		before := len(w.log)
		w.step()
		if len(w.log) > before {
			w.verify()
			c.Event("op "+strings.FieldsFunc(w.log[before], func(r rune) bool { return r == '(' || r == ' ' })[0], 1)
		}
		w.forget(70)
	}
	c.Event("operations", n)
	c.Event("digests compared", w.checks)
	c.Nontrivial(strings.Join(w.log, ";"))
	c.Sample("%s", strings.Join(w.log, "; "))
}

// ---------------------------------------------------------------- C29

// yieldImage gives way to other goroutines while it is being read.
type yieldImage struct{ image.Image }

func (y yieldImage) At(a, b int) (c color.Color) {
	if (a*7+b*13)%31 == 0 {
		runtime.Gosched()
	}
	return y.Image.At(a, b)
}

type yieldRS struct {
	*bytes.Reader
	n int
}

func (y *yieldRS) Read(b []byte) (int, error) {
	if y.n++; y.n%3 == 0 {
		runtime.Gosched()
	}
	return y.Reader.Read(b)
}

type yieldWriter struct {
	b bytes.Buffer
	n int
}

func (y *yieldWriter) Write(b []byte) (int, error) {
	if y.n++; y.n%5 == 0 {
		runtime.Gosched()
	}
	return y.b.Write(b)
}

// shared is what goroutines only read. Nothing of it is made with the code under test.
type shared struct {
	datas     [][]byte
	exes      [][]byte
	models    []model
	images    []image.Image
	icos      [][]byte
	curs      [][]byte
	versions  [][]byte
	verJSON   [][]byte
	xmls      [][]byte
	manifests []winres.AppManifest
	manJSON   [][]byte
	sizes     [][]int
}

func genShared(rng *rand.Rand) *shared {
	s := &shared{}
	for i := 0; i < 6; i++ {
		s.datas = append(s.datas, genData(rng, 3000))
	}
	for i := 0; i < 3; i++ {
		m := genModel(rng)
		for len(m) > 60 || m.totalSize() > 20000 {
			m = genModel(rng)
		}
		s.models = append(s.models, m)
		s.exes = append(s.exes, genPE(rng, peProfile{keepSmall: true, signed: i % 2, needsSet: m, rsrcPos: []string{"last", "middle", "beforereloc"}[i]}).build())
	}
	for i := 0; i < 5; i++ {
		s.images = append(s.images, genImage(rng, rng.Intn(len(imageKinds)), 1+rng.Intn(24), 1+rng.Intn(24)))
	}
	s.images = append(s.images, yieldImage{genImage(rng, 0, 20, 13)}, yieldImage{genImage(rng, 3, 9, 16)})
	for i := 0; i < 3; i++ {
		s.icos = append(s.icos, buildDirFile(rng, 1, genImages(rng, 1+rng.Intn(4), icoKind.gen)))
		s.curs = append(s.curs, buildDirFile(rng, 2, genImages(rng, 1+rng.Intn(4), curKind.gen)))
		s.versions = append(s.versions, smallForeignVersion(rng))
		var m winres.AppManifest
		s.xmls = append(s.xmls, []byte(foreignManifest(rng, &m)))
		s.manifests = append(s.manifests, genManifest(rng, func() string { return genMText(rng, true) }))
		js, _ := writeManifestJSON(rng, s.manifests[i], "")
		s.manJSON = append(s.manJSON, []byte(js))
	}
	s.verJSON = [][]byte{
		[]byte(`{"fixed":{"file_version":"1.2.3.4","flags":"Debug,Private","type":"DLL","timestamp":"2020-01-02T03:04:05Z"},"info":{"0409":{"ProductName":"A","Comments":"é"},"0000":{"ProductVersion":"x"}}}`),
		[]byte(`{"fixed":{"product_version":"9.8.7.6"},"info":{"040C":{"ProductName":"B"}}}`),
	}
	s.sizes = [][]int{{16}, {8, 24}, {5, 16, 3}, {32}, {16}, {1, 7}, {8}, nil}
	return s
}

// script does things with objects of its own, and tells all it obtains.
func script(s *shared, seed int64, n int) string {
	rng := rand.New(rand.NewSource(seed))
	h := sha256.New()
	say := func(l ...interface{}) {
		for _, x := range l {
			switch x := x.(type) {
			case []byte:
				fmt.Fprint(h, len(x), ":")
				h.Write(x)
			default:
				fmt.Fprint(h, x, ";")
			}
		}
	}
	rs := &winres.ResourceSet{}
	vi := &version.Info{}
	img := func() image.Image { return s.images[rng.Intn(len(s.images))] }
	any := func(l [][]byte) []byte { return l[rng.Intn(len(l))] }
	for i := 0; i < n; i++ {
		switch rng.Intn(16) {
		case 0, 1:
			for j := 0; j < 8; j++ {
				say(rs.Set(genType(rng).wr(), genIdent(rng).wr(), genLang(rng), any(s.datas)))
			}
		case 2:
			m := s.models[rng.Intn(len(s.models))]
			for _, e := range m.sorted() {
				say(rs.Set(e.typ.wr(), e.res.wr(), e.lang, e.data))
			}
		case 3, 4:
			w := &yieldWriter{}
			say(rs.WriteObject(w, winres.Arch(archs[rng.Intn(4)])), w.b.Bytes())
		case 5, 6:
			w := &yieldWriter{}
			o := patchOpts{force: rng.Intn(2) == 0, auth: rng.Intn(3)}
			say(patchTo(w, &yieldRS{Reader: bytes.NewReader(any(s.exes))}, rs, o), w.b.Bytes())
		case 7:
			x, err := winres.LoadFromEXE(&yieldRS{Reader: bytes.NewReader(any(s.exes))})
			say(err, digestSet(x))
			if err == nil && rng.Intn(2) == 0 {
				rs = x
			}
			y, err := winres.IsSignedEXE(bytes.NewReader(any(s.exes)))
			say(y, err)
		case 8:
			k, f := icoKind, s.icos
			if rng.Intn(2) == 0 {
				k, f = curKind, s.curs
			}
			x, err := k.load(&yieldRS{Reader: bytes.NewReader(any(f))})
			say(err)
			if err == nil {
				w := &yieldWriter{}
				say(k.save(x, w), w.b.Bytes())
				id := genIdent(rng)
				say(k.setLang(rs, id, genLang(rng), x))
				say(k.set(rs, id, x))
				y, err := k.get(rs, id)
				say(err)
				if err == nil {
					w := &yieldWriter{}
					say(k.save(y, w), w.b.Bytes())
				}
			}
		case 9:
			x, err := winres.NewIconFromImages([]image.Image{img(), img()})
			say(err)
			if err == nil {
				w := &yieldWriter{}
				say(x.SaveICO(w), w.b.Bytes(), rs.SetIcon(genIdent(rng).wr(), x))
			}
		case 10:
			x, err := winres.NewIconFromResizedImage(img(), s.sizes[rng.Intn(len(s.sizes))])
			say(err)
			if err == nil {
				w := &yieldWriter{}
				say(x.SaveICO(w), w.b.Bytes())
			}
		case 11:
			x, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: img()}, {Image: img(), HotSpot: winres.HotSpot{X: 1, Y: 2}}})
			say(err)
			if err == nil {
				w := &yieldWriter{}
				say(x.SaveCUR(w), w.b.Bytes(), rs.SetCursor(genIdent(rng).wr(), x))
			}
		case 12:
			m := s.manifests[rng.Intn(len(s.manifests))]
			rs.SetManifest(m)
			b, _ := storedManifest(rs)
			say(b)
			m, err := winres.AppManifestFromXML(any(s.xmls))
			say(m, err)
			js, err := json.Marshal(m)
			say(js, err)
			say(json.Unmarshal(any(s.manJSON), &m), m)
		case 13:
			x, err := version.FromBytes(any(s.versions))
			say(err)
			if err == nil {
				vi = x
				say(vi.Bytes(), infoDump(vi))
			}
		case 14:
			say(vi.Set(genLang(rng), genKey(rng), "value"))
			vi.SetFileVersion("1.2.3")
			say(json.Unmarshal(any(s.verJSON), vi))
			js, err := json.Marshal(vi)
			say(js, err)
			m := vi.SplitTranslations()
			say(infoDump(version.MergeTranslations(m)))
			rs.SetVersionInfo(*vi)
		case 15:
			say(digestSet(rs), infoDump(vi), vi.Bytes())
		}
	}
	say(digestSet(rs))
	return string(h.Sum(nil))
}

func concurrentCase(c *Ctx) {
	rng := c.Rng
	s := genShared(rng)
	workers := 4 + rng.Intn(10)
	n := 4 + rng.Intn(10)
	seeds := make([]int64, workers)
	for i := range seeds {
		seeds[i] = rng.Int63()
		if i > 0 && rng.Intn(3) == 0 {
			seeds[i] = seeds[i-1] // the same things at the same time
		}
	}
	together := func() []string {
		res := make([]string, workers)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range seeds {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				res[i] = script(s, seeds[i], n)
			}(i)
		}
		close(start)
		wg.Wait()
		return res
	}
	// together first, so that nothing has been prepared by a previous run
	a := together()
	alone := make([]string, workers)
	for i := range seeds {
		alone[i] = script(s, seeds[i], n)
	}
	b := together()
	for i := range seeds {
		if a[i] != alone[i] || b[i] != alone[i] {
			c.Failf("results", "goroutine %d of %d (script %d, %d steps) does not obtain what it obtains alone", i, workers, seeds[i], n)
		}
		for j := 0; j < i; j++ {
			if seeds[i] == seeds[j] && alone[i] != alone[j] {
				c.Failf("not-repeatable", "script %d gives different results when run again", seeds[i])
			}
		}
	}
	c.Event("concurrent scripts compared", 2*workers)
	c.Event("rounds", 2)
	c.Nontrivial(fmt.Sprint(seeds))
	c.Sample("%d goroutines, %d steps each, twice", workers, n)
}

// freshCase runs a concurrent case in a process of its own, so that it comes first.
func freshCase(c *Ctx) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self, "-child", "-prop", "C29", "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-only", fmt.Sprintf("first/%d", c.Index))
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if strings.Contains(se.String(), "DATA RACE") {
		c.Failf("race:"+raceSite(se.String()), "%s", clip(se.String(), 6000))
	}
	done := false
	d := json.NewDecoder(&so)
	for {
		var m childMsg
		if e := d.Decode(&m); e == io.EOF {
			break
		} else if e != nil {
			panic("harness: " + e.Error())
		}
		if m.Fail != nil {
			c.Failf(m.Fail.Sig, "%s", m.Fail.Msg)
		}
		if m.Done {
			done = true
			for k, v := range m.Events {
				c.Event(k, int(v))
			}
		}
	}
	if !done {
		if strings.Contains(se.String(), "tc-hib/winres") && strings.Contains(se.String(), "fatal error: ") {
			c.Failf("crash:"+panicSite(se.String()), "%s", clip(se.String(), 6000))
		}
		panic(fmt.Sprintf("harness: fresh process: %v\n%s", err, clip(se.String(), 3000)))
	}
	c.Event("fresh processes", 1)
	c.Nontrivial(c.Index)
}

func init() {
	register(&Prop{
		ID:   "C30",
		Rule: "histories of all operations (failing ones too) over sets, executables, icons, cursors, manifests and version structures that share inputs; after each operation the digests of all inputs (with their spare capacity), of all objects that were not meant to change, and of results obtained before are compared; non-trivial: distinct history",
		Min:  map[string]int64{"operations": 20000, "digests compared": 500000},
		Families: []Family{
			{"histories", 400, 12000, unmodifiedCase},
		},
	})
	register(&Prop{
		ID:   "C29",
		Rule: "4 to 13 goroutines run random scripts over objects of their own and shared inputs, under the race detector, with streams and images that yield; results compared with those of the scripts run alone; also in processes where nothing ran before; non-trivial: distinct scripts",
		Race: true,
		Min:  map[string]int64{"concurrent scripts compared": 1000, "fresh processes": 20},
		Families: []Family{
			{"rounds", 150, 4000, concurrentCase},
			{"fresh", 40, 800, freshCase},
			{"first", 0, 0, concurrentCase},
		},
	})
}
