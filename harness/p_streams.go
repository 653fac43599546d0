package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"syscall"

	"github.com/tc-hib/winres"
)

// C15 and C16: every operation that takes streams, run over streams that fail, and over streams of all kinds.

// streamOp is an operation with its input. The digest tells what was read.
type streamOp struct {
	name string
	src  []byte // nil if the operation reads no stream
	dst  bool   // it writes to a stream
	pos  bool   // it works whatever the position of the source
	run  func(r io.ReadSeeker, w io.Writer) (digest []byte, err error)
}

func digestSet(rs *winres.ResourceSet) []byte {
	if rs == nil {
		return nil
	}
	var b bytes.Buffer
	for _, e := range walkEntries(rs) {
		fmt.Fprintf(&b, "%s %d\n", e.rkey, len(e.data))
		b.Write(e.data)
	}
	return b.Bytes()
}

// loadableExe gives an executable with resources.
func loadableExe(c *Ctx, rng *rand.Rand) ([]byte, model, *peSpec) {
	for try := 0; ; try++ {
		if try == 10000 {
			c.Event("no executable could be patched", 1)
			panic(stopCase{})
		}
		spec := genPE(rng, peProfile{keepSmall: true, tiny: true, signed: rng.Intn(2)})
		src := spec.build()
		m := genModel(rng)
		if len(m) == 0 || m.totalSize() > 20000 || len(m) > 200 {
			continue
		}
		o := patchOpts{auth: 2, force: rng.Intn(2) == 0}
		out, err := patch(m.build(c, rng), src, o)
		if err != nil {
			continue
		}
		if spec.certOff > 0 {
			// where is it now?
			p, err := parsePE(out)
			if err != nil || len(p.dirs) < 5 {
				continue
			}
			spec.certOff = p.dirs[4].va
		}
		return out, m, spec
	}
}

var opNames = []string{"LoadFromEXE", "LoadFromEXESingleType", "IsSignedEXE", "WriteToEXE", "WriteToEXE", "WriteToEXE", "WriteObject", "LoadICO", "LoadCUR", "SaveICO", "SaveCUR", "LoadFromEXE real", "WriteToEXE real"}

// genOp makes an operation that succeeds.
func genOp(c *Ctx, which int) *streamOp {
	rng := c.Rng
	op := &streamOp{name: opNames[which%len(opNames)]}
	smallModel := func() model {
		for {
			m := genModelFit(rng)
			if len(m) <= 120 && m.totalSize() < 40000 {
				return m
			}
		}
	}
	var exe []byte
	switch op.name {
	case "LoadFromEXE real", "WriteToEXE real":
		if b, name := realExe(c); b != nil && len(b) < 100000 {
			exe = b
			op.name = op.name[:len(op.name)-5]
			_ = name
			c.Event("operations on real executables", 1)
			if op.name == "LoadFromEXE" {
				out, err := patch(smallModel().build(c, rng), exe, patchOpts{})
				if err != nil {
					c.Failf("patch-error", "%v", err)
				}
				exe = out
			}
		} else {
			op.name = "WriteToEXE"
		}
	}
	switch op.name {
	case "LoadFromEXE":
		if op.src = exe; exe == nil {
			op.src, _, _ = loadableExe(c, rng)
		}
		op.pos = true
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) {
			rs, err := winres.LoadFromEXE(r)
			return digestSet(rs), err
		}
	case "LoadFromEXESingleType":
		var m model
		op.src, m, _ = loadableExe(c, rng)
		op.pos = true
		l := m.sorted()
		t := l[rng.Intn(len(l))].typ
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) {
			rs, err := winres.LoadFromEXESingleType(r, t.wr())
			return digestSet(rs), err
		}
	case "IsSignedEXE":
		op.src = genPE(rng, peProfile{keepSmall: true, tiny: true, signed: 1}).build()
		op.pos = true
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) {
			y, err := winres.IsSignedEXE(r)
			return []byte(fmt.Sprint(y)), err
		}
	case "WriteToEXE":
		for try := 0; ; try++ {
			if try == 10000 {
				c.Event("no executable could be patched", 1)
				panic(stopCase{})
			}
			o := patchOpts{auth: 1 + rng.Intn(2), force: rng.Intn(2) == 0}
			if op.src = exe; exe == nil {
				switch rng.Intn(3) {
				case 0:
					op.src, _, _ = loadableExe(c, rng)
				default:
					op.src = genPE(rng, peProfile{keepSmall: true, tiny: true, signed: rng.Intn(2)}).build()
				}
			}
			rs := smallModel().build(c, rng)
			if _, err := patch(rs, op.src, o); err != nil {
				continue
			}
			op.dst, op.pos = true, true
			op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) { return nil, patchTo(w, r, rs, o) }
			break
		}
	case "WriteObject":
		rs := smallModel().build(c, rng)
		a := winres.Arch(archs[rng.Intn(4)])
		op.dst = true
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) { return nil, rs.WriteObject(w, a) }
	case "LoadICO":
		op.src = buildDirFile(rng, 1, genImages(rng, 1+rng.Intn(6), genIcoImage))
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) {
			x, err := winres.LoadICO(r)
			if err != nil {
				return nil, err
			}
			var b bytes.Buffer
			if err := x.SaveICO(&b); err != nil {
				c.Failf("save-error", "%v", err)
			}
			return b.Bytes(), nil
		}
	case "LoadCUR":
		op.src = buildDirFile(rng, 2, genImages(rng, 1+rng.Intn(6), genCurImage))
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) {
			x, err := winres.LoadCUR(r)
			if err != nil {
				return nil, err
			}
			var b bytes.Buffer
			if err := x.SaveCUR(&b); err != nil {
				c.Failf("save-error", "%v", err)
			}
			return b.Bytes(), nil
		}
	case "SaveICO":
		x, err := winres.LoadICO(bytes.NewReader(buildDirFile(rng, 1, genImages(rng, 1+rng.Intn(6), genIcoImage))))
		if err != nil {
			c.Failf("load-error", "%v", err)
		}
		op.dst = true
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) { return nil, x.SaveICO(w) }
	case "SaveCUR":
		x, err := winres.LoadCUR(bytes.NewReader(buildDirFile(rng, 2, genImages(rng, 1+rng.Intn(6), genCurImage))))
		if err != nil {
			c.Failf("load-error", "%v", err)
		}
		op.dst = true
		op.run = func(r io.ReadSeeker, w io.Writer) ([]byte, error) { return nil, x.SaveCUR(w) }
	default:
		panic("harness: " + op.name)
	}
	return op
}

// reference runs the operation without failure.
func (op *streamOp) reference(c *Ctx) (digest, out []byte) {
	var b bytes.Buffer
	d, err := op.run(bytes.NewReader(op.src), &b)
	if err != nil {
		c.Attach("src", op.src)
		c.Failf("reference", "%s fails: %v", op.name, err)
	}
	return d, b.Bytes()
}

// ---------------------------------------------------------------- faults

var errInjected = errors.New("injected failure")

type faultMode struct {
	name string
	kind byte // 's' a seek, 'r' a read, 'w' a write
	part int  // 0: nothing is transferred, 1: a part, 2: everything
	err  error
}

var faultModes = []faultMode{
	{"seek fails", 's', 0, errInjected},
	{"seek fails (EOF)", 's', 0, io.EOF},
	{"seek fails (EINVAL)", 's', 0, syscall.EINVAL},
	{"seek fails after moving", 's', 2, errInjected},
	{"read fails", 'r', 0, errInjected},
	{"read fails half-way", 'r', 1, errInjected},
	{"read fails at the end", 'r', 2, errInjected},
	{"read fails (ErrUnexpectedEOF)", 'r', 0, io.ErrUnexpectedEOF},
	{"read fails (EINTR)", 'r', 1, syscall.EINTR},
	{"read ends early", 'r', 0, io.EOF},
	{"read ends early half-way", 'r', 1, io.EOF},
	{"read fails (closed)", 'r', 0, os.ErrClosed},
	{"write fails", 'w', 0, errInjected},
	{"write fails half-way", 'w', 1, errInjected},
	{"write fails half-way (short)", 'w', 1, io.ErrShortWrite},
	{"write fails at the end", 'w', 2, errInjected},
	{"write fails (ENOSPC)", 'w', 0, syscall.ENOSPC},
	{"write fails (EOF)", 'w', 0, io.EOF},
	{"write fails (EPIPE)", 'w', 0, io.ErrClosedPipe},
}

// faults decides which operations of a stream fail.
type faults struct {
	n      int // operations so far
	log    []byte
	at     int // the operation that fails, -1: none
	mode   *faultMode
	perm   bool
	prob   int // or one operation out of prob fails
	rng    *rand.Rand
	fired  int
	extra  int // operations after the failure
	failed bool
}

func (f *faults) next(kind byte) *faultMode {
	n := f.n
	f.n++
	if f.at < 0 && f.prob == 0 {
		f.log = append(f.log, kind)
	}
	if f.failed {
		f.extra++
		if f.extra > 200000 {
			panic(stopCase{}) // a stream that always fails is being used for ever: the stall monitor is for that
		}
	}
	if f.prob > 0 {
		if f.rng.Intn(f.prob) != 0 {
			return nil
		}
		for {
			if m := &faultModes[f.rng.Intn(len(faultModes))]; m.kind == kind {
				f.fired++
				return m
			}
		}
	}
	if n == f.at || f.failed && f.perm {
		f.failed = true
		if f.mode.kind == kind {
			f.fired++
			return f.mode
		}
		if n != f.at {
			// permanent failure: other operations fail too
			f.fired++
			return &faultMode{"", kind, 0, f.mode.err}
		}
	}
	return nil
}

type faultRS struct {
	r   *bytes.Reader
	f   *faults
	max int // pieces
}

func (s *faultRS) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	m := s.f.next('r')
	if s.max > 0 && len(b) > s.max {
		b = b[:s.max]
	}
	if m == nil {
		return s.r.Read(b)
	}
	n := 0
	switch m.part {
	case 1:
		n, _ = s.r.Read(b[:(len(b)+1)/2])
	case 2:
		n, _ = s.r.Read(b)
	}
	return n, m.err
}

func (s *faultRS) Seek(o int64, w int) (int64, error) {
	m := s.f.next('s')
	if m == nil {
		return s.r.Seek(o, w)
	}
	if m.part == 2 {
		s.r.Seek(o, w)
	}
	return 0, m.err
}

// sizedFaultRS also reports its size.
type sizedFaultRS struct {
	faultRS
	n int64
}

func (s *sizedFaultRS) Size() int64 { return s.n }

// faultW may be used as a seekable destination too.
type faultW struct {
	b []byte
	f *faults
}

func (w *faultW) Write(p []byte) (int, error) {
	m := w.f.next('w')
	n := len(p)
	var err error
	if m != nil {
		err = m.err
		switch m.part {
		case 0:
			n = 0
		case 1:
			n /= 2
		}
	}
	w.b = append(w.b, p[:n]...)
	return n, err
}

type seekFaultW struct {
	m memFile
	f *faults
}

func (w *seekFaultW) Write(p []byte) (int, error) {
	m := w.f.next('w')
	n := len(p)
	var err error
	if m != nil {
		err = m.err
		switch m.part {
		case 0:
			n = 0
		case 1:
			n /= 2
		}
	}
	w.m.Write(p[:n])
	return n, err
}

func (w *seekFaultW) Seek(o int64, wh int) (int64, error) {
	m := w.f.next('s')
	if m == nil {
		return w.m.Seek(o, wh)
	}
	return 0, m.err
}

// openFault gives fault-injecting streams, the source of one of three kinds.
func openFault(op *streamOp, variant int, fs, fd *faults) (io.ReadSeeker, io.Writer, func() []byte) {
	base := faultRS{r: bytes.NewReader(op.src), f: fs}
	switch variant / 2 % 3 {
	case 1:
		base.max = 3000
	case 2:
		base.max = 100000
	}
	var r io.ReadSeeker = &base
	if variant/6%2 == 1 {
		r = &sizedFaultRS{base, int64(len(op.src))}
	}
	if variant%2 == 0 {
		w := &faultW{f: fd}
		return r, w, func() []byte { return w.b }
	}
	w := &seekFaultW{f: fd}
	return r, w, func() []byte { return w.m.b }
}

func faultsCase(c *Ctx) {
	op := genOp(c, c.Index)
	digest, out := op.reference(c)
	variant := c.Rng.Intn(12)
	c.Attach("src", op.src)

	// how many operations are there?
	fs, fd := &faults{at: -1}, &faults{at: -1}
	r, w, got := openFault(op, variant, fs, fd)
	d, err := op.run(r, w)
	if err != nil || !bytes.Equal(d, digest) || !bytes.Equal(got(), out) {
		c.Failf("reference", "%s differs over another kind of stream: %v", op.name, err)
	}
	logs := [2][]byte{fs.log, fd.log}

	check := func(what string, fs, fd *faults) {
		r, w, got := openFault(op, variant, fs, fd)
		d, err := op.run(r, w)
		c.Event("failing runs", 1)
		if err != nil {
			c.Event("errors reported", 1)
			return
		}
		if fs.fired+fd.fired > 0 {
			c.Event("successes in spite of a failure", 1)
		} else {
			c.Event("runs that met no failure", 1)
		}
		if !bytes.Equal(d, digest) {
			c.Failf("silent-read", "%s, %s: success, but what was read differs (%d bytes, want %d)", op.name, what, len(d), len(digest))
		}
		if b := got(); !bytes.Equal(b, out) {
			c.Attach("out", b)
			c.Attach("want", out)
			c.Failf("silent-write", "%s, %s: success, but %d bytes were written, want %d, first difference at %d", op.name, what, len(b), len(out), firstDiff(b, out))
		}
	}
	limit := 60
	if c.Tier == "thorough" {
		limit = 2000
	}
	for side, log := range logs {
		var points []int
		if len(log) <= limit {
			for i := range log {
				points = append(points, i)
			}
			c.Event("operations with every point of failure", 1)
		} else {
			for _, i := range c.Rng.Perm(len(log))[:limit] {
				points = append(points, i)
			}
			sort.Ints(points)
		}
		for _, at := range points {
			for mi := range faultModes {
				m := &faultModes[mi]
				if m.kind != log[at] {
					continue
				}
				for _, perm := range []bool{false, true} {
					f := &faults{at: at, mode: m, perm: perm}
					none := &faults{at: -1}
					what := fmt.Sprintf("%s at operation %d of %d on the %s, permanently: %v, streams of kind %d", m.name, at, len(log), []string{"source", "destination"}[side], perm, variant)
					if side == 0 {
						check(what, f, none)
					} else {
						check(what, none, f)
					}
				}
			}
			c.Event("points of failure", 1)
			c.Nontrivial(c.Index, side, at)
		}
	}
	// several failures
	for i := 0; i < 20; i++ {
		prob := 2 + c.Rng.Intn(len(logs[0])+len(logs[1])+2)
		fs := &faults{at: -1, prob: prob, rng: c.Rng}
		fd := &faults{at: -1, prob: prob, rng: c.Rng}
		check(fmt.Sprintf("one operation out of %d fails", prob), fs, fd)
	}
	// after all that, it still works
	var b bytes.Buffer
	d, err = op.run(bytes.NewReader(op.src), &b)
	if err != nil || !bytes.Equal(d, digest) || !bytes.Equal(b.Bytes(), out) {
		c.Failf("after-failures", "%s: after failed attempts, another one gives %d and %d bytes, want %d and %d (%v)", op.name, len(d), b.Len(), len(digest), len(out), err)
	}
	c.Event(op.name, 1)
	c.Sample("%s: %d operations on the source, %d on the destination", op.name, len(logs[0]), len(logs[1]))
}

// sectorRS is a source of which some bytes cannot be read. It records where reads begin and end.
type sectorRS struct {
	b      []byte
	pos    int64
	from   int64 // bytes that cannot be read
	to     int64
	whole  bool // a read that meets them gives nothing at all
	err    error
	fired  int
	bounds map[int64]bool
}

func (s *sectorRS) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.b)) {
		return 0, io.EOF
	}
	end := s.pos + int64(len(p))
	if end > int64(len(s.b)) {
		end = int64(len(s.b))
	}
	if s.bounds != nil {
		s.bounds[s.pos] = true
		s.bounds[end] = true
	}
	var err error
	if s.from < s.to && end > s.from && s.pos < s.to {
		s.fired++
		if s.whole || s.pos >= s.from {
			return 0, s.err
		}
		end = s.from
		if s.fired%2 == 0 {
			err = s.err
		}
	}
	n := copy(p, s.b[s.pos:end])
	s.pos += int64(n)
	return n, err
}

func (s *sectorRS) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += s.pos
	case io.SeekEnd:
		o += int64(len(s.b))
	}
	if o < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = o
	return o, nil
}

type sizedSectorRS struct{ *sectorRS }

func (s sizedSectorRS) Size() int64 { return int64(len(s.b)) }

// fullW is a destination that has room for so many bytes. It records where writes end.
type fullW struct {
	b      []byte
	room   int
	limit  bool
	nice   bool // what fits is written
	err    error
	fired  int
	bounds map[int64]bool
}

func (w *fullW) Write(p []byte) (int, error) {
	if w.limit && len(w.b)+len(p) > w.room {
		w.fired++
		n := 0
		if w.nice {
			n = w.room - len(w.b)
			w.b = append(w.b, p[:n]...)
		} else {
			w.room = len(w.b) // for good
		}
		return n, w.err
	}
	w.b = append(w.b, p...)
	if w.bounds != nil {
		w.bounds[int64(len(w.b))] = true
	}
	return len(p), nil
}

// sectorsCase makes bytes of the source unreadable, or fills the destination, at chosen places:
// around those where reads and writes begin and end, and at random.
func sectorsCase(c *Ctx) {
	op := genOp(c, c.Index)
	digest, out := op.reference(c)
	c.Attach("src", op.src)
	sized := c.Rng.Intn(2) == 0
	source := func(s *sectorRS) io.ReadSeeker {
		if sized {
			return sizedSectorRS{s}
		}
		return s
	}
	probe := &sectorRS{b: op.src, bounds: map[int64]bool{}}
	room := &fullW{bounds: map[int64]bool{}}
	if d, err := op.run(source(probe), room); err != nil || !bytes.Equal(d, digest) || !bytes.Equal(room.b, out) {
		c.Failf("reference", "%s differs over another kind of stream: %v", op.name, err)
	}
	places := func(bounds map[int64]bool, size int) []int64 {
		m := map[int64]bool{}
		for b := range bounds {
			for d := int64(-2); d <= 1; d++ {
				if b+d >= 0 && b+d < int64(size) {
					m[b+d] = true
				}
			}
		}
		var l []int64
		for p := range m {
			l = append(l, p)
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		if len(l) > 300 {
			c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			l = l[:300]
		}
		for i := 0; i < 40 && size > 0; i++ {
			l = append(l, int64(c.Rng.Intn(size)))
		}
		return l
	}
	judge := func(what string, d, b []byte, err error, fired int) {
		c.Event("failing runs", 1)
		switch {
		case err != nil:
			c.Event("errors reported", 1)
			return
		case fired > 0:
			c.Event("successes in spite of a failure", 1)
		default:
			c.Event("runs that met no failure", 1)
		}
		if !bytes.Equal(d, digest) {
			c.Failf("silent-read", "%s, %s: success, but what was read differs (%d bytes, want %d)", op.name, what, len(d), len(digest))
		}
		if !bytes.Equal(b, out) {
			c.Attach("out", b)
			c.Attach("want", out)
			c.Failf("silent-write", "%s, %s: success, but %d bytes were written, want %d, first difference at %d", op.name, what, len(b), len(out), firstDiff(b, out))
		}
	}
	for i, p := range places(probe.bounds, len(op.src)) {
		s := &sectorRS{b: op.src, from: p, to: p + []int64{1, 2, 512, 1 << 40}[c.Rng.Intn(4)], whole: c.Rng.Intn(4) == 0}
		s.err = []error{errInjected, io.ErrUnexpectedEOF, syscall.EIO}[c.Rng.Intn(3)]
		if s.to-s.from > 512 && i%2 == 0 {
			s.err = io.EOF
			s.whole = false
		}
		var b bytes.Buffer
		d, err := op.run(source(s), &b)
		judge(fmt.Sprintf("bytes %d to %d of the source of %d cannot be read (%v, whole %v)", s.from, s.to, len(s.b), s.err, s.whole), d, b.Bytes(), err, s.fired)
		c.Event("unreadable places", 1)
	}
	for _, p := range places(room.bounds, len(out)) {
		w := &fullW{room: int(p), limit: true, nice: c.Rng.Intn(2) == 0, err: []error{errInjected, syscall.ENOSPC, io.ErrShortWrite}[c.Rng.Intn(3)]}
		d, err := op.run(source(&sectorRS{b: op.src}), w)
		judge(fmt.Sprintf("the destination has room for %d of %d bytes", p, len(out)), d, w.b, err, w.fired)
		c.Event("destinations full", 1)
	}
	c.Nontrivial(op.name, c.Index)
	c.Event(op.name, 1)
}

// truncatedCase: a source that is shorter than it should be, at every length or a sample of them.
func truncatedCase(c *Ctx) {
	op := genOp(c, c.Index)
	if op.src == nil {
		op = genOp(c, 7+c.Index%2)
	}
	digest, out := op.reference(c)
	c.Attach("src", op.src)
	for i := 0; i < 150; i++ {
		n := c.Rng.Intn(len(op.src))
		// its announced size is the original one, its content is cut
		r := &sizedFaultRS{faultRS{r: bytes.NewReader(op.src[:n]), f: &faults{at: -1, prob: 0}}, int64(len(op.src))}
		var b bytes.Buffer
		d, err := op.run(r, &b)
		if err == nil && (!bytes.Equal(d, digest) || !bytes.Equal(b.Bytes(), out)) {
			c.Failf("truncated", "%s: the source ends at %d instead of %d, and that goes unnoticed", op.name, n, len(op.src))
		}
		if err != nil {
			c.Event("truncations reported", 1)
		} else {
			c.Event("truncations without effect", 1)
		}
	}
	c.Nontrivial(op.name, c.Index)
}

// ---------------------------------------------------------------- kinds

var moreDstKinds = append(append([]dstKind{}, dstKinds...),
	dstKind{"seekable, in the middle of older data", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		at := int64(1 + rng.Intn(100000))
		b := &memFile{b: bytes.Repeat([]byte{0xC3}, 300000), pos: at}
		return b, func() []byte { return b.b[at:b.pos] }
	}},
	dstKind{"seekable, beyond the end", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		at := int64(1 + rng.Intn(1000))
		b := &memFile{pos: at}
		return b, func() []byte { return b.b[at:] }
	}},
	dstKind{"file, in the middle of older data", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		f, err := os.CreateTemp(dir, "dst")
		if err != nil {
			panic(err)
		}
		f.Write(bytes.Repeat([]byte{0x5A}, 400000))
		at := int64(1 + rng.Intn(1000))
		f.Seek(at, io.SeekStart)
		g := fileBytes(f)
		return f, func() []byte {
			pos, _ := f.Seek(0, io.SeekCurrent)
			return g()[at:pos]
		}
	}},
	dstKind{"write-only file", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		t, err := os.CreateTemp(dir, "dst")
		if err != nil {
			panic(err)
		}
		t.Close()
		f, err := os.OpenFile(t.Name(), os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		return f, fileBytes(f)
	}},
)

func kindsCase(c *Ctx) {
	op := genOp(c, c.Index)
	digest, out := op.reference(c)
	dir, clean := scratchDir()
	defer clean()
	c.Attach("src", op.src)
	srcs, dsts := srcKinds, moreDstKinds
	if op.src == nil {
		srcs = srcs[:1]
	}
	if !op.dst {
		dsts = dsts[:1]
	}
	for _, sk := range srcs {
		for _, dk := range dsts {
			r, closeSrc := sk.open(op.src, c.Rng, dir)
			var pos int64
			if op.pos {
				switch c.Rng.Intn(4) {
				case 0:
					pos = int64(c.Rng.Intn(len(op.src) + 1))
				case 1:
					pos = int64(len(op.src))
				case 2:
					pos = int64(len(op.src) + c.Rng.Intn(1000))
				}
				if _, err := r.Seek(pos, io.SeekStart); err != nil {
					panic(err)
				}
			}
			w, got := dk.open(c.Rng, dir)
			d, err := op.run(r, w)
			b := got()
			closeSrc()
			what := fmt.Sprintf("%s from %q left at %d to %q", op.name, sk.name, pos, dk.name)
			if err != nil {
				c.Failf("error:"+op.name, "%s: %v", what, err)
			}
			if !bytes.Equal(d, digest) {
				c.Failf("read:"+op.name, "%s: what is read differs: %d bytes, want %d", what, len(d), len(digest))
			}
			if !bytes.Equal(b, out) {
				c.Attach("out", b)
				c.Attach("want", out)
				c.Failf("write:"+op.name, "%s: what is written differs: %d bytes, want %d, first difference at %d", what, len(b), len(out), firstDiff(b, out))
			}
			c.Event("combinations of streams", 1)
			if op.src != nil {
				c.Event("sources of kind "+sk.name, 1)
			}
			if op.dst {
				c.Event("destinations of kind "+dk.name, 1)
			}
		}
	}
	c.Event(op.name, 1)
	c.Nontrivial(op.name, op.src, out)
	c.Sample("%s: %d bytes read, %d written, %d kinds x %d", op.name, len(op.src), len(out), len(srcs), len(dsts))
}

// refusedKinds: what cannot be done fails whatever the kind of stream.
func refusedKinds(c *Ctx) {
	rng := c.Rng
	var b []byte
	switch c.Index % 4 {
	case 0: // signed
		for {
			spec := genPE(rng, peProfile{keepSmall: true, tiny: true, signed: 2})
			if b = spec.build(); mustParse(b).signed() {
				break
			}
		}
	case 1: // not an image
		b = randBytes(rng, rng.Intn(2000))
		if len(b) > 2 {
			b[0] = 'N'
		}
	case 2: // cut
		b = genPE(rng, peProfile{keepSmall: true, tiny: true}).build()
		b = b[:rng.Intn(mustParse(b).hdrEnd)]
	case 3: // no room
		b = genPE(rng, peProfile{noRoom: true}).build()
	}
	rs := genModel(rng).build(c, rng)
	dir, clean := scratchDir()
	defer clean()
	type answer struct {
		err1, err2, err3, signed bool
		out, set                 string
	}
	ask := func(sk srcKind, dk dstKind) (a answer) {
		r, cl := sk.open(b, rng, dir)
		defer cl()
		r.Seek(int64(rng.Intn(3000)), io.SeekStart)
		w, got := dk.open(rng, dir)
		err := rs.WriteToEXE(w, r)
		a.err1 = err != nil
		a.out = string(got())
		set, err := winres.LoadFromEXE(r)
		a.err2 = err != nil
		a.set = string(digestSet(set))
		y, err := winres.IsSignedEXE(r)
		a.err3, a.signed = err != nil, y
		return
	}
	want := ask(srcKinds[0], dstKinds[0])
	for _, sk := range srcKinds {
		for i := 0; i < 3; i++ {
			dk := dstKinds[rng.Intn(len(dstKinds))]
			if a := ask(sk, dk); a != want {
				c.Attach("src", b)
				c.Failf("refusal", "from %q to %q: errors %v %v %v, %d bytes written; with buffers: errors %v %v %v, %d bytes", sk.name, dk.name, a.err1, a.err2, a.err3, len(a.out), want.err1, want.err2, want.err3, len(want.out))
			}
			c.Event("refusals compared", 1)
		}
	}
	c.Nontrivial(b)
}

func init() {
	n := len(opNames)
	register(&Prop{
		ID:   "C15",
		Rule: "every streaming operation, run over streams whose n-th read, seek or write fails (for every n, or a sample of 60), in 19 ways, once or for good, or at random, over sources of which some bytes cannot be read and destinations that get full (at the ends of every read and write, one or two bytes around, and at random), and over truncated sources; success is only accepted along with the result of a run without failure; non-trivial: distinct operation and point of failure",
		Min:  map[string]int64{"points of failure": 10000, "failing runs": 100000, "errors reported": 80000, "truncations reported": 10000, "unreadable places": 5000, "destinations full": 5000, "WriteToEXE": 100, "WriteObject": 40},
		Families: []Family{
			{"faults", 80 * n, 1500 * n, faultsCase},
			{"sectors", 40 * n, 1500 * n, sectorsCase},
			{"truncated", 30 * n, 600 * n, truncatedCase},
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "every streaming operation, over all combinations of 10 kinds of sources left at any position and 14 kinds of destinations, results compared with those obtained from and into memory; images that are refused must be with all kinds; non-trivial: distinct operation, input and output",
		Min:  map[string]int64{"combinations of streams": 30000, "refusals compared": 5000, "WriteToEXE": 100, "WriteObject": 50, "LoadFromEXE": 50},
		Families: []Family{
			{"kinds", 100 * n, 2000 * n, kindsCase},
			{"refused", 400, 10000, refusedKinds},
		},
	})
}
