package main

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"os"
)

// Source streams of different kinds, all holding the same bytes.

// plainRS hides everything but Read and Seek.
type plainRS struct{ r *bytes.Reader }

func (p plainRS) Read(b []byte) (int, error)         { return p.r.Read(b) }
func (p plainRS) Seek(o int64, w int) (int64, error) { return p.r.Seek(o, w) }

// pieceRS reads in small pieces, and may give EOF along with the last bytes.
type pieceRS struct {
	r        *bytes.Reader
	rng      *rand.Rand
	max      int
	finalEOF bool
	zeros    bool
}

func (p *pieceRS) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.zeros && p.rng.Intn(4) == 0 {
		return 0, nil
	}
	n := 1
	if p.max > 1 {
		n += p.rng.Intn(p.max)
	}
	if n > len(b) {
		n = len(b)
	}
	n, err := p.r.Read(b[:n])
	if err == nil && p.finalEOF && p.r.Len() == 0 {
		err = io.EOF
	}
	return n, err
}
func (p *pieceRS) Seek(o int64, w int) (int64, error) { return p.r.Seek(o, w) }

// sizedRS also reports its size.
type sizedRS struct {
	pieceRS
	n int64
}

func (s *sizedRS) Size() int64 { return s.n }

// seekerTo also offers WriteTo, as buffers and files do.
type writerToRS struct{ plainRS }

func (w writerToRS) WriteTo(dst io.Writer) (int64, error) { return w.r.WriteTo(dst) }

type srcKind struct {
	name string
	open func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func())
}

func nop() {}

var srcKinds = []srcKind{
	{"bytes.Reader", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) { return bytes.NewReader(b), nop }},
	{"plain", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return plainRS{bytes.NewReader(b)}, nop
	}},
	{"one byte", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return &pieceRS{r: bytes.NewReader(b), rng: rng, max: 1}, nop
	}},
	{"pieces", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return &pieceRS{r: bytes.NewReader(b), rng: rng, max: 1 + rng.Intn(700)}, nop
	}},
	{"pieces, final EOF", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return &pieceRS{r: bytes.NewReader(b), rng: rng, max: 4096, finalEOF: true}, nop
	}},
	{"empty reads", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return &pieceRS{r: bytes.NewReader(b), rng: rng, max: 1000, zeros: true}, nop
	}},
	{"sized pieces", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return &sizedRS{pieceRS{r: bytes.NewReader(b), rng: rng, max: 300, finalEOF: true}, int64(len(b))}, nop
	}},
	{"section", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		pre := rng.Intn(100)
		x := append(append(make([]byte, pre), b...), 1, 2, 3)
		return io.NewSectionReader(bytes.NewReader(x), int64(pre), int64(len(b))), nop
	}},
	{"writerTo", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		return writerToRS{plainRS{bytes.NewReader(b)}}, nop
	}},
	{"file", func(b []byte, rng *rand.Rand, dir string) (io.ReadSeeker, func()) {
		f, err := os.CreateTemp(dir, "src")
		if err != nil {
			panic(err)
		}
		f.Write(b)
		f.Seek(0, io.SeekStart)
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}},
}

// Destinations.

type dstKind struct {
	name string
	open func(rng *rand.Rand, dir string) (io.Writer, func() []byte)
}

type onlyWriter struct{ b bytes.Buffer }

func (o *onlyWriter) Write(p []byte) (int, error) { return o.b.Write(p) }

// memFile is a seekable destination which may hold older data.
type memFile struct {
	b   []byte
	pos int64
}

func (m *memFile) Write(p []byte) (int, error) {
	for int64(len(m.b)) < m.pos {
		m.b = append(m.b, 0xEE)
	}
	n := copy(m.b[m.pos:], p)
	m.b = append(m.b, p[n:]...)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) Seek(o int64, w int) (int64, error) {
	switch w {
	case io.SeekCurrent:
		o += m.pos
	case io.SeekEnd:
		o += int64(len(m.b))
	}
	if o < 0 {
		return 0, errors.New("negative")
	}
	m.pos = o
	return o, nil
}

// badSeekDst has a Seek method that always fails, as pipes and terminals do.
type badSeekDst struct{ b bytes.Buffer }

func (m *badSeekDst) Write(p []byte) (int, error)        { return m.b.Write(p) }
func (m *badSeekDst) Seek(o int64, w int) (int64, error) { return 0, errors.New("illegal seek") }

// readFromDst offers ReadFrom.
type readFromDst struct{ b bytes.Buffer }

func (m *readFromDst) Write(p []byte) (int, error)         { return m.b.Write(p) }
func (m *readFromDst) ReadFrom(r io.Reader) (int64, error) { return m.b.ReadFrom(r) }

var dstKinds = []dstKind{
	{"buffer", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &bytes.Buffer{}
		return b, b.Bytes
	}},
	{"writer", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &onlyWriter{}
		return b, b.b.Bytes
	}},
	{"seekable", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &memFile{}
		return b, func() []byte { return b.b }
	}},
	{"seekable, older data", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &memFile{b: bytes.Repeat([]byte{0xA5}, 300000)}
		return b, func() []byte { return b.b[:b.pos] }
	}},
	{"seek fails", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &badSeekDst{}
		return b, b.b.Bytes
	}},
	{"readerFrom", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		b := &readFromDst{}
		return b, b.b.Bytes
	}},
	{"file", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		f, err := os.CreateTemp(dir, "dst")
		if err != nil {
			panic(err)
		}
		return f, fileBytes(f)
	}},
	{"file, older data", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		f, err := os.CreateTemp(dir, "dst")
		if err != nil {
			panic(err)
		}
		f.Write(bytes.Repeat([]byte{0x5A}, 400000))
		f.Seek(0, io.SeekStart)
		g := fileBytes(f)
		return f, func() []byte {
			pos, _ := f.Seek(0, io.SeekCurrent)
			return g()[:pos]
		}
	}},
	{"append file", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		t, err := os.CreateTemp(dir, "dst")
		if err != nil {
			panic(err)
		}
		t.Close()
		f, err := os.OpenFile(t.Name(), os.O_APPEND|os.O_RDWR, 0o600)
		if err != nil {
			panic(err)
		}
		return f, fileBytes(f)
	}},
	{"pipe", func(rng *rand.Rand, dir string) (io.Writer, func() []byte) {
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		ch := make(chan []byte)
		go func() {
			b, _ := io.ReadAll(r)
			r.Close()
			ch <- b
		}()
		return w, func() []byte { w.Close(); return <-ch }
	}},
}

func fileBytes(f *os.File) func() []byte {
	return func() []byte {
		b, err := os.ReadFile(f.Name())
		if err != nil {
			panic(err)
		}
		f.Close()
		os.Remove(f.Name())
		return b
	}
}

func scratchDir() (string, func()) {
	d, err := os.MkdirTemp("", "vrun")
	if err != nil {
		panic(err)
	}
	return d, func() { os.RemoveAll(d) }
}
