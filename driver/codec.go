package main

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"net/url"
	"reflect"
	"strconv"
	"strings"

	"github.com/freerware/negotiator/representation"
	"gopkg.in/yaml.v2"
)

// CodecCase serializes a document, looks at its bytes and restores it, intact
// as well as damaged.
type CodecCase struct {
	Id          int       `json:"id"`
	Kind        string    `json:"kind"`
	Fam         string    `json:"fam"`
	What        string    `json:"what"` // thing or list
	Ct          string    `json:"ct"`
	Enc         []string  `json:"enc"`
	Reps        []RepSpec `json:"reps"`
	Name        string    `json:"name"`
	Items       []string  `json:"items"`
	Num         int       `json:"num"`
	Coders      []string  `json:"coders"`      // custom codings, none for the built-in ones
	Marshallers []string  `json:"marshallers"` // custom media types, none for the built-in ones
	Damage      string    `json:"damage"`      // none, cut or flip
	Fault       string    `json:"fault"`       // what fails, if anything: marshal, wopen, write, wclose, ropen, read, rclose, unmarshal
	Faulty      string    `json:"faulty"`      // the custom coding or media type it happens to
	CObs        CodecObs  `json:"cobs"`
}

type CodecObs struct {
	Ser       string     `json:"ser"` // ok, err, panic
	SerErr    string     `json:"sererr"`
	Layers    [][]string `json:"layers"`
	Fmts      []string   `json:"fmts"`
	Items     []Item     `json:"items"`
	Back      string     `json:"back"` // same, differs, err, panic
	BackErr   string     `json:"backerr"`
	BackItems []Item     `json:"backitems"`
	Size      int        `json:"size"`
	Tried     int        `json:"tried"`
	AccSame   int        `json:"accsame"`
	AccDiff   int        `json:"accdiff"`
	Refused   int        `json:"refused"`
	Panics    int        `json:"panics"`
	TailAcc   int        `json:"tailacc"` // accepted in spite of a damaged trailer
	Where     []int      `json:"where"`
}

type thing struct {
	representation.Base
	Name  string
	Items []string
	Num   int
}

func (t thing) Bytes() ([]byte, error)    { return t.Base.Bytes(&t) }
func (t *thing) FromBytes(b []byte) error { return t.Base.FromBytes(b, t) }

type plain struct {
	XMLName xml.Name `json:"-" yaml:"-"`
	Name    string
	Items   []string
	Num     int
}

// tagging coder: data -> <name:length:data>
type tagWriter struct {
	name  string
	fault string
	to    io.WriteCloser
	buf   bytes.Buffer
}

func (w *tagWriter) Write(b []byte) (int, error) {
	if w.fault == "write" {
		n, _ := w.buf.Write(b[:len(b)/2])
		return n, errFault
	}
	return w.buf.Write(b)
}
func (w *tagWriter) Close() error {
	_, err := fmt.Fprintf(w.to, "<%s:%d:%s>", w.name, w.buf.Len(), w.buf.Bytes())
	if w.fault == "wclose" {
		return errFault
	}
	return err
}

func untag(b []byte) (string, []byte, bool) {
	if len(b) < 4 || b[0] != '<' || b[len(b)-1] != '>' {
		return "", nil, false
	}
	parts := bytes.SplitN(b[1:len(b)-1], []byte(":"), 3)
	if len(parts) != 3 {
		return "", nil, false
	}
	if n, err := strconv.Atoi(string(parts[1])); err != nil || n != len(parts[2]) {
		return "", nil, false
	}
	return string(parts[0]), parts[2], true
}

var (
	errTag   = errors.New("driver: damaged")
	errFault = errors.New("driver: does not work")
)

type tagReader struct {
	*bytes.Reader
	fault string
}

func (r tagReader) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	if err == io.EOF && r.fault == "read" {
		err = errFault
	}
	return n, err
}
func (r tagReader) Close() error {
	if r.fault == "rclose" {
		return errFault
	}
	return nil
}

// faultOf is what fails of the coding or media type, if anything.
func (c *CodecCase) faultOf(n string) string {
	if c.Faulty == n {
		return c.Fault
	}
	return ""
}

func (c *CodecCase) tagReaders() map[string]representation.EncodingReaderConstructor {
	m := map[string]representation.EncodingReaderConstructor{}
	for _, n := range c.Coders {
		n := n
		m[n] = func(r io.Reader) (io.ReadCloser, error) {
			if c.faultOf(n) == "ropen" {
				return nil, errFault
			}
			b, err := io.ReadAll(r)
			if err != nil {
				return nil, err
			}
			name, data, ok := untag(b)
			if !ok || name != n {
				return nil, errTag
			}
			return tagReader{bytes.NewReader(data), c.faultOf(n)}, nil
		}
	}
	return m
}

func (c *CodecCase) tagWriters() map[string]representation.EncodingWriterConstructor {
	m := map[string]representation.EncodingWriterConstructor{}
	for _, n := range c.Coders {
		n := n
		m[n] = func(w io.WriteCloser) (io.WriteCloser, error) {
			if c.faultOf(n) == "wopen" {
				return nil, errFault
			}
			return &tagWriter{name: n, fault: c.faultOf(n), to: w}, nil
		}
	}
	return m
}

func (c *CodecCase) tagMarshallers() (map[string]representation.Marshaller, map[string]representation.Unmarshaller) {
	m, u := map[string]representation.Marshaller{}, map[string]representation.Unmarshaller{}
	for _, t := range c.Marshallers {
		t := t
		prefix := []byte("M(" + t + ")")
		m[t] = func(v interface{}) ([]byte, error) {
			b, err := json.Marshal(v)
			if c.faultOf(t) == "marshal" {
				err = errFault
			}
			return append(append([]byte{}, prefix...), b...), err
		}
		u[t] = func(b []byte, v interface{}) error {
			if !bytes.HasPrefix(b, prefix) {
				return errTag
			}
			err := json.Unmarshal(b[len(prefix):], v)
			if c.faultOf(t) == "unmarshal" {
				err = errFault
			}
			return err
		}
	}
	return m, u
}

func (c *CodecCase) configure(b *representation.Base) {
	b.SetContentType(c.Ct)
	b.SetContentEncoding(c.Enc)
	if len(c.Marshallers) > 0 {
		m, u := c.tagMarshallers()
		b.SetMarshallers(m)
		b.SetUnmarshallers(u)
	}
	if len(c.Coders) > 0 {
		b.SetEncodingReaders(c.tagReaders())
		b.SetEncodingWriters(c.tagWriters())
	}
}

func (c *CodecCase) source() wired {
	if c.What == "list" {
		var reps []representation.Representation
		x := &xrun{r: &run{gates: newScheduler(0, nil, 0)}}
		for i, s := range c.Reps {
			loc, err := url.Parse(s.Loc)
			if err != nil {
				panic(err)
			}
			if s.Same > 0 && s.Same <= len(reps) {
				reps = append(reps, reps[s.Same-1])
				c.Reps[i] = reps[i].(*rep).s
				c.Reps[i].Same = s.Same
				continue
			}
			reps = append(reps, &rep{x: x, idx: i, s: s, loc: *loc})
		}
		l := &representation.List{}
		c.configure(&l.Base)
		l.SetRepresentations(reps...)
		return l
	}
	t := &thing{Name: c.Name, Items: c.Items, Num: c.Num}
	c.configure(&t.Base)
	return t
}

type wired interface {
	Bytes() ([]byte, error)
	FromBytes([]byte) error
}

func (c *CodecCase) target() wired {
	if c.What == "list" {
		l := &representation.List{}
		c.configure(&l.Base)
		return l
	}
	t := &thing{}
	c.configure(&t.Base)
	return t
}

func guard(f func() error) (state string, err error) {
	defer func() {
		if p := recover(); p != nil {
			state, err = "panic", fmt.Errorf("%v", p)
		}
	}()
	if err = f(); err != nil {
		return "err", err
	}
	return "ok", nil
}

func errName(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, representation.ErrUnsupportedContentType):
		return "type"
	case errors.Is(err, representation.ErrUnsupportedContentEncoding):
		return "coding"
	}
	return "other"
}

func norm(s []string) []string { return append([]string{}, s...) }

// content of a restored document
func (c *CodecCase) restored(w wired) ([]Item, bool) {
	switch t := w.(type) {
	case *thing:
		return nil, t.Name == c.Name && t.Num == c.Num && reflect.DeepEqual(norm(t.Items), norm(c.Items))
	case *representation.List:
		out := []Item{}
		for _, m := range t.Representations {
			out = append(out, Item{Ct: m.ContentType, Lang: m.ContentLanguage, Cs: m.ContentCharset,
				Enc: norm(m.ContentEncoding), Feat: norm(m.ContentFeatures), Loc: m.ContentLocation,
				Qs: thousandths(float64(m.SourceQuality))})
		}
		return out, reflect.DeepEqual(out, c.wanted())
	}
	return nil, false
}

func (c *CodecCase) wanted() []Item {
	out := []Item{}
	for _, r := range c.Reps {
		out = append(out, Item{Ct: r.Ct, Lang: r.Lang, Cs: r.Cs, Enc: norm(r.Enc), Feat: norm(r.Feat), Loc: r.Loc, Qs: r.Qs})
	}
	return out
}

// formats tells in which formats the bytes are the document.
func (c *CodecCase) formats(b []byte) ([]string, []Item) {
	fmts, its := []string{}, []Item{}
	if c.What == "list" {
		if bytes.HasPrefix(b, []byte("M(")) {
			if i := bytes.IndexByte(b, ')'); i > 0 {
				if _, got, ok := decodeList(b[i+1:]); ok {
					return []string{"custom:" + string(b[2:i])}, got
				}
			}
		}
		if f, got, ok := decodeList(b); ok {
			return []string{f}, got
		}
		return fmts, its
	}
	same := func(p plain) bool {
		return p.Name == c.Name && p.Num == c.Num && reflect.DeepEqual(norm(p.Items), norm(c.Items))
	}
	if bytes.HasPrefix(b, []byte("M(")) {
		if i := bytes.IndexByte(b, ')'); i > 0 {
			var p plain
			if json.Unmarshal(b[i+1:], &p) == nil && same(p) {
				fmts = append(fmts, "custom:"+string(b[2:i]))
			}
		}
		return fmts, its
	}
	var p plain
	if json.Unmarshal(b, &p) == nil {
		if same(p) {
			fmts = append(fmts, "json")
		}
		return fmts, its
	}
	p = plain{}
	if xml.Unmarshal(b, &p) == nil && same(p) {
		return append(fmts, "xml"), its
	}
	p = plain{}
	if yaml.Unmarshal(b, &p) == nil && same(p) {
		fmts = append(fmts, "yaml")
	}
	return fmts, its
}

func inflate(name string, b []byte) ([]byte, bool) {
	br := bytes.NewReader(b)
	var r io.ReadCloser
	var err error
	switch name {
	case "gzip":
		var z *gzip.Reader
		if z, err = gzip.NewReader(br); err == nil {
			z.Multistream(false)
			r = z
		}
	case "zlib":
		r, err = zlib.NewReader(br)
	case "flate":
		r = flate.NewReader(br)
	}
	if err != nil {
		return nil, false
	}
	out, err := io.ReadAll(r)
	return out, err == nil && br.Len() == 0
}

// peel finds the sequences of formats that were applied to the document.
func (c *CodecCase) peel(b []byte, applied []string, depth int) {
	if fmts, its := c.formats(b); len(fmts) > 0 {
		c.CObs.Layers = append(c.CObs.Layers, append([]string{}, applied...))
		c.CObs.Fmts = append(c.CObs.Fmts, fmts...)
		c.CObs.Items = its
	}
	if depth == 0 {
		return
	}
	if name, data, ok := untag(b); ok {
		c.peel(data, append([]string{"custom:" + name}, applied...), depth-1)
	}
	for _, f := range []string{"gzip", "zlib", "flate"} {
		if data, ok := inflate(f, b); ok {
			c.peel(data, append([]string{f}, applied...), depth-1)
		}
	}
}

func (c *CodecCase) execute() {
	o := &c.CObs
	*o = CodecObs{Layers: [][]string{}, Fmts: []string{}, Items: []Item{}, BackItems: []Item{}, Where: []int{}}
	var b []byte
	var err error
	o.Ser, err = guard(func() (e error) { b, e = c.source().Bytes(); return e })
	o.SerErr = errName(err)
	if o.Ser != "ok" {
		// what does reading something of that kind say?
		o.Back, err = guard(func() error { return c.target().FromBytes([]byte("{}")) })
		o.BackErr = errName(err)
		return
	}
	o.Size = len(b)
	c.peel(b, nil, len(c.Enc)+1)
	read := func(b []byte) (string, []Item) {
		w := c.target()
		state, err := guard(func() error { return w.FromBytes(b) })
		if state != "ok" {
			o.BackErr = errName(err)
			return state, []Item{}
		}
		its, same := c.restored(w)
		if its == nil {
			its = []Item{}
		}
		if same {
			return "same", its
		}
		return "differs", its
	}
	o.Back, o.BackItems = read(append([]byte(nil), b...))
	note := func(state string, at int, tail bool) {
		o.Tried++
		switch state {
		case "same":
			o.AccSame++
			if tail {
				o.TailAcc++
				o.Where = append(o.Where, at)
			}
		case "differs":
			o.AccDiff++
			o.Where = append(o.Where, at)
		case "err":
			o.Refused++
		case "panic":
			o.Panics++
			o.Where = append(o.Where, at)
		}
	}
	back, backErr := o.Back, o.BackErr
	switch c.Damage {
	case "cut":
		for n := 0; n < len(b); n++ {
			s, _ := read(append([]byte(nil), b[:n]...))
			note(s, n, true)
		}
	case "flip":
		for i := range b {
			for _, bit := range []byte{1, 0x80, 0x10} {
				d := append([]byte(nil), b...)
				d[i] ^= bit
				s, _ := read(d)
				note(s, i, i >= len(b)-c.trailer())
			}
		}
	}
	o.Back, o.BackErr = back, backErr
}

// trailer is the size of the checksum that ends the outermost coding.
func (c *CodecCase) trailer() int {
	if len(c.Coders) > 0 {
		return 0
	}
	for i := len(c.Enc) - 1; i >= 0; i-- {
		switch strings.ToLower(c.Enc[i]) {
		case "identity":
		case "gzip", "x-gzip":
			return 8
		case "compress", "x-compress":
			return 4
		default:
			return 0
		}
	}
	return 0
}
