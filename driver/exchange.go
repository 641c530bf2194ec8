package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/freerware/negotiator"
	"github.com/freerware/negotiator/proactive"
	"github.com/freerware/negotiator/reactive"
	"github.com/freerware/negotiator/representation"
	"github.com/freerware/negotiator/transparent"
)

var (
	errBytes  = errors.New("driver: representation cannot be serialized")
	errChoose = errors.New("driver: algorithm failed")
	errWrite  = errors.New("driver: connection lost")
)

// run is a case while it is being executed.
type run struct {
	c     *Case
	xs    []*xrun
	gates *scheduler
}

// xrun is one exchange of it.
type xrun struct {
	r    *run
	idx  int
	x    *Exch
	reps []representation.Representation
	mu   sync.Mutex
	obs  *Obs
}

func (x *xrun) gate() { x.r.gates.pass(x.idx) }

// rep is a candidate supplied by user code.
type rep struct {
	x   *xrun
	idx int
	s   RepSpec
	loc url.URL
	b   []byte
}

func (r *rep) ContentLocation() url.URL  { return r.loc }
func (r *rep) ContentType() string       { r.x.gate(); return r.s.Ct }
func (r *rep) ContentEncoding() []string { return r.s.Enc }
func (r *rep) ContentCharset() string    { return r.s.Cs }
func (r *rep) ContentLanguage() string   { return r.s.Lang }
func (r *rep) ContentFeatures() []string { return r.s.Feat }
func (r *rep) SourceQuality() float32    { return float32(r.s.Qs) / 1000 }
func (r *rep) Bytes() ([]byte, error) {
	r.x.gate()
	if r.s.Err {
		return nil, errBytes
	}
	return append([]byte(nil), r.b...), nil
}
func (r *rep) FromBytes([]byte) error { return nil }

// content gives each candidate a body of its own.
func content(x, i, n int) []byte {
	mark := "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[(x*13+i)%52]
	b := bytes.Repeat([]byte{mark}, n)
	// text beyond ASCII, white space, and bytes that are no text at all
	fill := []string{"", "\u00e9\u4e2d\U0001f600", "\x00\xff\xfe\r\n%s<&>\"", "\r\n \t"}[(x+i)%4]
	for k := 1; k < n && fill != ""; k++ {
		b[k] = fill[k%len(fill)]
	}
	return b
}

// doc is a list document supplied by user code.
type doc struct {
	representation.List
	x     *xrun
	name  string
	fails bool
}

func (d *doc) Bytes() ([]byte, error) {
	if d.x != nil {
		d.x.gate()
	}
	if d.fails {
		return nil, errBytes
	}
	return d.List.Bytes()
}

func fillList(l *representation.List, d DocSpec, reps []representation.Representation) {
	l.SetContentType(d.Ct)
	l.SetContentLanguage(d.Lang)
	l.SetContentCharset(d.Cs)
	l.SetContentEncoding(d.Enc)
	l.SetSourceQuality(float32(d.Qs) / 1000)
	l.SetRepresentations(reps...)
}

func (r *run) constructor(name string) representation.ListConstructor {
	for _, d := range r.c.Docs {
		if d.Name != name {
			continue
		}
		d := d
		return func(reps ...representation.Representation) representation.Representation {
			x := ownerOf(reps)
			if x != nil {
				x.gate()
				x.mu.Lock()
				x.obs.Built = append(x.obs.Built, Built{Name: name, Complete: sameReps(reps, x.reps)})
				x.mu.Unlock()
			}
			out := &doc{x: x, name: name, fails: d.Fails}
			fillList(&out.List, d, reps)
			return out
		}
	}
	panic("driver: no list document " + name)
}

func ownerOf(reps []representation.Representation) *xrun {
	for _, r := range reps {
		switch t := r.(type) {
		case *rep:
			return t.x
		case *doc:
			return t.x
		}
	}
	return nil
}

func sameReps(a, b []representation.Representation) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type ctxKey struct{}

// scripted is an algorithm supplied by user code.
type scripted struct{ r *run }

func field(h http.Header, name string) Field {
	v, ok := h[name]
	return Field{P: ok, L: append([]string{}, v...)}
}

func (s *scripted) Choose(
	req *http.Request, reps ...representation.Representation,
) (representation.Representation, error) {
	x := ownerOf(reps)
	if x == nil {
		x, _ = req.Context().Value(ctxKey{}).(*xrun)
	}
	if x == nil {
		return nil, errors.New("driver: request of nobody")
	}
	x.gate()
	call := Call{Of: "other", A: field(req.Header, "Accept"), L: field(req.Header, "Accept-Language"),
		C: field(req.Header, "Accept-Charset"), E: field(req.Header, "Accept-Encoding"),
		F: field(req.Header, "Accept-Features"), N: field(req.Header, "Negotiate")}
	if sameReps(reps, x.reps) {
		call.Of = "reps"
	} else if s.r.areLists(x, reps) {
		call.Of = "lists"
	}
	x.mu.Lock()
	x.obs.Calls = append(x.obs.Calls, call)
	x.mu.Unlock()
	pick := x.x.Script.Lists
	if call.Of != "lists" {
		pick = x.x.Script.Reps
		for _, u := range x.x.Script.Unless {
			if (u == "a" && call.A.P) || (u == "l" && call.L.P) || (u == "c" && call.C.P) {
				if pick > 0 || pick == -1 {
					pick = 0
				}
			}
		}
	}
	switch {
	case pick == -1:
		return nil, errChoose
	case pick >= 1 && pick <= len(reps):
		return reps[pick-1], nil
	}
	return nil, nil
}

// areLists tells whether the candidates are the list documents configured.
func (r *run) areLists(x *xrun, reps []representation.Representation) bool {
	want := []string{"application/json", "application/xml", "application/yaml"}
	for _, o := range r.c.Negs[x.x.Neg-1].Opts {
		if o.O == "Representations" {
			want = nil
			for _, n := range o.Vs {
				for _, d := range r.c.Docs {
					if d.Name == n {
						want = append(want, d.Ct)
					}
				}
			}
		}
	}
	if len(want) != len(reps) {
		return false
	}
	for i, c := range reps {
		if _, ok := c.(*rep); ok || c.ContentType() != want[i] {
			return false
		}
	}
	return true
}

// writer is the response writer that records what is done to it.
type writer struct {
	x      *xrun
	under  http.ResponseWriter
	h      http.Header
	head   http.Header
	body   bytes.Buffer
	fail   bool
	heads  int
	status int
	writes int
	late   bool
}

func (w *writer) Header() http.Header {
	w.x.gate()
	if w.under != nil {
		return w.under.Header()
	}
	return w.h
}

func (w *writer) WriteHeader(status int) {
	w.x.gate()
	w.heads++
	if w.heads == 1 {
		w.status = status
		if w.under != nil {
			w.head = w.under.Header().Clone()
		} else {
			w.head = w.h.Clone()
		}
	}
	if w.writes > 0 {
		w.late = true
	}
	if w.under != nil {
		w.under.WriteHeader(status)
	}
}

func (w *writer) Write(b []byte) (int, error) {
	if w.heads == 0 {
		w.WriteHeader(http.StatusOK)
	}
	w.x.gate()
	w.writes++
	if w.fail {
		// the connection gets lost sooner or later.
		return len(b) * (len(b) % 4) / 3, errWrite
	}
	w.body.Write(b)
	if w.under != nil {
		return w.under.Write(b)
	}
	return len(b), nil
}

func (r *run) negotiator(n Neg, to sinks, alg representation.Chooser) negotiator.Negotiator {
	switch n.Kind {
	case "proactive":
		if n.Default {
			return proactive.Default
		}
		opts := []proactive.Option{proactive.Scope(to[0].scope), proactive.Logger(to[0].logger)}
		for _, o := range n.Opts {
			switch o.O {
			case "Scope":
				opts = append(opts, proactive.Scope(to[o.N-1].scope))
			case "Logger":
				opts = append(opts, proactive.Logger(to[o.N-1].logger))
			case "DisableStrictAccept":
				opts = append(opts, proactive.DisableStrictAccept())
			case "DisableStrictAcceptLanguage":
				opts = append(opts, proactive.DisableStrictAcceptLanguage())
			case "DisableStrictAcceptCharset":
				opts = append(opts, proactive.DisableStrictAcceptCharset())
			case "DisableStrictMode":
				opts = append(opts, proactive.DisableStrictMode())
			case "Algorithm":
				if o.V == "builtin" {
					opts = append(opts, proactive.Algorithm(proactive.ApacheHTTPD()))
				} else {
					opts = append(opts, proactive.Algorithm(alg))
				}
			case "DisableNotAcceptableRepresentation":
				opts = append(opts, proactive.DisableNotAcceptableRepresentation())
			case "DefaultRepresentation":
				opts = append(opts, proactive.DefaultRepresentation(r.constructor(o.V)))
			case "Representations":
				var cs []representation.ListConstructor
				for _, v := range o.Vs {
					cs = append(cs, r.constructor(v))
				}
				opts = append(opts, proactive.Representations(cs...))
			default:
				panic("driver: option " + o.O)
			}
		}
		return proactive.New(opts...)
	case "transparent":
		if n.Default {
			return transparent.Default
		}
		opts := []transparent.Option{transparent.Scope(to[0].scope), transparent.Logger(to[0].logger)}
		for _, o := range n.Opts {
			switch o.O {
			case "Scope":
				opts = append(opts, transparent.Scope(to[o.N-1].scope))
			case "Logger":
				opts = append(opts, transparent.Logger(to[o.N-1].logger))
			case "MaximumVariantListSize":
				opts = append(opts, transparent.MaximumVariantListSize(o.N))
			case "GuessSmallThreshold":
				opts = append(opts, transparent.GuessSmallThreshold(o.N))
			case "ListRepresentation":
				opts = append(opts, transparent.ListRepresentation(r.constructor(o.V)))
			case "RVSA":
				if o.V == "builtin" {
					opts = append(opts, transparent.RVSA(transparent.RVSA1()))
				} else {
					opts = append(opts, transparent.RVSA(alg))
				}
			default:
				panic("driver: option " + o.O)
			}
		}
		return transparent.New(opts...)
	case "reactive":
		if n.Default {
			return reactive.Default
		}
		opts := []reactive.Option{reactive.Scope(to[0].scope), reactive.Logger(to[0].logger)}
		for _, o := range n.Opts {
			switch o.O {
			case "Scope":
				opts = append(opts, reactive.Scope(to[o.N-1].scope))
			case "Logger":
				opts = append(opts, reactive.Logger(to[o.N-1].logger))
			case "Representation":
				opts = append(opts, reactive.Representation(r.constructor(o.V)))
			default:
				panic("driver: option " + o.O)
			}
		}
		return reactive.New(opts...)
	}
	panic("driver: negotiator " + n.Kind)
}

var presetHeaders = []string{"Content-Type", "Content-Length", "Content-Encoding", "Content-Language",
	"Content-Charset", "Content-Location", "Alternates", "TCN"}

func presets(h http.Header) {
	for i, n := range presetHeaders {
		v := fmt.Sprintf("preset-%d", i)
		if n == "Content-Length" {
			v = "7"
		}
		h[http.CanonicalHeaderKey(n)] = []string{v, v}
	}
}

// parseURL keeps the scheme in the case it is written in, which url.Parse does
// not.
func parseURL(text string) *url.URL {
	u, err := url.Parse(text)
	if err != nil {
		panic(err)
	}
	if i := strings.IndexByte(text, ':'); u.Scheme != "" && i == len(u.Scheme) {
		u.Scheme = text[:i]
	}
	return u
}

func (x *xrun) request() *http.Request {
	u := parseURL(x.x.Url)
	req := (&http.Request{Method: http.MethodGet, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Host: u.Host, Header: http.Header{}}).WithContext(context.WithValue(context.Background(), ctxKey{}, x))
	set := func(name string, f Field) {
		if f.P {
			req.Header[name] = append([]string{}, f.L...)
		}
	}
	set("Accept", x.x.A)
	set("Accept-Language", x.x.L)
	set("Accept-Charset", x.x.C)
	set("Accept-Encoding", x.x.E)
	set("Accept-Features", x.x.F)
	set("Negotiate", x.x.N)
	x.surround(req)
	return req
}

// surround gives the request what user agents send besides what is negotiated
// by. None of it has a part in the specification.
func (x *xrun) surround(req *http.Request) {
	k := x.r.c.Id + x.idx
	methods := []string{http.MethodGet, http.MethodGet, http.MethodPost, http.MethodPut, http.MethodHead, http.MethodOptions, http.MethodGet}
	req.Method = methods[k%len(methods)]
	if x.x.Http && req.Method == http.MethodHead {
		// there would be no body to read.
		req.Method = http.MethodGet
	}
	others := [][2]string{
		{"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0; Windows NT 5.1)"},
		{"Range", "bytes=0-1"},
		{"If-None-Match", "*"},
		{"Cookie", "lang=fr; format=xml"},
		{"X-Forwarded-Proto", "https"},
		{"X-Requested-With", "XMLHttpRequest"},
		{"Accept-Datetime", "Thu, 31 May 2007 20:35:00 GMT"},
		{"Te", "trailers, deflate;q=0.5"},
		{"Content-Type", "application/xml"},
		{"Content-Language", "de"},
		{"Content-Location", "/elsewhere"},
	}
	for i, o := range others {
		if (k/3+i)%5 == 0 && (!x.x.Http || o[0] != "Te") {
			req.Header.Set(o[0], o[1])
		}
	}
	if k%6 == 0 && !x.x.Http {
		req.Proto, req.ProtoMinor = "HTTP/1.0", 0
	}
	if k%4 == 1 && !x.x.Http {
		req.RemoteAddr, req.RequestURI = "192.0.2.1:4711", x.x.Url
	}
}

// negotiate performs the negotiation and notes how it returned.
func (x *xrun) negotiate(n negotiator.Negotiator, w *writer, req *http.Request) {
	o := x.obs
	defer func() {
		if p := recover(); p != nil {
			o.Ret, o.Text = "panic", fmt.Sprint(p)
		}
	}()
	// candidates are passed in a slice that has room to spare, as they would
	// be by a caller who keeps more of them.
	spare := &rep{x: x, idx: -1}
	backing := make([]representation.Representation, len(x.reps)+2)
	copy(backing, x.reps)
	backing[len(x.reps)], backing[len(x.reps)+1] = spare, spare
	given := backing[:len(x.reps):len(backing)]
	before := snapshot(x.reps)
	headers, target := req.Header.Clone(), *req.URL
	defer func() {
		if !sameReps(given, x.reps) || backing[len(x.reps)] != spare || backing[len(x.reps)+1] != spare ||
			!reflect.DeepEqual(before, snapshot(x.reps)) || !reflect.DeepEqual(headers, req.Header) ||
			target != *req.URL {
			o.Mutated = true
		}
	}()
	if len(x.reps) == 0 {
		given = nil
	}
	err := n.Negotiate(negotiator.NegotiationContext{ResponseWriter: w, Request: req, IsCreation: x.x.Creation}, given...)
	o.Ret = "ok"
	if err != nil {
		o.Ret, o.Text = "err", err.Error()
		o.Limit = errors.Is(err, transparent.ErrVariantListSizeExceeded)
	}
}

func snapshot(reps []representation.Representation) []RepSpec {
	var s []RepSpec
	for _, r := range reps {
		c := r.(*rep).s
		c.Enc = append([]string{}, c.Enc...)
		c.Feat = append([]string{}, c.Feat...)
		s = append(s, c)
	}
	return s
}

func (x *xrun) perform(n negotiator.Negotiator) {
	o := x.obs
	o.Readable = true
	if x.x.Http {
		x.overHTTP(n)
		return
	}
	w := &writer{x: x, h: http.Header{}, fail: x.x.Wfail}
	if x.x.Preset {
		presets(w.h)
	}
	was := w.h.Clone()
	x.negotiate(n, w, x.request())
	o.Touched = !reflect.DeepEqual(was, w.h)
	if w.heads > 0 && !reflect.DeepEqual(w.head, w.h) {
		w.late = true
	}
	head := w.head
	if head == nil {
		head = w.h
	}
	x.observe(w, w.status, head, w.body.Bytes())
}

// overHTTP has the exchange take place over a real connection.
func (x *xrun) overHTTP(n negotiator.Negotiator) {
	o := x.obs
	var w *writer
	done := make(chan struct{})
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		defer close(done)
		w = &writer{x: x, under: rw}
		if x.x.Preset {
			presets(rw.Header())
		}
		was := rw.Header().Clone()
		x.negotiate(n, w, req.WithContext(context.WithValue(req.Context(), ctxKey{}, x)))
		o.Touched = !reflect.DeepEqual(was, rw.Header())
	}))
	defer srv.Close()
	req := x.request()
	u, _ := url.Parse(srv.URL)
	u.Path = req.URL.Path
	req.URL, req.Host = u, ""
	client := &http.Client{Transport: &http.Transport{DisableCompression: true, DisableKeepAlives: true},
		Timeout: 10 * time.Second}
	resp, err := client.Do(req.WithContext(context.Background()))
	if err != nil {
		o.Readable = false
		o.Text += " client: " + err.Error()
		<-done
		x.observe(w, w.status, w.head, nil)
		return
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		o.Readable = false
		o.Text += " client: " + err.Error()
	}
	<-done
	x.observe(w, resp.StatusCode, resp.Header, body)
}

func (x *xrun) observe(w *writer, status int, head http.Header, body []byte) {
	o := x.obs
	o.Heads, o.Status, o.Writes, o.Late, o.Len = w.heads, status, w.writes, w.late, len(body)
	get := func(n string) []string { return append([]string{}, head[http.CanonicalHeaderKey(n)]...) }
	o.Hdr = Hdr{Type: get("Content-Type"), Enc: get("Content-Encoding"), Lang: get("Content-Language"),
		Cs: get("Content-Charset"), Loc: get("Content-Location"), Clen: get("Content-Length"), Tcn: get("TCN")}
	o.Hdr.Tcn = append(o.Hdr.Tcn, extra(head, "TCN")...)
	alternates := append(get("Alternates"), extra(head, "Alternates")...)
	o.Alts = parseAlternates(alternates)
	o.Body = x.identify(status, body)
}

// extra retrieves values stored under a key that is not in canonical form.
func extra(h http.Header, name string) []string {
	if name == http.CanonicalHeaderKey(name) {
		return nil
	}
	return h[name]
}

func (x *xrun) identify(status int, body []byte) Body {
	b := Body{K: "other", Is: []int{}, Items: []Item{}}
	if status == 200 || status == 201 {
		for i, r := range x.reps {
			if bytes.Equal(r.(*rep).b, body) && !r.(*rep).s.Err {
				b.K = "rep"
				b.Is = append(b.Is, i+1)
			}
		}
		if b.K == "rep" {
			return b
		}
	}
	if len(body) == 0 {
		b.K = "none"
		return b
	}
	plain, zip := body, false
	if p, ok := gunzip(body); ok {
		plain, zip = p, true
	}
	if f, items, ok := decodeList(plain); ok {
		b.K, b.Fmt, b.Zip, b.Items = "list", f, zip, items
	}
	return b
}

// execute goes through the case, several times if it says so. What was seen in
// the first round is kept, unless a later one was different.
func (c *Case) execute() {
	c.round()
	first, cnt, other, logs := c.Obs, c.Cnt, c.CntOther, c.Logs
	for i := 1; i < c.Rounds; i++ {
		c.round()
		if !reflect.DeepEqual(first, c.Obs) || !reflect.DeepEqual(cnt, c.Cnt) || other != c.CntOther ||
			!reflect.DeepEqual(logs, c.Logs) {
			return
		}
	}
}

func (c *Case) round() {
	r := &run{c: c}
	live := 0
	if c.Conc {
		live = len(c.Exch)
	}
	r.gates = newScheduler(live, c.Sched, c.Burst)
	c.Obs = make([]Obs, len(c.Exch))
	to := newSinks()
	alg := &scripted{r: r}
	var negs []negotiator.Negotiator
	for _, n := range c.Negs {
		negs = append(negs, r.negotiator(n, to, alg))
	}
	for i := range c.Exch {
		x := &xrun{r: r, idx: i, x: &c.Exch[i], obs: &c.Obs[i]}
		x.obs.Calls, x.obs.Built = []Call{}, []Built{}
		for j, s := range c.Exch[i].Reps {
			loc := parseURL(s.Loc)
			// locations are compared in the form net/url writes them
			s.Loc = loc.String()
			c.Exch[i].Reps[j].Loc = s.Loc
			if s.Same > 0 && s.Same <= len(x.reps) {
				// one candidate more than once
				x.reps = append(x.reps, x.reps[s.Same-1])
				c.Exch[i].Reps[j] = c.Exch[i].Reps[s.Same-1]
				c.Exch[i].Reps[j].Same = s.Same
				continue
			}
			x.reps = append(x.reps, &rep{x: x, idx: j, s: s, loc: *loc, b: content(i, j, s.Len)})
		}
		r.xs = append(r.xs, x)
		x.measure()
	}
	if !c.Conc {
		for _, x := range r.xs {
			x.perform(negs[x.x.Neg-1])
		}
	} else {
		var wg sync.WaitGroup
		for _, x := range r.xs {
			wg.Add(1)
			go func(x *xrun) {
				defer wg.Done()
				r.gates.start(x.idx)
				defer r.gates.finish(x.idx)
				x.perform(negs[x.x.Neg-1])
			}(x)
		}
		r.gates.drive()
		wg.Wait()
	}
	c.collect(to)
}

// measure determines the size of the list documents for the candidates.
func (x *xrun) measure() {
	x.x.Lens = map[string]int{}
	off := x.r.gates
	x.r.gates = newScheduler(0, nil, 0)
	defer func() { x.r.gates = off }()
	for _, d := range append([]DocSpec{
		{Name: "json", Ct: "application/json", Lang: "en-US", Cs: "ascii", Enc: []string{"identity"}, Qs: 1000},
		{Name: "xml", Ct: "application/xml", Lang: "en-US", Cs: "ascii", Enc: []string{"identity"}, Qs: 1000},
		{Name: "yaml", Ct: "application/yaml", Lang: "en-US", Cs: "ascii", Enc: []string{"identity"}, Qs: 1000},
	}, x.r.c.Docs...) {
		var l representation.List
		fillList(&l, d, x.reps)
		b, err := l.Bytes()
		if err != nil {
			b = nil
		}
		x.x.Lens[d.Name] = len(b)
	}
	for j, s := range x.x.Reps {
		if s.Rel == nil {
			continue
		}
		r := x.reps[j].(*rep)
		x.x.Reps[j].Len, x.x.Reps[j].Rel = max(0, x.x.Lens[s.Rel.To]+s.Rel.By), nil
		if s.Same == 0 {
			r.s.Len, r.s.Rel, r.b = x.x.Reps[j].Len, nil, content(x.idx, j, x.x.Reps[j].Len)
		}
	}
}

// hang makes up the observations of a case that does not come to an end.
func (c *Case) hang(how string) {
	c.Obs = make([]Obs, len(c.Exch))
	r := &run{c: c, gates: newScheduler(0, nil, 0)}
	for i := range c.Exch {
		c.Exch[i].Lens = map[string]int{"json": 0, "xml": 0, "yaml": 0}
		for _, d := range c.Docs {
			c.Exch[i].Lens[d.Name] = 0
		}
		x := &xrun{r: r, idx: i, x: &c.Exch[i], obs: &c.Obs[i]}
		x.obs.Calls, x.obs.Built = []Call{}, []Built{}
		x.obs.Ret = how
		x.observe(&writer{x: x, h: http.Header{}}, 0, http.Header{}, nil)
	}
	c.collect(newSinks())
}
