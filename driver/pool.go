package main

import (
	"bytes"
	"sync"
	"time"
)

// PoolCase is a number of serializations and deserializations of the same
// representations.
type PoolCase struct {
	Id       int         `json:"id"`
	Kind     string      `json:"kind"`
	Fam      string      `json:"fam"`
	Conc     bool        `json:"conc"`
	Rounds   int         `json:"rounds"`
	Pause    bool        `json:"pause"` // let some time pass before the operations
	Subjects []CodecCase `json:"subjects"`
	Ops      []PoolOp    `json:"ops"`
	PObs     []PoolObs   `json:"pobs"`
	Races    int         `json:"races"`
}

type PoolOp struct {
	Op   string `json:"op"` // write or read
	Of   int    `json:"of"`
	Hurt string `json:"hurt"` // no, cut or flip
	At   int    `json:"at"`   // where, in thousandths of the length
}

type PoolObs struct {
	Ret    string     `json:"ret"` // ok, same, differs, err, panic
	Why    string     `json:"why"`
	Kept   bool       `json:"kept"`  // bytes given and returned remained what they were
	Alike  bool       `json:"alike"` // bytes are those that are written by itself
	Layers [][]string `json:"layers"`
	Fmts   []string   `json:"fmts"`
}

type subject struct {
	c      *CodecCase
	shared wired  // what is written, by any number of operations
	alone  []byte // what it was serialized as before anything else
}

func (p *PoolCase) execute() {
	p.tidy()
	p.round()
	for i := 1; i < p.Rounds && p.sound(); i++ {
		p.round()
	}
}

// sound is a hint for whether there is anything to be seen in the observations.
func (p *PoolCase) sound() bool {
	for i, o := range p.PObs {
		if !o.Kept || !o.Alike || o.Ret == "panic" || (o.Ret == "differs" && p.Ops[i].Hurt == "no") ||
			(o.Ret == "ok" && len(o.Fmts) == 0) {
			return false
		}
	}
	return true
}

func (p *PoolCase) round() {
	p.PObs = make([]PoolObs, len(p.Ops))
	subjects := make([]*subject, len(p.Subjects))
	for i := range p.Subjects {
		c := &p.Subjects[i]
		s := &subject{c: c, shared: c.source()}
		var b []byte
		guard(func() (err error) { b, err = c.source().Bytes(); return })
		s.alone = append([]byte("{}")[:0:0], b...)
		subjects[i] = s
	}
	if p.Pause {
		// longer than what the formats of codings can tell apart
		time.Sleep(1100 * time.Millisecond)
	}
	handed := make([][]byte, len(p.Ops))
	copies := make([][]byte, len(p.Ops))
	perform := func(i int) {
		op, o := p.Ops[i], &p.PObs[i]
		o.Layers, o.Fmts, o.Kept = [][]string{}, []string{}, true
		s := subjects[op.Of-1]
		if op.Op == "write" {
			ret, err := guard(func() (err error) { handed[i], err = s.shared.Bytes(); return })
			o.Ret, o.Why = ret, errName(err)
			copies[i] = append([]byte(nil), handed[i]...)
			return
		}
		in := append([]byte(nil), s.alone...)
		switch {
		case len(in) == 0:
			in = []byte("{}")
		case op.Hurt == "cut":
			in = in[:op.At*(len(in)-1)/1000]
		case op.Hurt == "flip":
			in[op.At*(len(in)-1)/1000] ^= 1 << (op.At % 8)
		}
		handed[i], copies[i] = in, append([]byte(nil), in...)
		w := s.c.target()
		ret, err := guard(func() error { return w.FromBytes(in) })
		o.Ret, o.Why = ret, errName(err)
		if ret == "ok" {
			o.Ret = "differs"
			if _, same := s.c.restored(w); same {
				o.Ret = "same"
			}
		}
	}
	if p.Conc {
		var wg sync.WaitGroup
		begin := make(chan struct{})
		for i := range p.Ops {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-begin
				perform(i)
			}(i)
		}
		close(begin)
		wg.Wait()
	} else {
		for i := range p.Ops {
			perform(i)
		}
	}
	// what was handed over is looked at once all of it is over
	for i := range p.Ops {
		o := &p.PObs[i]
		o.Kept, o.Alike = bytes.Equal(handed[i], copies[i]), true
		if p.Ops[i].Op == "write" && o.Ret == "ok" {
			s := subjects[p.Ops[i].Of-1]
			o.Alike = bytes.Equal(s.alone, copies[i])
			c := *s.c
			c.CObs = CodecObs{}
			c.peel(handed[i], nil, len(c.Enc)+1)
			o.Fmts = append(o.Fmts, c.CObs.Fmts...)
			o.Layers = append(o.Layers, c.CObs.Layers...)
		}
	}
}

// tidy sees to it that the subjects are written as they were read.
func (p *PoolCase) tidy() {
	for i := range p.Subjects {
		p.Subjects[i].CObs = CodecObs{Layers: [][]string{}, Fmts: []string{}, Items: []Item{},
			BackItems: []Item{}, Where: []int{}}
	}
}

func (p *PoolCase) hang(how string) {
	p.tidy()
	p.PObs = make([]PoolObs, len(p.Ops))
	for i := range p.PObs {
		p.PObs[i] = PoolObs{Ret: how, Layers: [][]string{}, Fmts: []string{}}
	}
}

func (p *PoolCase) raced(n int) { p.Races = n }
func (c *Case) raced(n int)     { c.Races = n }
func (c *CodecCase) raced(int)  {}
