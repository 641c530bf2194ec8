package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// hangs counts the cases that did not come to an end; dead has every case
// reported as one that ended the process.
var (
	hangs atomic.Int32
	dead  bool
)

func patience() time.Duration {
	if hangs.Load() > 8 {
		return time.Second
	}
	return 20 * time.Second
}

type executable interface {
	execute()
	raced(n int)
}

// lost is the case as it was given, marked as not having ended properly.
func lost(line []byte, kind string, how string) executable {
	switch kind {
	case "pool":
		p := &PoolCase{}
		json.Unmarshal(line, p)
		p.hang(how)
		return p
	case "codec":
		c := &CodecCase{}
		json.Unmarshal(line, c)
		c.CObs = CodecObs{Ser: "panic", Layers: [][]string{}, Fmts: []string{}, Items: []Item{},
			Back: "panic", BackItems: []Item{}, Where: []int{}}
		return c
	}
	c := &Case{}
	json.Unmarshal(line, c)
	c.hang(how)
	return c
}

// one reads a case, executes it and renders it with its observations.
func one(line []byte) []byte {
	var kind struct {
		Kind string `json:"kind"`
		Conc bool   `json:"conc"`
	}
	if err := json.Unmarshal(line, &kind); err != nil {
		panic(fmt.Sprintf("driver: %v in %s", err, line))
	}
	var v executable
	switch kind.Kind {
	case "codec":
		v = &CodecCase{}
	case "pool":
		v = &PoolCase{}
	default:
		v = &Case{}
	}
	if err := json.Unmarshal(line, v); err != nil {
		panic(fmt.Sprintf("driver: %v in %s", err, line))
	}
	races := raceErrors()
	if dead {
		v = lost(line, kind.Kind, "panic")
	} else {
		finished := make(chan struct{})
		go func() {
			defer close(finished)
			v.execute()
		}()
		select {
		case <-finished:
		case <-time.After(patience()):
			hangs.Add(1)
			v = lost(line, kind.Kind, "hang")
		}
	}
	v.raced(raceErrors() - races)
	out, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return out
}

func main() {
	if os.Args[1] == "--dead" {
		dead = true
		os.Args = os.Args[1:]
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	var lines [][]byte
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if len(sc.Bytes()) > 0 {
			lines = append(lines, append([]byte(nil), sc.Bytes()...))
		}
	}
	results := make([][]byte, len(lines))
	var wg sync.WaitGroup
	next := make(chan int)
	workers := runtime.NumCPU()
	if detecting {
		workers = 1 // so that a race can be told to belong to a case
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				results[i] = one(lines[i])
			}
		}()
	}
	for i := range lines {
		next <- i
	}
	close(next)
	wg.Wait()
	w := bufio.NewWriter(out)
	for _, r := range results {
		w.Write(r)
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		panic(err)
	}
	if err := out.Close(); err != nil {
		panic(err)
	}
}
