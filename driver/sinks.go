package main

import (
	"sort"
	"strings"

	"github.com/uber-go/tally"
	"go.uber.org/zap"
	"go.uber.org/zap/zapcore"
	"go.uber.org/zap/zaptest/observer"
)

// sink is where a negotiator reports to.
type sink struct {
	scope  tally.TestScope
	logger *zap.Logger
	seen   *observer.ObservedLogs
}

type sinks []sink

func newSinks() sinks {
	var s sinks
	for i := 0; i < 3; i++ {
		core, seen := observer.New(zapcore.DebugLevel)
		s = append(s, sink{scope: tally.NewTestScope("", nil), logger: zap.New(core), seen: seen})
	}
	return s
}

func (c *Case) collect(to sinks) {
	c.Cnt, c.CntOther, c.Logs = nil, 0, []Entry{}
	for i, s := range to {
		c.count(s.scope.Snapshot())
		c.note(i+1, s.seen.All())
	}
}

// note retains the entries that state how an exchange ended, in a canonical order.
func (c *Case) note(n int, entries []observer.LoggedEntry) {
	var own []Entry
	for _, e := range entries {
		m := e.ContextMap()
		status, ok := m["status"].(int64)
		if !ok || e.Level < zapcore.InfoLevel {
			continue
		}
		get := func(k string) string {
			if v, ok := m[k].(string); ok {
				return v
			}
			return "?"
		}
		x := Entry{Sink: n, Status: int(status), Clen: -1, Type: get("content-type"), Enc: get("content-encoding"),
			Lang: get("content-language"), Cs: get("content-charset"), Loc: get("content-location")}
		if v, ok := m["content-length"].(int64); ok {
			x.Clen = int(v)
		}
		own = append(own, x)
	}
	sort.SliceStable(own, func(i, j int) bool {
		a, b := own[i], own[j]
		if a.Status != b.Status {
			return a.Status < b.Status
		}
		if a.Clen != b.Clen {
			return a.Clen < b.Clen
		}
		return strings.Join([]string{a.Type, a.Enc, a.Lang, a.Cs, a.Loc}, "|") < strings.Join([]string{b.Type, b.Enc, b.Lang, b.Cs, b.Loc}, "|")
	})
	c.Logs = append(c.Logs, own...)
}

func (c *Case) count(s tally.Snapshot) {
	cnt := map[string]map[string]int{}
	for _, k := range []string{"proactive", "transparent", "reactive"} {
		cnt[k] = map[string]int{}
		for _, o := range []string{"acceptable", "not_acceptable", "no_content", "multiple_choices", "error", "timed"} {
			cnt[k][o] = 0
		}
	}
	add := func(kind, name string, n int) {
		if m, ok := cnt[kind]; ok {
			if _, ok := m[name]; ok {
				m[name] += n
				return
			}
		}
		c.CntOther += n
	}
	for _, v := range s.Counters() {
		add(v.Tags()["negotiator"], strings.TrimPrefix(v.Name(), "negotiate."), int(v.Value()))
	}
	for _, v := range s.Timers() {
		if v.Name() == "negotiate" {
			add(v.Tags()["negotiator"], "timed", len(v.Values()))
		} else {
			c.CntOther += len(v.Values())
		}
	}
	c.Cnt = append(c.Cnt, cnt)
}
