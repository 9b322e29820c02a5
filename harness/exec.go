package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// A plan is a list of cases; executing it gives a trace: the same cases with results.
type Event struct {
	Op string      `json:"op"`
	A  M           `json:"a"`
	R  interface{} `json:"r,omitempty"`
	Ch L           `json:"ch"`
}
type Case struct {
	Case  int      `json:"case"`
	Mode  string   `json:"mode"` // "", "lax" and "alive" (C03), or "conc" with group
	Group int      `json:"group,omitempty"`
	Tag   string   `json:"tag,omitempty"`
	Ev    []*Event `json:"ev"`
	Cut   string   `json:"cut,omitempty"`
	Share int      `json:"share,omitempty"` // conc: the first Share events are made once, for the whole group
}

type runner struct {
	w        *World
	c        *Case
	progress *int64
	crashAt  int
	sync     func(k int64)
	done     int64
}

// one performs event k and fills in its result.
func (x *runner) one(k int) (ok bool) {
	e := x.c.Ev[k]
	w := x.w
	w.ev = k
	if x.crashAt == k {
		x.resolve(e)
		e.R, e.Ch = M{"k": "crash"}, L{}
		return false
	}
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(planError); is { // the plan expected another world: what was recorded so far stands
				x.c.Ev, x.c.Cut = x.c.Ev[:k], fmt.Sprint(p)
				ok = false
				return
			}
			e.R, e.Ch = M{"k": "panic", "text": hex.EncodeToString([]byte(fmt.Sprint(p)))}, L{}
			ok = false
		}
	}()
	x.resolve(e)
	a := newArgs(e.A, false)
	var v interface{}
	var err error
	if f, is := stateOps[e.Op]; is {
		v, err = f(w, a)
		if err == nil {
			if r0, is := v.(Raw0); is {
				v = r0.v
			}
		}
	} else if f, is := ops[e.Op]; is {
		v, err = f(a)
	} else {
		panic(planError("unknown op"))
	}
	if err != nil {
		e.R = M{"k": "err"}
	} else {
		e.R = M{"k": "ok", "v": render(v)}
	}
	e.Ch = w.changes()
	return true
}

// resolve fills in arguments that refer to earlier results
func (x *runner) resolve(e *Event) {
	if e.Op == "tx_verify" {
		if ref, is := e.A["ref"]; is {
			r, ok := x.w.sigs[num(ref)]
			if !ok { // the signature was not made: an arbitrary one
				r = sigRec{65, unhx("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), unhx("3006020101020101")}
			}
			delete(e.A, "ref")
			e.A["f"], e.A["pub"], e.A["der"] = r.f, hx(r.pub), hx(r.der)
		}
	}
}

func (x *runner) run(from, to int) {
	if x.c.Mode == "alive" { // that the call returned is all that is asked
		defer func() {
			for _, e := range x.c.Ev {
				if m, is := e.R.(M); is && (m["k"] == "ok" || m["k"] == "err") {
					e.A, e.R, e.Ch = M{}, M{"k": m["k"]}, L{}
				}
			}
		}()
	}
	for k := from; k < to; k++ {
		atomic.StoreInt64(x.progress, int64(k))
		if x.sync != nil {
			x.sync(int64(k))
		}
		if !x.one(k) {
			if x.c.Cut == "" {
				x.c.Ev = x.c.Ev[:k+1]
			}
			return
		}
	}
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

// runCase runs a case with a watchdog: an event that takes longer than limit is recorded as a hang.
func runCase(c *Case, limit time.Duration, crashAt int, sync bool, mark func(k int64)) (hung bool) {
	var prog int64 = -1
	own := *c // the goroutine may live on after its call was given up
	x := &runner{w: newWorld(), c: &own, progress: &prog, crashAt: crashAt}
	if sync {
		x.sync = mark
	}
	evs := c.Ev
	done := make(chan bool)
	go func() { x.run(0, len(c.Ev)); close(done) }()
	last, since := int64(-2), time.Now()
	tick := time.NewTimer(0)
	defer tick.Stop()
	for {
		select {
		case <-done:
			*c = own
			return false
		case <-tick.C:
			p := atomic.LoadInt64(&prog)
			if p != last {
				last, since = p, time.Now()
			}
			if time.Since(since) > limit && p >= 0 {
				e := *evs[p]
				r := &Case{Case: c.Case, Mode: c.Mode, Group: c.Group, Tag: c.Tag}
				r.Ev = append(r.Ev, evs[:p]...)
				r.Ev = append(r.Ev, &Event{Op: e.Op, A: e.A, R: M{"k": "hang"}, Ch: L{}})
				*c = *r
				return true
			}
			tick.Reset(20 * time.Millisecond)
		}
	}
}

// runGroup runs the cases of a group concurrently on shared objects made once.
func runGroup(cs []*Case, limit time.Duration) (hung bool) {
	share := cs[0].Share
	first := &Case{Ev: cs[0].Ev[:share]}
	var prog int64
	x0 := &runner{w: newWorld(), c: first, progress: &prog, crashAt: -1}
	x0.run(0, share)
	var start, wg sync.WaitGroup
	start.Add(1)
	xs := make([]*runner, len(cs))
	for n, c := range cs {
		w := newWorld()
		for id, o := range x0.w.obj {
			w.obj[id] = o
		}
		for id, f := range x0.w.last {
			w.last[id] = f
		}
		evs := append([]*Event{}, first.Ev...)
		evs = append(evs, c.Ev[share:]...)
		c.Ev = evs
		x := &runner{w: w, c: c, progress: new(int64), crashAt: -1}
		xs[n] = x
		atomic.StoreInt64(x.progress, int64(share))
		wg.Add(1)
		go func() {
			start.Wait()
			x.run(share, len(x.c.Ev))
			atomic.StoreInt64(&x.done, 1)
			wg.Done()
		}()
	}
	start.Done()
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return false
	case <-time.After(limit):
	}
	for n, x := range xs { // a call that does not return
		if p := int(atomic.LoadInt64(x.progress)); p < len(x.c.Ev) && !atomicDone(x) {
			evs := x.c.Ev
			c := &Case{Case: cs[n].Case, Mode: "conc", Group: cs[n].Group, Share: share, Tag: cs[n].Tag, Ev: append([]*Event{}, evs[:p]...)}
			c.Ev = append(c.Ev, &Event{Op: evs[p].Op, A: evs[p].A, R: M{"k": "hang"}, Ch: L{}})
			cs[n] = c
		}
	}
	return true
}
func atomicDone(x *runner) bool { return atomic.LoadInt64(&x.done) != 0 }

func readPlan(path string) []*Case {
	f, err := os.Open(path)
	if err != nil {
		fatal("%v", err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var cs []*Case
	for sc.Scan() {
		c := &Case{}
		if err := json.Unmarshal(sc.Bytes(), c); err != nil {
			fatal("plan: %v", err)
		}
		cs = append(cs, c)
	}
	return cs
}

func writeCase(w *bufio.Writer, c *Case) {
	for _, e := range c.Ev {
		sort.Slice(e.Ch, func(i, j int) bool { return e.Ch[i].(L)[0].(string) < e.Ch[j].(L)[0].(string) })
	}
	b, err := json.Marshal(c)
	if err != nil {
		fatal("%v", err)
	}
	w.Write(b)
	w.WriteByte('\n')
	w.Flush()
}

func execPlan(plan, out string, limit time.Duration, from, crashAt int, sync bool) {
	debug.SetMaxStack(256 << 20)
	cs := readPlan(plan)
	f, err := os.OpenFile(out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	pf, err := os.Create(out + ".progress")
	if err != nil {
		fatal("%v", err)
	}
	hangs := 0
	for i := from; i < len(cs); i++ {
		c := cs[i]
		if c.Mode == "conc" {
			j := i
			for j < len(cs) && cs[j].Mode == "conc" && cs[j].Group == c.Group {
				j++
			}
			pf.WriteAt([]byte(fmt.Sprintf("%12d %12d\n", i, -1)), 0)
			if runGroup(cs[i:j], limit*4) {
				hangs = 3
			}
			for ; i < j; i++ {
				writeCase(w, cs[i])
			}
			i--
			if hangs >= 3 {
				fmt.Fprintln(os.Stderr, "stopped after calls that did not return")
				break
			}
			continue
		}
		pf.WriteAt([]byte(fmt.Sprintf("%12d %12d\n", i, -1)), 0)
		if runCase(c, limit, crashAt, sync, func(k int64) { pf.WriteAt([]byte(fmt.Sprintf("%12d %12d\n", i, k)), 0) }) {
			hangs++
		}
		writeCase(w, c)
		if hangs >= 3 {
			fmt.Fprintln(os.Stderr, "stopped after 3 calls that did not return")
			break
		}
	}
	w.Flush()
	f.Close()
}
