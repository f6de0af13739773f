package pub_test

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// schedule of the callbacks of a concurrent traversal
type schedule struct {
	now      uint
	in       uint
	pause    map[string]int // path -> kind of delay
	fail     map[string]bool
	crash    map[string]bool
	consume  bool
	outSize  uint
	lag      int // microseconds the consumer takes over each output
	cancelAt int // number of the callback which cancels; 0 for never
	sync.Mutex
	inflight, peak, started atomic.Int64
	finished                atomic.Int64
	twice                   map[string]int
}

func (s *schedule) String() string {
	return fmt.Sprintf("workers %d, input %d, pauses %v, failing %v, panicking %v, consume %v (size %d, lag %dµs), cancel at %d",
		s.now, s.in, s.pause, s.fail, s.crash, s.consume, s.outSize, s.lag, s.cancelAt)
}

func genSchedule(c *kit.C, paths []string) *schedule {
	s := &schedule{
		now:   uint(rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4, 6, 8, 0}).Draw(c.T, "workers")),
		in:    uint(rapid.IntRange(0, 5).Draw(c.T, "input size")),
		pause: map[string]int{}, fail: map[string]bool{}, crash: map[string]bool{},
		twice: map[string]int{},
	}

	slow := rapid.IntRange(0, 3).Draw(c.T, "slowness")

	for _, p := range paths {
		if slow > 0 && rapid.IntRange(0, 3).Draw(c.T, "pause?") < slow {
			s.pause[p] = rapid.IntRange(1, 5).Draw(c.T, "pause")
		}
	}

	failing := rapid.IntRange(0, 3).Draw(c.T, "failing")
	for range failing {
		if len(paths) > 0 {
			s.fail[pick(c, paths, "fails at")] = true
		}
	}

	return s
}

// delay the callback
func (s *schedule) delay(kind int) {
	switch kind {
	case 1:
		runtime.Gosched()
	case 2:
		for range 50 {
			runtime.Gosched()
		}
	case 3:
		time.Sleep(30 * time.Microsecond)
	case 4:
		time.Sleep(300 * time.Microsecond)
	case 5:
		// until all of the workers are busy, or a while has passed
		until := time.Now().Add(2 * time.Millisecond)
		for uint(s.inflight.Load()) < s.workers() && time.Now().Before(until) {
			runtime.Gosched()
		}
	}
}

func (s *schedule) workers() uint {
	if s.now == 0 {
		return uint(runtime.NumCPU())
	}

	return s.now
}

type concluded struct {
	left    string
	events  []kit.Event
	outs    []string
	err     error
	late    int64 // callbacks still active when the wait was over
	end     bool
	closed  bool
	nilOuts int
}

// launch a concurrent traversal and wait for it
func launch(cs *kit.Case, s *schedule) (*kit.Outcome, *concluded) {
	return pursue(s, func(r kit.RunOpts) *kit.Outcome { return cs.Run(r) }, age.Prime)
}

type extend func(facade pref.Facade, settings ...pref.Option) *age.Builders

// left is the stacks of goroutines that remain, of those that were not there
// before.
func left(before int) string {
	for wait := time.Microsecond; wait < 5*time.Second; wait *= 2 {
		if runtime.NumGoroutine() <= before {
			return ""
		}

		time.Sleep(wait)
	}

	buf := make([]byte, 1<<20)

	return string(buf[:runtime.Stack(buf, true)])
}

// pursue a traversal which is run by perform, as described by extent
func pursue(s *schedule, perform func(kit.RunOpts) *kit.Outcome, extent extend) (*kit.Outcome, *concluded) {
	con := &concluded{}
	ctx, cancel := context.WithCancel(context.Background())

	defer cancel()

	onNode := func(servant core.Servant) {
		path := servant.Node().Path
		n := s.inflight.Add(1)

		defer s.finished.Add(1)
		defer s.inflight.Add(-1)

		for {
			peak := s.peak.Load()
			if n <= peak || s.peak.CompareAndSwap(peak, n) {
				break
			}
		}

		if int(s.started.Add(1)) == s.cancelAt {
			cancel()
		}

		s.delay(s.pause[path])
	}

	var outs []core.TraverseOutput

	before := runtime.NumGoroutine()
	out := perform(kit.RunOpts{
		OnNode: onNode,
		Go: func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
			var wg sync.WaitGroup

			if s.now > 0 {
				settings = append(settings, age.WithNoW(s.now))
			}

			settings = append(settings, func(o *pref.Options) error {
				o.Concurrency.Input.Size = s.in
				return nil
			})

			if s.consume {
				settings = append(settings, age.WithOutput(&pref.OutputOptions{
					Size:               s.outSize,
					CheckCloseInterval: time.Millisecond,
					TimeoutOnSend:      20 * time.Second,
					On: func(stream core.OutputStream) {
						wg.Add(1)

						go func() {
							defer wg.Done()

							for {
								select {
								case o, ok := <-stream:
									if !ok {
										con.closed = true
										return
									}

									if o.Payload == nil {
										con.nilOuts++
									} else {
										outs = append(outs, *o.Payload)

										if !errors.Is(o.Error, o.Payload.Error) || (o.Error == nil) != (o.Payload.Error == nil) {
											con.nilOuts++
										}
									}

									time.Sleep(time.Duration(s.lag) * time.Microsecond)

								case <-ctx.Done():
									return
								}
							}
						}()
					},
				}))
			}

			result, err := age.Run(&wg).Configure().Extent(extent(facade, settings...)).Navigate(ctx)

			wg.Wait()
			con.late = s.inflight.Load()

			return result, err
		},
	})

	con.err = out.Err
	con.events = out.Events
	con.left = left(before)

	for _, o := range outs {
		text := "nil servant"
		if o.Servant != nil {
			text = o.Servant.Node().Path
		}

		if o.Error != nil {
			text += " !" + o.Error.Error()
		}

		con.outs = append(con.outs, text)
	}

	sort.Strings(con.outs)

	return out, con
}

func concCase(c *kit.C, g kit.TreeGen) (*kit.Case, *kit.Expected, []string) {
	var cs *kit.Case

	if rapid.Bool().Draw(c.T, "plain") {
		cs = kit.GenBase(c.T, g)
	} else {
		cs, _ = genCombo(c, g)
	}

	cs.Actions = nil
	full := cs.Model()

	return cs, full, full.Invoked()
}

func invocations(evs []kit.Event) []string {
	lines := []string{}

	for _, e := range evs {
		if e.Kind == "invoke" {
			lines = append(lines, snapText(e.Snap))
		}
	}

	sort.Strings(lines)

	return lines
}

// notices are the notifications, which come from the one navigating.
func notices(evs []kit.Event) []string {
	return texts(kit.Filter(evs, "begin", "end", "descend", "ascend", "wake", "sleep"))
}

var concTree = kit.TreeGen{MaxDepth: 4, MaxKids: 7, MaxNodes: 40, RootFile: true, MinKids: 4}

const ruleConc = "random tree and options; 1-8 (or the default number of) workers, input queue of 0-5, callbacks that yield, sleep, " +
	"or wait for each other; "

// sequentially performed, by the real code
func sequential(cs *kit.Case) *kit.Outcome { return cs.Run() }

func TestC21(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: ruleConc + "some fail, 1 in 20 times one panics; compared with the sequential traversal; non-trivial: more nodes than workers, " +
			"and at least 2 callbacks were active at once",
		Cases: 1000,
	}, func(c *kit.C) {
		cs, _, paths := concCase(c, concTree)
		s := genSchedule(c, paths)
		cs.Actions = map[string]string{}

		if len(paths) > 0 && rapid.IntRange(1, 20).Draw(c.T, "panics?") == 1 {
			s.crash[pick(c, paths, "panics at")] = true
		}

		seq := sequential(&kit.Case{
			Root: cs.Root, Tree: cs.Tree, Abs: cs.Abs, Sub: cs.Sub, Depth: cs.Depth, NoRecurse: cs.NoRecurse,
			FilesFirst: cs.FilesFirst, CaseSens: cs.CaseSens, CaseBy: cs.CaseBy, TrimSep: cs.TrimSep, Filter: cs.Filter, Child: cs.Child,
			Sample: cs.Sample, Hib: cs.Hib, ReadErr: cs.ReadErr, InfoErr: cs.InfoErr, Partial: cs.Partial,
			RootStat: cs.RootStat, Fault: cs.Fault, ReverseFS: cs.ReverseFS,
		})

		for p := range s.fail {
			cs.Actions[p] = "error"
		}

		for p := range s.crash {
			cs.Actions[p] = "panic"
		}

		text := fmt.Sprintf("%v\n%v", cs, s)
		out, con := launch(cs, s)

		if out.Panic != nil {
			c.Bad(text, fmt.Sprintf("panicked: %v", out.Panic))
		}

		if d := kit.FirstDiff(invocations(seq.Events), invocations(out.Events)); d != "" {
			c.Bad(text, "delivered by sequential (want) and concurrent (got) traversal: "+d)
		}

		if d := kit.FirstDiff(notices(seq.Events), notices(out.Events)); d != "" {
			c.Bad(text, "notified by sequential (want) and concurrent (got) traversal: "+d)
		}

		judge(c, text, s, con)

		if (out.Err == nil) != (seq.Err == nil) {
			c.Bad(text, fmt.Sprintf("sequential ends with %v, concurrent with %v", seq.Err, out.Err))
		}

		if d := kit.MetricsDiff(seq.Metrics, out.Metrics); d != "" {
			c.Bad(text, "metrics: "+d)
		}

		c.Case(len(paths) > int(s.workers()) && s.peak.Load() > 1, text)
		c.Class(s.workers() == 1, "one worker")
		c.Class(s.peak.Load() == int64(s.workers()) && s.workers() > 1, "all workers active at once")
		c.Class(len(s.fail) > 0, "failures")
		c.Class(len(s.crash) > 0, "panics")
		c.Class(cs.Hib != nil || cs.Filter != nil || cs.Sample != nil, "features")
	})
}

// TestC21Resume resumes an interrupted traversal concurrently.
func TestC21Resume(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: rulePanic + "then resumed, by either strategy, with 1-8 (or the default number of) workers and callbacks that yield, sleep, fail or " +
			"wait for each other; compared with the sequential resume; non-trivial: at least 2 callbacks were active at once",
		Cases: 500,
	}, func(c *kit.C) {
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		cs, full, at := resumable(c, strategy)

		if at == "" {
			return
		}

		cs.Actions = map[string]string{}
		full = cs.Model()

		if _, _, i := snapOf(full, at); i < 0 {
			return // was not delivered but for what the callback did
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		seq := cs.Resume(dir, saved, strategy)
		s := genSchedule(c, full.Invoked())

		for p := range s.fail {
			cs.Actions[p] = "error"
		}

		text := fmt.Sprintf("%v\npanics at %q, then resumed by %v\n%v", cs, at, strategy, s)
		out, con := pursue(s, func(r kit.RunOpts) *kit.Outcome { return cs.Resume(dir, saved, strategy, r) }, age.Resume)

		if out.Panic != nil || seq.Panic != nil {
			c.Bad(text, fmt.Sprintf("panicked: %v, sequentially: %v", out.Panic, seq.Panic))
		}

		if d := kit.FirstDiff(invocations(seq.Events), invocations(out.Events)); d != "" {
			c.Bad(text, "delivered by sequential (want) and concurrent (got) resume: "+d)
		}

		if d := kit.FirstDiff(notices(seq.Events), notices(out.Events)); d != "" {
			c.Bad(text, "notified by sequential (want) and concurrent (got) resume: "+d)
		}

		judge(c, text, s, con)

		if (out.Err == nil) != (seq.Err == nil) || out.Complete != seq.Complete {
			c.Bad(text, fmt.Sprintf("sequential ends with %v (complete %v), concurrent with %v (%v)", seq.Err, seq.Complete, out.Err, out.Complete))
		}

		if d := kit.MetricsDiff(seq.Metrics, out.Metrics); d != "" {
			c.Bad(text, "metrics: "+d)
		}

		c.Case(s.peak.Load() > 1, text)
		c.Class(strategy == enums.ResumeStrategySpawn, "spawn")
	})
}

// judge what must be true whatever the outcome
func judge(c *kit.C, text string, s *schedule, con *concluded) {
	// a resume by fastward does not begin
	if len(kit.Filter(con.events, "begin")) > 0 && con.events[0].Kind != "begin" {
		c.Bad(text, fmt.Sprintf("%v comes before begin", con.events[0]))
	}

	if con.left != "" {
		c.Bad(text, "goroutines are left running: "+con.left)
	}

	if con.late != 0 {
		c.Bad(text, fmt.Sprintf("%d callbacks still active after waiting", con.late))
	}

	if peak := s.peak.Load(); peak > int64(s.workers()) {
		c.Bad(text, fmt.Sprintf("%d callbacks active at once, but there are %d workers", peak, s.workers()))
	}
}

func TestC21Output(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: ruleConc + "some fail; the output channel (size 0-4) is consumed with a lag of 0-200µs; each job's outcome must be sent " +
			"once and the channel closed; non-trivial: more nodes than workers, and a callback failed",
		Cases: 250,
	}, func(c *kit.C) {
		cs, _, paths := concCase(c, concTree)
		s := genSchedule(c, paths)
		s.consume = true
		s.outSize = uint(rapid.IntRange(0, 4).Draw(c.T, "output size"))
		s.lag = rapid.SampledFrom([]int{0, 0, 20, 200}).Draw(c.T, "lag")
		seq := sequential(cs)
		cs.Actions = map[string]string{}

		for p := range s.fail {
			cs.Actions[p] = "error"
		}

		want := []string{}

		for _, p := range seq.Invoked() {
			if s.fail[p] {
				p += " !" + kit.Failure(p).Error()
			}

			want = append(want, p)
		}

		sort.Strings(want)

		text := fmt.Sprintf("%v\n%v", cs, s)
		out, con := launch(cs, s)

		if out.Panic != nil {
			c.Bad(text, fmt.Sprintf("panicked: %v", out.Panic))
		}

		if d := kit.FirstDiff(invocations(seq.Events), invocations(out.Events)); d != "" {
			c.Bad(text, "delivered by sequential (want) and concurrent (got) traversal: "+d)
		}

		if d := kit.FirstDiff(notices(seq.Events), notices(out.Events)); d != "" {
			c.Bad(text, "notified by sequential (want) and concurrent (got) traversal: "+d)
		}

		if d := kit.FirstDiff(want, con.outs); d != "" {
			c.Bad(text, "outputs: "+d)
		}

		if con.nilOuts > 0 {
			c.Bad(text, fmt.Sprintf("%d outputs without payload, or with another error than their payload", con.nilOuts))
		}

		if !con.closed {
			c.Bad(text, "output channel was not closed")
		}

		judge(c, text, s, con)
		c.Case(len(paths) > int(s.workers()) && len(s.fail) > 0, text)
		c.Class(s.lag > 0, "lagging consumer")
		c.Class(s.outSize == 0, "default output size")
	})
}

func TestC21Cancel(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: ruleConc + "the context is cancelled by one of the callbacks (or beforehand); the traversal must end, the callbacks be " +
			"finished when the wait is over, and nothing be delivered twice or invented; non-trivial: cancellation took effect " +
			"before all was delivered",
		Cases: 800,
	}, func(c *kit.C) {
		cs, full, paths := concCase(c, concTree)
		s := genSchedule(c, paths)
		cs.Actions = map[string]string{}

		if len(paths) == 0 {
			return
		}

		for p := range s.fail {
			cs.Actions[p] = "error"
		}

		s.cancelAt = rapid.IntRange(1, len(paths)).Draw(c.T, "cancel at")
		s.consume = rapid.IntRange(1, 4).Draw(c.T, "consume") == 1
		text := fmt.Sprintf("%v\n%v", cs, s)

		out, con := launch(cs, s)
		if out.Panic != nil {
			c.Bad(text, fmt.Sprintf("panicked: %v", out.Panic))
		}

		judge(c, text, s, con)

		allowed := map[string]bool{}

		for _, e := range full.Events {
			if e.Kind == "invoke" {
				allowed[snapText(e.Snap)] = true
			}
		}

		n := 0

		for _, line := range invocations(out.Events) {
			n++

			if !allowed[line] {
				c.Bad(text, "delivered twice, or invented: "+line)
			}

			delete(allowed, line)
		}

		if out.Err != nil && !errors.Is(out.Err, context.Canceled) && full.Err == nil {
			c.Bad(text, fmt.Sprintf("ended with %v (%T)", out.Err, out.Err))
		}

		c.Case(n < len(paths), text)
		c.Class(s.consume, "consuming outputs")
	})
}
