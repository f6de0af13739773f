package pub_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// TestC29 repeats traversals, among others.
func TestC29(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "2 to 4 random cases (" + ruleCombo + "also panicking callbacks), some of which differ in one setting only, run one after the other in a random order with " +
			"repetition, then all at once, for some of them with the same option values each time, which stay as they are; non-trivial: at least one of them delivers 3 nodes or more",
		Cases: 600,
	}, func(c *kit.C) {
		before := runtime.NumGoroutine()
		n := rapid.IntRange(2, 4).Draw(c.T, "ncases")
		cases := make([]*kit.Case, n)
		first := make([]*kit.Outcome, n)

		var text []string

		for i := range cases {
			if i > 0 && rapid.Bool().Draw(c.T, "related") {
				cases[i] = vary(c, rapid.SampledFrom(cases[:i]).Draw(c.T, "to"))
			} else {
				cases[i], _ = genCombo(c, kit.TreeGen{MaxDepth: 4, MaxKids: 4, MaxNodes: 15, RootFile: true})
			}

			if len(cases[i].Actions) == 0 && rapid.IntRange(0, 4).Draw(c.T, "panics") == 0 {
				genActions(c, cases[i], 1, "panic")
			}

			text = append(text, cases[i].String())
		}

		what := strings.Join(text, "\n")
		order := rapid.SliceOfN(rapid.IntRange(0, n-1), 3, 8).Draw(c.T, "order")
		par := rapid.SliceOfN(rapid.IntRange(0, n-1), 2, 6).Draw(c.T, "parallel")
		big := false

		kept := make([]bool, n)

		for i := range cases {
			if kept[i] = rapid.Bool().Draw(c.T, "keep"); kept[i] {
				cases[i].Keep()
			}

			first[i] = cases[i].Run()
			big = big || len(first[i].Invoked()) >= 3

			// none of the earlier ones has an influence on it
			if !panics(cases[i]) {
				if d := kit.Diff(cases[i].Model(), first[i], kit.AsEvents, kit.AsErr); d != "" {
					c.Bad(cases[i], "after others: "+d+"\namong:\n"+what)
				}
			}
		}

		c.Case(big, what+fmt.Sprint(order, par))

		check := func(i int, got *kit.Outcome, when string) {
			if d := same(first[i], got); d != "" {
				c.Bad(cases[i], when+": "+d+"\namong:\n"+what)
			}

			if w := append(got.FS.Writes, got.FS.Mkdirs...); len(w) > 0 {
				c.Bad(cases[i], fmt.Sprintf("wrote to the file system it traverses: %q", w))
			}
		}

		for _, i := range order {
			check(i, cases[i].Run(), "repeated")
		}

		outs := make([]*kit.Outcome, len(par))

		var wg sync.WaitGroup

		for j, i := range par {
			wg.Add(1)

			go func() {
				defer wg.Done()

				outs[j] = cases[i].Run()
			}()
		}

		wg.Wait()

		for j, i := range par {
			check(i, outs[j], "in parallel")
		}

		if l := left(before); l != "" {
			c.Bad(what, "goroutines are left running: "+l)
		}

		for i := range cases {
			if kept[i] {
				if d := cases[i].Kept(); d != "" {
					c.Bad(cases[i], d)
				}
			}
		}
	})
}

// TestC29Nested traverses from within callbacks of traversals.
func TestC29Nested(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "2 to 3 random cases (" + ruleCombo + "also panicking callbacks), some of which differ in one setting only; the first is traversed again, with a complete traversal " +
			"of another (or of the same) from within some of its callbacks, which may have others within them in turn; each one does what it does on its own; non-trivial: at least one was nested, of 2 nodes or more",
		Cases: 400,
	}, func(c *kit.C) {
		n := rapid.IntRange(2, 3).Draw(c.T, "ncases")
		cases := make([]*kit.Case, n)
		alone := make([]*kit.Outcome, n)

		var text []string

		for i := range cases {
			if i > 0 && rapid.Bool().Draw(c.T, "related") {
				cases[i] = vary(c, rapid.SampledFrom(cases[:i]).Draw(c.T, "to"))
			} else {
				cases[i], _ = genCombo(c, kit.TreeGen{MaxDepth: 4, MaxKids: 5, MaxNodes: 15, RootFile: true})
			}

			if len(cases[i].Actions) == 0 && rapid.IntRange(0, 4).Draw(c.T, "panics") == 0 {
				genActions(c, cases[i], 1, "panic")
			}

			if rapid.IntRange(0, 2).Draw(c.T, "keep") == 0 {
				cases[i].Keep()
			}

			alone[i] = cases[i].Run()
			text = append(text, cases[i].String())
		}

		// the traversals at the callbacks, by number, at each level
		plan := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, n - 1, n - 1, -1}), 1, 8).Draw(c.T, "plan")
		deep := rapid.IntRange(1, 3).Draw(c.T, "levels")
		what := strings.Join(text, "\n") + fmt.Sprint(plan, deep)
		nested := false
		left := 40

		var bad string

		var run func(i, level int) *kit.Outcome

		run = func(i, level int) *kit.Outcome {
			count := level

			return cases[i].Run(kit.RunOpts{OnNode: func(core.Servant) {
				j := plan[count%len(plan)]
				count++

				if j < 0 || level >= deep || left <= 0 {
					return
				}

				left--

				got := run(j, level+1)
				nested = nested || len(got.Invoked()) >= 2

				if d := same(alone[j], got); d != "" && bad == "" {
					bad = fmt.Sprintf("case %d within case %d: %s", j, i, d)
				}
			}})
		}

		got := run(0, 0)

		c.Case(nested, what)

		if bad != "" {
			c.Bad(cases[0], bad+"\namong:\n"+what)
		}

		if d := same(alone[0], got); d != "" {
			c.Bad(cases[0], "with others within: "+d+"\namong:\n"+what)
		}
	})
}

func panics(cs *kit.Case) bool {
	for _, a := range cs.Actions {
		if a == "panic" {
			return true
		}
	}

	return false
}

// vary makes a case that differs from another in one respect only.
func vary(c *kit.C, from *kit.Case) *kit.Case {
	cs := *from
	names := cs.Names()

	var filters []**kit.FilterSpec

	if cs.Hib != nil {
		h := *cs.Hib
		cs.Hib = &h

		for _, f := range []**kit.FilterSpec{&h.Wake, &h.Sleep} {
			if *f != nil {
				filters = append(filters, f)
			}
		}
	}

	if cs.Sample != nil {
		s := *cs.Sample
		cs.Sample = &s

		if s.Filter != nil {
			filters = append(filters, &cs.Sample.Filter)
		}
	}

	if cs.Filter != nil {
		filters = append(filters, &cs.Filter, &cs.Filter, &cs.Filter)
	}

	kind := rapid.IntRange(0, 9).Draw(c.T, "vary")

	switch {
	case len(filters) > 0 && kind > 2:
		f := rapid.SampledFrom(filters).Draw(c.T, "which")
		*f = varyFilter(c, *f, names)
	case cs.Child != nil && kind > 2:
		ch := *cs.Child
		ch.Negate = !ch.Negate
		cs.Child = &ch
	case cs.Sample != nil && kind > 2:
		cs.Sample.Reverse = !cs.Sample.Reverse
	case kind == 0:
		cs.FilesFirst = !cs.FilesFirst
	case kind == 1:
		cs.CaseSens = !cs.CaseSens
	default:
		cs.Depth = uint(rapid.IntRange(0, 3).Draw(c.T, "depth"))
		cs.NoRecurse = false
	}

	return &cs
}

func varyFilter(c *kit.C, from *kit.FilterSpec, names []string) *kit.FilterSpec {
	f := *from
	pick := rapid.IntRange(0, 3).Draw(c.T, "part")

	switch {
	case f.Kind == "poly" && pick < 2:
		f.File = varyFilter(c, f.File, names)
	case f.Kind == "poly":
		f.Dir = varyFilter(c, f.Dir, names)
	case f.Kind == "globex" && pick < 3:
		dir, list, _ := strings.Cut(f.Pattern, "|")
		otherDir, otherList, _ := strings.Cut(kit.GenGlobEx(c.T, names).Pattern, "|")

		if pick < 2 {
			f.Pattern = otherDir + "|" + list
		} else {
			f.Pattern = dir + "|" + otherList
		}
	case pick == 0:
		f.Negate = !f.Negate
	case f.Kind == "regex":
		f.Pattern = kit.GenRegex(c.T, names)
	case f.Kind == "globex":
		f.IfNA = (f.IfNA + 1) % 3
	default:
		f.Pattern = kit.GenGlob(c.T, names)
	}

	return &f
}

// TestC29Again navigates several times what was put together once.
func TestC29Again(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random case (" + ruleCombo + "also panicking callbacks), of which the prime extent is created once and navigated 2 to 3 times, with a walk " +
			"which is configured once; each time the outcome is that of the case; non-trivial: 3 nodes or more are delivered",
		Cases: 400,
	}, func(c *kit.C) {
		cs, _ := genCombo(c, kit.TreeGen{MaxDepth: 4, MaxKids: 4, MaxNodes: 15, RootFile: true})

		if len(cs.Actions) == 0 && rapid.IntRange(0, 4).Draw(c.T, "panics") == 0 {
			genActions(c, cs, 1, "panic")
		}

		once := cs.Run()
		times := rapid.IntRange(2, 3).Draw(c.T, "times")

		var (
			errs    []error
			metrics []map[enums.Metric]uint
		)

		all := cs.Run(kit.RunOpts{
			Go: func(facade pref.Facade, settings ...pref.Option) (result core.TraverseResult, err error) {
				director := age.Walk().Configure()
				extent := age.Prime(facade, settings...)

				for range times {
					result, err = director.Extent(extent).Navigate(context.Background())
					errs = append(errs, err)
					metrics = append(metrics, kit.MetricsOf(result))
				}

				return result, err
			},
		})

		c.Case(len(once.Invoked()) > 2, cs)

		if (all.Panic == nil) != (once.Panic == nil) {
			c.Bad(cs, fmt.Sprintf("panicked: %v, but %v when alone", all.Panic, once.Panic))
		}

		want := []string{}
		for range times {
			want = append(want, eventTexts(once.Events)...)
		}

		if d := kit.FirstDiff(want, eventTexts(all.Events)); d != "" {
			c.Bad(cs, fmt.Sprintf("when navigated %d times: %s", times, d))
		}

		for i, err := range errs {
			// each of them that panics has saved a file of its own
			a, b := kit.SavedAs(&kit.Outcome{Err: err}), kit.SavedAs(once)

			if (a == "") != (b == "") || a == "" && errText(err) != errText(once.Err) {
				c.Bad(cs, fmt.Sprintf("time %d: %s, but %s when alone", i+1, errText(err), errText(once.Err)))
			}

			if d := kit.MetricsDiff(once.Metrics, metrics[i]); d != "" {
				c.Bad(cs, fmt.Sprintf("time %d: metrics: %s", i+1, d))
			}
		}
	})
}

func eventTexts(evs []kit.Event) []string {
	lines := make([]string, len(evs))
	for i, e := range evs {
		lines[i] = e.String() + snapText(e.Snap)
	}

	return lines
}

// TestC29Resume resumes several times from the same state.
func TestC29Resume(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: rulePanic + "then resumed by either strategy; again from the same state, twice with a resume extent created once, and 2 to 4 times in parallel, " +
			"along with the whole traversal; each time the outcome is that of the first; non-trivial: 3 nodes or more are left",
		Cases: 250,
	}, func(c *kit.C) {
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		cs, _, at := resumable(c, strategy)

		if at == "" {
			return
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		first := cs.Resume(dir, saved, strategy)
		whole := cs.Run()
		what := fmt.Sprintf("%v\nby %v from %s", cs, strategy, at)

		c.Case(len(first.Invoked()) > 2, what)

		var metrics map[enums.Metric]uint

		again := cs.Resume(dir, saved, strategy, kit.RunOpts{
			Go: func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				director := age.Walk().Configure()
				extent := age.Resume(facade, settings...)
				result, err := director.Extent(extent).Navigate(context.Background())
				metrics = kit.MetricsOf(result)

				if errText(err) != errText(first.Err) {
					c.Bad(what, fmt.Sprintf("again: %v, but %v the first time", err, first.Err))
				}

				return director.Extent(extent).Navigate(context.Background())
			},
		})

		if again.Panic != nil {
			c.Bad(what, fmt.Sprintf("again: panicked: %v", again.Panic))
		}

		if d := kit.MetricsDiff(first.Metrics, metrics); d != "" {
			c.Bad(what, "again: metrics: "+d)
		}

		half := len(again.Events) / 2
		twice := *again
		again.Events, twice.Events = again.Events[:half], again.Events[half:]

		for i, got := range []*kit.Outcome{again, &twice} {
			got.FS.Reads = first.FS.Reads // of both of them

			if d := same(first, got); d != "" {
				c.Bad(what, fmt.Sprintf("again (%d): %s", i, d))
			}
		}

		outs := make([]*kit.Outcome, rapid.IntRange(2, 4).Draw(c.T, "parallel"))

		var wg sync.WaitGroup

		for i := range outs {
			own := filepath.Join(dir, fmt.Sprint(i))
			if err := os.MkdirAll(own, 0o700); err != nil {
				t.Fatal(err)
			}

			wg.Add(1)

			go func() {
				defer wg.Done()

				if i == 0 {
					outs[0] = cs.Run()
					return
				}

				outs[i] = cs.Resume(own, saved, strategy)
			}()
		}

		wg.Wait()

		for i, got := range outs {
			want := first
			if i == 0 {
				want = whole
			}

			if d := same(want, got); d != "" {
				c.Bad(what, fmt.Sprintf("in parallel (%d): %s", i, d))
			}
		}
	})
}
