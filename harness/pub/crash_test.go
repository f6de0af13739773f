package pub_test

import (
	"errors"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

var crashTree = kit.TreeGen{MaxDepth: 5, MaxKids: 5, MaxNodes: 30, RootFile: true, MinKids: 2}

// crashCase draws a case and the node whose callback panics; it is nil if
// nothing is delivered.
func crashCase(c *kit.C, act bool) (cs *kit.Case, full *kit.Expected, at string, n int) {
	cs, n = genCombo(c, crashTree)
	if !act {
		cs.Actions = nil
	}

	full = cs.Model()
	inv := full.Invoked()

	if len(inv) == 0 {
		return cs, full, "", n
	}

	at = pick(c, inv, "panics at")

	return cs, full, at, n
}

// pick draws an item; small numbers are drawn more often than large ones, so
// count from either end.
func pick(c *kit.C, items []string, label string) string {
	i := rapid.IntRange(0, len(items)-1).Draw(c.T, label)
	if rapid.Bool().Draw(c.T, label+" from the end") {
		i = len(items) - 1 - i
	}

	return items[i]
}

func with(actions map[string]string, path, action string) map[string]string {
	m := map[string]string{path: action}

	for k, v := range actions {
		if k != path {
			m[k] = v
		}
	}

	return m
}

func snapOf(x *kit.Expected, path string) (*kit.Snap, *kit.Progress, int) {
	for i, e := range x.Events {
		if e.Kind == "invoke" && e.Path == path {
			return e.Snap, e.At, i
		}
	}

	return nil, nil, -1
}

const rulePanic = "any combination of features (as for C31), with a callback that panics at one of the nodes delivered; "

// crash runs the case up to the panic; what was saved is returned
func crash(c *kit.C, cs *kit.Case, at string, ro kit.RunOpts) (*kit.Outcome, *kit.Saved) {
	r := kit.NewVFS(true)
	ro.R = core.Forest{R: r}
	cut := *cs
	cut.Actions = with(cs.Actions, at, rapid.SampledFrom([]string{"panic", "panicstr"}).Draw(c.T, "panic kind"))

	out := cut.Run(ro)
	if out.Panic != nil {
		c.Bad(cs, fmt.Sprintf("panic at %q was let through: %v", at, out.Panic))
	}

	saved, err := kit.SavedState(out, r)
	if err != nil {
		c.Bad(cs, fmt.Sprintf("panic at %q: %v", at, err))
	}

	return out, saved
}

// filterDoc checks the saved form of a filter.
func filterDoc(what string, f *kit.FilterSpec, doc any) string {
	m, ok := doc.(map[string]any)
	if f == nil || f.Kind == "custom" && !strings.Contains(what, " ") {
		if ok {
			return what + " is recorded but there is none"
		}

		return ""
	}

	if !ok {
		return what + " is not recorded"
	}

	if f.Kind == "poly" {
		p, _ := m["Poly"].(map[string]any)
		if p == nil {
			return what + ": poly is not recorded"
		}

		if d := filterDoc(what+" file", f.File, p["File"]); d != "" {
			return d
		}

		return filterDoc(what+" directory", f.Dir, p["Directory"])
	}

	for k, v := range map[string]any{
		"filter-type":       float64(kit.FilterTypes[f.Kind]),
		"pattern":           f.Pattern,
		"negate":            f.Negate,
		"if-not-applicable": float64(f.Def().IfNotApplicable),
	} {
		if m[k] != v {
			return fmt.Sprintf("%s: %s is recorded as %v rather than %v", what, k, m[k], v)
		}
	}

	// an undefined scope, or that of a part of a poly filter, may have been made definite
	if f.Scope != 0 && !strings.Contains(what, " ") && f.Kind != "globex" && m["filter-scope"] != float64(f.Scope) {
		return fmt.Sprintf("%s: scope is recorded as %v rather than %v", what, m["filter-scope"], f.Scope)
	}

	return ""
}

func get(doc any, path ...string) any {
	for _, k := range path {
		m, _ := doc.(map[string]any)
		doc = m[k]
	}

	return doc
}

// optionsDoc checks the options recorded.
func optionsDoc(cs *kit.Case, jo map[string]any) string {
	type field struct {
		want any
		path []string
	}

	fields := []field{
		{cs.FilesFirst, []string{"Behaviours", "Sort", "SortFilesFirst"}},
		{!cs.TrimSep, []string{"Behaviours", "SubPath", "KeepTrailingSep"}},
		{cs.NoRecurse, []string{"Behaviours", "Cascade", "NoRecurse"}},
	}

	if !cs.NoRecurse {
		fields = append(fields, field{float64(cs.Depth), []string{"Behaviours", "Cascade", "Depth"}})
	}

	for _, f := range fields {
		if got := get(jo, f.path...); got != f.want {
			return fmt.Sprintf("option %s is recorded as %v rather than %v", strings.Join(f.path, "."), got, f.want)
		}
	}

	if d := filterDoc("node-filter", cs.Filter, get(jo, "Filter", "Node")); d != "" {
		return d
	}

	if h := cs.Hib; h != nil {
		if d := filterDoc("wake", h.Wake, get(jo, "Hibernate", "WakeAt")); d != "" {
			return d
		}

		if d := filterDoc("sleep", h.Sleep, get(jo, "Hibernate", "SleepAt")); d != "" {
			return d
		}
	}

	if ch := cs.Child; ch != nil {
		if p := get(jo, "Filter", "Child", "child-pattern"); p != ch.Pattern {
			return fmt.Sprintf("child filter is recorded as %v rather than %v", p, ch.Pattern)
		}
	}

	return ""
}

// TestC16 panics everywhere.
func TestC16(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  rulePanic + "non-trivial: something is delivered before the panic",
		Cases: 3000,
	}, func(c *kit.C) {
		cs, full, at, n := crashCase(c, true)
		if at == "" {
			return
		}

		cut := *cs
		cut.Actions = with(cs.Actions, at, "panic")
		want := cut.Model()
		snap, progress, _ := snapOf(full, at)

		c.Case(want.Invoked()[0] != at, fmt.Sprintf("%v panics at %q", cs, at))
		c.Class(n >= 2, "2 or more features")
		c.Class(snap.Depth == 0, "at the root")
		c.Class(!snap.Dir, "at a file")
		c.Class(progress.Hib == enums.HibernationRetired || progress.Hib == enums.HibernationPending, "hibernating")

		got, saved := crash(c, cs, at, kit.RunOpts{})
		if d := kit.Diff(want, got, kit.AsEvents, kit.AsSnaps, kit.AsKids); d != "" {
			c.Bad(&cut, d)
		}

		if !errors.Is(got.Err, locale.ErrCorePanicOccurred) {
			c.Bad(&cut, fmt.Sprintf("the error does not tell of the panic: %v", got.Err))
		}

		if !strings.HasPrefix(saved.Path, kit.AdminPath+"/") {
			c.Bad(&cut, fmt.Sprintf("state was saved to %q, which is not under the admin path", saved.Path))
		}

		st, err := saved.Decode()
		if err != nil {
			c.Bad(&cut, fmt.Sprintf("state saved is not a document: %v\n%s", err, saved.Data))
		}

		a := st.Active
		fail := func(what string, want, got any) {
			c.Bad(&cut, fmt.Sprintf("panic at %q: %s is recorded as %v rather than %v", at, what, got, want))
		}

		switch {
		case a.Tree != cs.Tree:
			fail("the tree", cs.Tree, a.Tree)
		case a.CurrentPath != at:
			fail("the node", at, a.CurrentPath)
		case a.Depth != snap.Depth:
			fail("the depth", snap.Depth, a.Depth)
		case a.IsDir != snap.Dir:
			fail("whether it is a directory", snap.Dir, a.IsDir)
		case a.Subscription != uint(cs.Sub):
			fail("the subscription", cs.Sub, a.Subscription)
		case a.TraverseDescription.IsRelative == cs.Abs:
			fail("whether the file system is relative", !cs.Abs, a.TraverseDescription.IsRelative)
		case a.ResumeDescription.IsRelative:
			fail("whether the resume file system is relative", false, true)
		case cs.Hib != nil && a.Hibernation != uint(progress.Hib):
			fail("hibernation", progress.Hib, a.Hibernation)
		}

		if cs.Sample == nil || cs.Sample.Filter == nil {
			if d := kit.MetricsDiff(want.Metrics, st.Counts()); d != "" {
				c.Bad(&cut, "recorded metrics: "+d)
			}
		}

		if d := optionsDoc(cs, st.JO); d != "" {
			c.Bad(&cut, d)
		}
	})
}

// TestC16NotSaved: the state can't be saved.
func TestC16NotSaved(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  rulePanic + "and making the admin directory or writing the file fails; non-trivial: something is delivered before the panic",
		Cases: 600,
	}, func(c *kit.C) {
		cs, _, at, _ := crashCase(c, true)
		if at == "" {
			return
		}

		cut := *cs
		cut.Actions = with(cs.Actions, at, "panic")
		want := cut.Model()
		r := kit.NewVFS(true)
		fault := rapid.SampledFrom([]string{"mkdir", "write", "handler"}).Draw(c.T, "fault")
		ro := kit.RunOpts{R: core.Forest{R: r}}

		switch fault {
		case "mkdir":
			r.MkdirErr = kit.ErrFault
		case "write":
			r.WriteErr = kit.ErrFault
		case "handler":
			ro.Extra = append(ro.Extra, pref.WithPanicHandler(pref.Rescuer(
				func(pref.Recovery, pref.RescueData) (string, error) { return "", kit.ErrFault })))
		}

		c.Case(want.Invoked()[0] != at, fmt.Sprintf("%s %v panics at %q", fault, cs, at))
		c.Class(true, fault)

		got := cut.Run(ro)
		if d := kit.Diff(want, got, kit.AsEvents, kit.AsSnaps); d != "" {
			c.Bad(&cut, d)
		}

		var e *locale.TraversalNotSavedError

		if !errors.As(got.Err, &e) || !errors.Is(got.Err, locale.ErrCorePanicOccurred) {
			c.Bad(&cut, fmt.Sprintf("the error does not tell that the state was not saved: %v", got.Err))
		}

		if !errors.Is(e.Reason, kit.ErrFault) {
			c.Bad(&cut, fmt.Sprintf("the error does not carry the reason: %v", e.Reason))
		}

		if fault == "handler" && len(r.Writes)+len(r.Mkdirs) > 0 {
			c.Bad(&cut, "state was saved regardless of the panic handler")
		}
	})
}

// rest is what the full traversal does from the node on, the metrics of it, and
// those up to it.
func rest(full *kit.Expected, at string) *kit.Expected {
	_, progress, i := snapOf(full, at)
	x := &kit.Expected{Events: full.Events[i:], Err: full.Err, Metrics: map[enums.Metric]uint{}}

	for _, k := range kit.MetricKinds {
		x.Metrics[k] = full.Metrics[k] - progress.Metrics[k]
	}

	return x
}

func sampleFiltered(cs *kit.Case) bool { return cs.Sample != nil && cs.Sample.Filter != nil }

func resumeCase(c *kit.C, strategy enums.ResumeStrategy) (*kit.Case, *kit.Expected, string) {
	cs, full, at := resumable(c, strategy)

	if at != "" {
		left := len(rest(full, at).Invoked())
		c.Case(left > 1 && left < len(full.Invoked()), fmt.Sprintf("%v panics at %q", cs, at))
	}

	return cs, full, at
}

func resumable(c *kit.C, strategy enums.ResumeStrategy) (*kit.Case, *kit.Expected, string) {
	cs, full, at, n := crashCase(c, true)

	if strategy == enums.ResumeStrategyFastward && cs.Hib != nil && cs.Actions != nil {
		// before the resume point the callback is not invoked, so can't skip
		// the nodes which would have affected hibernation
		cs.Actions = nil
		full = cs.Model()

		if inv := full.Invoked(); len(inv) > 0 {
			at = pick(c, inv, "panics at, hibernating")
		}
	}

	if at == "" {
		return cs, full, at
	}

	delete(cs.Actions, at)
	full = cs.Model()

	c.Class(n >= 2, "2 or more features")
	c.Class(cs.Hib != nil, "hibernation")
	c.Class(cs.Filter != nil, "filter")
	c.Class(cs.Sample != nil, "sampling")
	c.Class(cs.Depth > 0 || cs.NoRecurse, "depth limit")

	return cs, full, at
}

func scratch(t *testing.T) string {
	dir, err := os.MkdirTemp("", "verif-resume")
	if err != nil {
		t.Fatalf("VERIF-HARNESS: %v", err)
	}

	t.Cleanup(func() { _ = os.RemoveAll(dir) })

	return dir
}

// TestC16Kept what was saved of one traversal is not lost when another panics.
func TestC16Kept(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "2 to 6 traversals (" + ruleCombo + "each panicking at one of its nodes), one after the other or at the same time, that share an admin " +
			"path; non-trivial: they panic at different nodes",
		Cases: 400,
	}, func(c *kit.C) {
		n := rapid.IntRange(2, 6).Draw(c.T, "traversals")
		cuts := make([]kit.Case, 0, n)
		ats := make([]string, 0, n)
		text := ""

		for range n {
			cs, _, at, _ := crashCase(c, false)
			if at == "" {
				continue
			}

			cut := *cs
			cut.Actions = with(cs.Actions, at, "panic")
			cuts, ats = append(cuts, cut), append(ats, at)
			text += cut.String() + "\n"
		}

		together := rapid.Bool().Draw(c.T, "at the same time")
		r := kit.NewVFS(true)
		outs := make([]*kit.Outcome, len(cuts))
		different := map[string]bool{}

		var wg sync.WaitGroup

		for i := range cuts {
			different[ats[i]] = true
			run := func() { outs[i] = cuts[i].Run(kit.RunOpts{R: core.Forest{R: r}}) }

			if !together {
				run()
				continue
			}

			wg.Add(1)

			go func() {
				defer wg.Done()
				run()
			}()
		}

		wg.Wait()
		c.Case(len(different) > 1, text)
		c.Class(together, "at the same time")

		for i, out := range outs {
			saved, err := kit.SavedState(out, r)
			if err != nil {
				c.Bad(text, err.Error())
			}

			st, err := saved.Decode()
			if err != nil {
				c.Bad(text, fmt.Sprintf("state saved is not a document: %v\n%s", err, saved.Data))
			}

			if a := st.Active; a.CurrentPath != ats[i] || a.Tree != cuts[i].Tree || a.Subscription != uint(cuts[i].Sub) {
				c.Bad(text, fmt.Sprintf("%v\npanicked at %q, in the end the state it saved to %q is that of a traversal of %q panicking at %q",
					&cuts[i], ats[i], saved.Path, a.Tree, a.CurrentPath))
			}
		}
	})
}

func TestC17(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  rulePanic + "then resumed by fastward; non-trivial: something precedes the resume point and something follows it",
		Cases: 2500,
	}, func(c *kit.C) {
		cs, full, at := resumeCase(c, enums.ResumeStrategyFastward)
		if at == "" {
			return
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		want := rest(full, at)
		got := cs.Resume(dir, saved, enums.ResumeStrategyFastward)

		what := fmt.Sprintf("%v\npanics at %q, then resumed", cs, at)
		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
			c.Bad(what, d)
		}

		// a wake or sleep raised by the resume point itself is left open
		for i, e := range got.Events {
			if e.Kind == "invoke" {
				got.Events = got.Events[i:]
				break
			}

			if e.Kind != "wake" && e.Kind != "sleep" {
				c.Bad(what, fmt.Sprintf("%v is notified before the resume point", e))
			}
		}

		if d := kit.Diff(want, got, kit.AsEvents); d != "" {
			c.Bad(what, d)
		}

		if !sampleFiltered(cs) {
			if d := kit.MetricsDiff(want.Metrics, got.Metrics); d != "" {
				c.Bad(what, "metrics of what was left: "+d)
			}
		}

		if !got.Complete {
			c.Bad(what, "traversal is not complete")
		}
	})
}

func TestC18(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  rulePanic + "then resumed by spawn; non-trivial: something precedes the resume point and something follows it",
		Cases: 2500,
	}, func(c *kit.C) {
		cs, full, at := resumeCase(c, enums.ResumeStrategySpawn)
		if at == "" {
			return
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		want := rest(full, at)
		got := cs.Resume(dir, saved, enums.ResumeStrategySpawn)

		what := fmt.Sprintf("%v\npanics at %q, then resumed", cs, at)
		spawned(got)
		spawned(&kit.Outcome{Events: want.Events})

		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
			c.Bad(what, d)
		}

		after := got.Events // a wake or sleep raised by the resume point itself is left open

		for i, e := range got.Events {
			if e.Kind == "invoke" {
				after = got.Events[i:]
				break
			}
		}

		if d := kit.FirstDiff(texts(kit.Filter(want.Events, "sleep", "wake")), texts(kit.Filter(after, "sleep", "wake"))); d != "" {
			c.Bad(what, "sleep: "+d)
		}

		if n := len(got.Of("begin")); n != 1 || got.Events[0].Kind != "begin" {
			c.Bad(what, fmt.Sprintf("begin is notified %d times", n))
		}

		if n := len(got.Of("end")); n != 1 || got.Events[len(got.Events)-1].Kind != "end" {
			c.Bad(what, fmt.Sprintf("end is notified %d times", n))
		}

		if !sampleFiltered(cs) {
			before := cutMetrics(cs, at)
			for k, v := range before {
				want.Metrics[k] += v
			}

			if d := kit.MetricsDiff(want.Metrics, got.Metrics); d != "" {
				c.Bad(what, "metrics of both sessions: "+d)
			}
		}

		if want.Err == nil && !got.Complete {
			c.Bad(what, "traversal is not complete")
		}
	})
}

// cutMetrics are the metrics of the session that panicked.
func cutMetrics(cs *kit.Case, at string) map[enums.Metric]uint {
	cut := *cs
	cut.Actions = with(cs.Actions, at, "panic")

	return cut.Model().Metrics
}

func texts(evs []kit.Event) []string {
	r := []string{}

	for _, e := range evs {
		r = append(r, e.String())
	}

	return r
}

// spawned removes what the ancestors of a spawned sub tree can't have: they
// did not come out of a directory listing.
func spawned(o *kit.Outcome) {
	for _, e := range o.Events {
		if e.Snap != nil {
			e.Snap.Up = bare(e.Snap.Up)
		}
	}
}

func bare(s *kit.Snap) *kit.Snap {
	if s == nil {
		return nil
	}

	b := *s
	b.HasEntry = false
	b.HasInfo, b.InfoName, b.InfoSize, b.Err = false, "", 0, ""
	b.Up = bare(s.Up)

	return &b
}

// TestC19Large resumes from deep down.
func TestC19Large(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  "chains up to 300 levels and directories of up to 300 items, panicking at one of the nodes, then resumed; all non-trivial",
		Cases: 30,
	}, func(c *kit.C) {
		cs := large(c, 300, 300)
		full := cs.Model()
		inv := full.Invoked()

		if len(inv) == 0 {
			return
		}

		at := pick(c, inv, "panics at")
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		_, saved := crash(c, cs, at, kit.RunOpts{})
		verifyLarge(c, rest(full, at), cs.Resume(dir, saved, strategy), kit.AsOrder, kit.AsErr)
	})
}

// TestC19 crashes and resumes again and again.
func TestC19(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: rulePanic + "then resumed by fastward or spawn, only to panic again, up to 6 times; non-trivial: " +
			"3 sessions or more, and the crashes are at different nodes",
		Cases: 1200,
	}, func(c *kit.C) {
		cs, full, _, _ := crashCase(c, false)
		inv := full.Invoked()

		if len(inv) == 0 {
			return
		}

		crashes := rapid.SliceOfN(rapid.IntRange(0, len(inv)-1), 1, 6).Draw(c.T, "crashes")
		sort.Ints(crashes)

		spread := crashes[0] != crashes[len(crashes)-1]
		text := fmt.Sprintf("%v\ncrashes %v", cs, crashes)
		sessions := len(crashes) + 1

		var (
			saved *kit.Saved
			at    string
		)

		start := 0

		for i := range sessions {
			last := i == sessions-1
			session := *cs

			if !last {
				session.Actions = with(nil, inv[crashes[i]], rapid.SampledFrom([]string{"panic", "panicstr"}).Draw(c.T, "kind"))
			}

			var out *kit.Outcome

			r := kit.NewVFS(true)

			if i == 0 {
				out = session.Run(kit.RunOpts{R: core.Forest{R: r}})
			} else {
				strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
				text += fmt.Sprintf("\nresumed at %q with %v", at, strategy)
				out = session.Resume(dir, saved, strategy, kit.RunOpts{R: core.Forest{R: r}})
			}

			if out.Panic != nil {
				c.Bad(text, fmt.Sprintf("session %d panicked: %v", i, out.Panic))
			}

			end := len(inv)
			if !last {
				end = crashes[i] + 1
			}

			if d := kit.FirstDiff(inv[start:end], out.Invoked()); d != "" {
				c.Bad(text, fmt.Sprintf("session %d: %s", i, d))
			}

			if last {
				if out.Err != nil {
					c.Bad(text, fmt.Sprintf("last session failed: %v", out.Err))
				}

				break
			}

			var err error
			if saved, err = kit.SavedState(out, r); err != nil {
				c.Bad(text, fmt.Sprintf("session %d: %v", i, err))
			}

			start, at = crashes[i], inv[crashes[i]]
		}

		c.Case(sessions >= 3 && spread, text)
		c.Class(cs.Hib != nil, "hibernation")
		c.Class(cs.Filter != nil, "filter")
		c.Class(cs.Sample != nil, "sampling")
	})
}
