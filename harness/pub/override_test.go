package pub_test

import (
	"fmt"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// override draws settings that are given to a resume, and what these make of
// the settings of the case.
func override(c *kit.C, cs *kit.Case) (settings []pref.Option, merged *kit.Case, n int) {
	maybe := func(label string) bool {
		on := rapid.IntRange(0, 2).Draw(c.T, "override "+label) == 0
		if on {
			n++
		}

		return on
	}

	m := *cs

	if !cs.NoRecurse && maybe("depth") {
		ov := &kit.Case{Root: cs.Root}
		kit.GenDepth(c.T, ov)

		if ov.Depth > 0 {
			m.Depth = ov.Depth
		}

		m.NoRecurse = ov.NoRecurse
		settings = append(settings, ov.Options()...)
	}

	if maybe("sort") {
		m.FilesFirst = rapid.Bool().Draw(c.T, "files first now")
		by := rapid.Bool().Draw(c.T, "case sensitive now")

		if !cs.CaseSens || cs.CaseBy { // there's no hook
			m.CaseSens, m.CaseBy = by, by
		}

		settings = append(settings, age.WithSortBehaviour(&pref.SortBehaviour{SortFilesFirst: m.FilesFirst, IsCaseSensitive: by}))
	}

	if maybe("sub path") {
		m.TrimSep = rapid.Bool().Draw(c.T, "trim now")
		settings = append(settings, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: !m.TrimSep}))
	}

	if maybe("filter") {
		ov := &kit.Case{}
		names := cs.Names()

		if rapid.Bool().Draw(c.T, "node filter now") {
			ov.Filter = kit.GenFilter(c.T, names, true)
		}

		if cs.Sample != nil || rapid.IntRange(0, 2).Draw(c.T, "sample now") == 0 {
			ov.Sample = genSample(c)

			if ov.Filter == nil && cs.Root.Dir && cs.Sub != enums.SubscribeDirectoriesWithFiles && rapid.Bool().Draw(c.T, "filter sample now") {
				ov.Sample = genFilterSample(c, names)
			}
		}

		if cs.Sub == enums.SubscribeDirectoriesWithFiles && (ov.Filter != nil || rapid.Bool().Draw(c.T, "child filter now")) {
			ov.Child = genChild(c, names)
		}

		m.Filter, m.Child, m.Sample = ov.Filter, ov.Child, ov.Sample
		settings = append(settings, age.WithFilter(&pref.FilterOptions{}))
		settings = append(settings, ov.Options()...)
	}

	return settings, &m, n
}

// TestC36 resumes with settings that differ from those of the first session.
func TestC36(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: "a traversal with any combination of depth limit, filters, sampling, sort and sub path options, that panics at a node, then resumed, by " +
			"either strategy, with others of these; non-trivial: what is left differs from what it is under the settings saved",
		Cases: 3000,
	}, func(c *kit.C) {
		cs, _ := genCombo(c, crashTree)
		cs.Actions, cs.Hib = nil, nil
		settings, merged, n := override(c, cs)

		if merged.Sample != nil {
			cs.ReverseFS, merged.ReverseFS = false, false
		}

		was, full := cs.Model(), merged.Model()
		delivered := map[string]bool{}

		for _, p := range full.Invoked() {
			delivered[p] = true
		}

		both := []string{}

		for _, p := range was.Invoked() {
			if delivered[p] {
				both = append(both, p)
			}
		}

		if len(both) == 0 {
			return
		}

		at := pick(c, both, "panics at")
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		_, saved := crash(c, cs, at, kit.RunOpts{})
		want := rest(full, at)
		got := cs.Resume(dir, saved, strategy, kit.RunOpts{Extra: settings})
		what := fmt.Sprintf("%v\npanics at %q, then resumed by %v as if\n%v", cs, at, strategy, merged)

		old := &kit.Outcome{Events: rest(was, at).Events}
		c.Case(n > 0 && kit.Diff(want, old, kit.AsOrder, kit.AsSnaps, kit.AsKids) != "", what)
		c.Class(strategy == enums.ResumeStrategySpawn, "spawn")

		if strategy == enums.ResumeStrategySpawn {
			spawned(got)
			spawned(&kit.Outcome{Events: want.Events})
		}

		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
			c.Bad(what, d)
		}

		if sampleFiltered(cs) || sampleFiltered(merged) {
			return
		}

		if strategy == enums.ResumeStrategySpawn {
			for k, v := range cutMetrics(cs, at) {
				want.Metrics[k] += v
			}
		}

		if d := kit.MetricsDiff(want.Metrics, got.Metrics); d != "" {
			c.Bad(what, "metrics: "+d)
		}
	})
}
