package pub_test

import (
	"fmt"
	"reflect"
	"regexp"
	"testing"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// genFilterSample draws a sample with a filter the code accepts: a quantity
// must be given for what the filter is scoped to.
func genFilterSample(c *kit.C, names []string) *kit.SampleSpec {
	s := genSample(c)
	s.Filter = kit.GenSimpleFilter(c.T, names, "glob", "regex", "glob", "custom")
	s.Filter.IfNA = 0
	s.Filter.Scope = rapid.SampledFrom([]enums.FilterScope{
		enums.ScopeFile, enums.ScopeDirectory,
	}).Draw(c.T, "samplescope")

	if s.Filter.Scope == enums.ScopeFile && s.Files == 0 {
		s.Files = 2
	}

	if s.Filter.Scope == enums.ScopeDirectory && s.Dirs == 0 {
		s.Dirs = 2
	}

	return s
}

func TestC10(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree with filter sampling by glob, regex or custom filter, scoped to files or directories; " +
			"non-trivial: the root is delivered and the sample leaves something out",
		Cases: 5000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, kit.TreeGen{MaxDepth: 4, MaxKids: 7, MaxNodes: 40})
		cs.ReverseFS = false
		cs.Sample = genFilterSample(c, cs.Names())

		if rapid.IntRange(0, 5).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		want := cs.Model()
		plain := *cs
		plain.Sample = nil
		c.Case(len(want.Order) < len(plain.Model().Order) && len(want.Order) > 1, cs)
		c.Class(cs.Sample.Filter.Scope == enums.ScopeFile, "files")
		c.Class(cs.Sample.Filter.Scope == enums.ScopeDirectory, "directories")

		got := cs.Run()
		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsEvents, kit.AsErr); d != "" {
			c.Bad(cs, d)
		}
	})
}

func genTrigger(c *kit.C, names []string, desc string) *kit.FilterSpec {
	var f *kit.FilterSpec

	switch rapid.IntRange(0, 9).Draw(c.T, "trigger") {
	case 0:
		f = kit.GenGlobEx(c.T, names)
	case 1:
		f = kit.GenPoly(c.T, names, false)
		// descriptions of poly filters are made up of those of their parts
		f.File.Desc, f.Dir.Desc = desc+"-file", desc+"-dir"
	default:
		f = kit.GenSimpleFilter(c.T, names, "glob", "regex")
	}

	if rapid.IntRange(0, 2).Draw(c.T, "exact") > 0 && f.Kind != "poly" && f.Kind != "globex" {
		// a trigger which only fires for one name
		f.Kind, f.Negate = "glob", false
		f.Pattern = kit.EscapeGlob(rapid.SampledFrom(names).Draw(c.T, "triggername"))
		f.IfNA = 2
	}

	f.Desc = desc

	return f
}

func genHib(c *kit.C, names []string) *kit.HibSpec {
	h := &kit.HibSpec{}

	switch rapid.IntRange(0, 3).Draw(c.T, "hibkind") {
	case 0:
		h.Wake = genTrigger(c, names, "wake")
	case 1:
		h.Sleep = genTrigger(c, names, "sleep")
	default:
		h.Wake = genTrigger(c, names, "wake")
		h.Sleep = genTrigger(c, names, "sleep")
	}

	h.ExclusiveWake = rapid.Bool().Draw(c.T, "exclusivewake")
	h.InclusiveSleep = rapid.Bool().Draw(c.T, "inclusivesleep")
	h.Whole = rapid.Bool().Draw(c.T, "whole")

	return h
}

func TestC11(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree with a wake and/or sleep trigger (any kind of filter, aimed at present names), inclusive or exclusive; " +
			"non-trivial: some subscribed nodes are delivered and some are not",
		Cases: 5000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		cs.Hib = genHib(c, cs.Names())

		if rapid.IntRange(0, 5).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		want := cs.Model()
		plain := *cs
		plain.Hib = nil
		n, all := len(want.Invoked()), len(plain.Model().Invoked())
		c.Case(n > 0 && n < all, cs)

		woke, slept := len(kit.Filter(want.Events, "wake")) > 0, len(kit.Filter(want.Events, "sleep")) > 0
		c.Class(woke && slept, "woke and slept")
		c.Class(cs.Hib.Wake != nil && !woke, "never woke")

		got := cs.Run()
		if cs.Hib.Wake != nil && cs.Hib.Wake.Kind == "poly" || cs.Hib.Sleep != nil && cs.Hib.Sleep.Kind == "poly" {
			// the description a poly trigger reports is left open
			blank(want.Events)
			blank(got.Events)
		}

		if d := kit.Diff(want, got, kit.AsHib, kit.AsSnaps, kit.AsKids, kit.AsErr, kit.AsMetrics); d != "" {
			c.Bad(cs, d)
		}
	})
}

func blank(evs []kit.Event) {
	for i, e := range evs {
		if e.Kind == "wake" || e.Kind == "sleep" {
			evs[i].Path = ""
		}
	}
}

// genCombo draws any combination of features.
func genCombo(c *kit.C, g kit.TreeGen) (*kit.Case, int) {
	cs := kit.GenBase(c.T, g)
	names := cs.Names()
	n := 0
	maybe := func(label string, odds int) bool {
		on := rapid.IntRange(1, odds).Draw(c.T, label) == 1
		if on {
			n++
		}

		return on
	}

	if maybe("limited", 4) {
		kit.GenDepth(c.T, cs)
	}

	filtered := false

	if maybe("filtered", 2) {
		cs.Filter = kit.GenFilter(c.T, names, true)
		filtered = true
	}

	if maybe("sampled", 3) {
		cs.ReverseFS = false

		if !filtered && cs.Root.Dir && rapid.Bool().Draw(c.T, "filtersample") {
			cs.Sample = genFilterSample(c, names)
			filtered = true
		} else {
			cs.Sample = genSample(c)
		}
	}

	if maybe("hibernating", 3) {
		cs.Hib = genHib(c, names)
		for _, f := range []**kit.FilterSpec{&cs.Hib.Wake, &cs.Hib.Sleep} {
			if *f != nil && (*f).Kind == "poly" {
				*f = kit.GenSimpleFilter(c.T, names, "glob", "regex")
				(*f).Desc = "trigger"
			}
		}
	}

	if cs.Sub == enums.SubscribeDirectoriesWithFiles {
		if filtered && cs.Sample != nil && cs.Sample.Filter != nil {
			// children with a sample filter are left open
			cs.Sub = enums.SubscribeUniversal
		} else if filtered || maybe("child", 2) {
			// a node filter on its own leaves the children out
			cs.Child = genChild(c, names)
		}
	}

	if maybe("acting", 3) {
		genActions(c, cs, 3, "skipdir", "skipdir", "skipall", "error")
	}

	if maybe("faults", 4) {
		genReadFaults(c, cs)
	}

	return cs, n
}

const ruleCombo = "random tree with any combination of depth limit, node filter, child filter, slice or filter sampling, hibernation, " +
	"scripted callback and unreadable directories; "

func TestC15(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleCombo + "non-trivial: at least two different metrics are above zero", Cases: 4000},
		func(c *kit.C) {
			cs, _ := genCombo(c, anyRoot)
			want := cs.Model()

			if cs.Sample != nil && cs.Sample.Filter != nil {
				cs.Sample.Filter = nil // its effect on the child metrics is left open
				want = cs.Model()
			}

			n := 0

			for _, v := range want.Metrics {
				if v > 0 {
					n++
				}
			}

			c.Case(n >= 2, cs)

			for _, k := range kit.MetricKinds {
				c.Class(want.Metrics[k] > 0, fmt.Sprintf("metric %d", k))
			}

			got := cs.Run()
			if d := kit.Diff(want, got, kit.AsMetrics, kit.AsEnd); d != "" {
				c.Bad(cs, d)
			}

			// and without reference to the model
			count := map[enums.Metric]uint{}

			for _, e := range got.Of("invoke") {
				if e.Snap.Dir {
					count[enums.MetricNoDirectoriesInvoked]++
				} else {
					count[enums.MetricNoFilesInvoked]++
				}

				count[enums.MetricNoChildFilesFound] += uint(len(e.Snap.Children))
			}

			for k, v := range count {
				if got.Metrics[k] != v {
					c.Fatalf("%v is %d, but %d were delivered\ncase: %v", k, got.Metrics[k], v, cs)
				}
			}
		})
}

func TestC31(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleCombo + "non-trivial: at least two features are in use", Cases: 5000},
		func(c *kit.C) {
			cs, n := genCombo(c, anyRoot)
			c.Case(n >= 2, cs)
			c.Class(n >= 3, "3 or more features")
			c.Class(cs.Filter != nil && cs.Sample != nil, "filter and sampling")
			c.Class(cs.Filter != nil && cs.Hib != nil, "filter and hibernation")
			c.Class(cs.Hib != nil && cs.Sample != nil, "hibernation and sampling")

			want, got := cs.Model(), cs.Run()
			if d := kit.Diff(want, got, kit.AsEvents, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
				c.Bad(cs, d)
			}

			if cs.Sample == nil || cs.Sample.Filter == nil {
				if d := kit.Diff(want, got, kit.AsMetrics); d != "" {
					c.Bad(cs, d)
				}
			}
		})
}

// same compares two outcomes in every respect.
func same(a, b *kit.Outcome) string {
	if (a.Panic == nil) != (b.Panic == nil) {
		return "one of them panicked"
	}

	want := &kit.Expected{Events: a.Events, Metrics: a.Metrics, Err: nil}
	if d := kit.Diff(want, b, kit.AsEvents, kit.AsSnaps, kit.AsKids, kit.AsMetrics); d != "" {
		return d
	}

	if (a.Err == nil) != (b.Err == nil) || errText(a.Err) != errText(b.Err) {
		return "errors differ: " + errText(a.Err) + " / " + errText(b.Err)
	}

	if !reflect.DeepEqual(a.FS.Reads, b.FS.Reads) {
		return "what was read differs: " + kit.FirstDiff(a.FS.Reads, b.FS.Reads)
	}

	return ""
}

func errText(err error) string {
	if err == nil {
		return "none"
	}

	return stamp.ReplaceAllString(err.Error(), "<time>")
}

// stamp is the point in time in the name of a file with saved state.
var stamp = regexp.MustCompile(`\d{4}-\d\d-\d\d_\d\d-\d\d-\d\d`)
