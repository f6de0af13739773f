package pub_test

import (
	"testing"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// mixed tells whether the filter of the case passes some nodes, but not all.
func mixed(cs *kit.Case, want *kit.Expected) bool {
	out := want.Metrics[enums.MetricNoFilesFilteredOut] + want.Metrics[enums.MetricNoDirectoriesFilteredOut]

	return out > 0 && len(want.Invoked()) > 0
}

func filterCheck(t *testing.T, rule string, cases int, gen func(c *kit.C, cs *kit.Case, names []string)) {
	t.Helper()
	kit.Check(t, kit.Opt{Rule: rule + "; non-trivial: it passes some of the subscribed nodes but not all", Cases: cases},
		func(c *kit.C) {
			cs := kit.GenBase(c.T, anyRoot)
			gen(c, cs, cs.Names())

			if rapid.IntRange(0, 5).Draw(c.T, "limited") == 0 {
				kit.GenDepth(c.T, cs)
			}

			want := cs.Model()
			c.Case(mixed(cs, want), cs)
			c.Class(mixed(cs, want) && cs.Filter.Negate, "negated")

			got := cs.Run()
			if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsEvents, kit.AsErr); d != "" {
				c.Bad(cs, d)
			}
		})
}

func TestC05(t *testing.T) {
	filterCheck(t, "random tree with a glob, regex or custom node filter of any scope, negated or not, "+
		"any not-applicable setting", 4000,
		func(c *kit.C, cs *kit.Case, names []string) {
			cs.Filter = kit.GenSimpleFilter(c.T, names, "glob", "regex", "custom")
			// names aside, what a node filter does not depend on
			for _, sc := range []enums.FilterScope{enums.ScopeTree, enums.ScopeTop, enums.ScopeLeaf, enums.ScopeIntermediate} {
				c.Class(cs.Filter.Scope == sc, sc.String())
			}
		})
}

func TestC06(t *testing.T) {
	filterCheck(t, "random tree with an extended glob: directory glob, optional exclusion, 1 to 4 suffixes "+
		"of mixed case, exclusions among them", 5000,
		func(c *kit.C, cs *kit.Case, names []string) {
			cs.Filter = kit.GenGlobEx(c.T, names)

			if rapid.IntRange(0, 2).Draw(c.T, "force") > 0 {
				cs.Sub = rapid.SampledFrom([]enums.Subscription{
					enums.SubscribeFiles, enums.SubscribeUniversal,
				}).Draw(c.T, "sub2")
			}
		})
}

func TestC07(t *testing.T) {
	filterCheck(t, "random tree with a poly filter: glob, regex or extended glob for files, glob or regex for directories, "+
		"or a client defined filter for one of them, "+
		"of any scope", 5000,
		func(c *kit.C, cs *kit.Case, names []string) {
			cs.Filter = kit.GenPoly(c.T, names, true)

			if rapid.IntRange(0, 2).Draw(c.T, "force") > 0 {
				cs.Sub = rapid.SampledFrom([]enums.Subscription{
					enums.SubscribeFiles, enums.SubscribeUniversal,
				}).Draw(c.T, "sub2")
			}
		})
}

func TestC08(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree, directories-with-files, a child filter, with or without a node filter; " +
			"non-trivial: the child filter keeps some and drops some",
		Cases: 4000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		cs.Sub = enums.SubscribeDirectoriesWithFiles
		names := cs.Names()
		cs.Child = genChild(c, names)

		if rapid.Bool().Draw(c.T, "node") {
			cs.Filter = kit.GenSimpleFilter(c.T, names, "glob", "regex", "custom")
		}

		if rapid.IntRange(0, 5).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		want := cs.Model()
		c.Case(want.Metrics[enums.MetricNoChildFilesFound] > 0 &&
			want.Metrics[enums.MetricNoChildFilesFilteredOut] > 0, cs)
		c.Class(cs.Filter != nil, "with a node filter")

		got := cs.Run()
		if d := kit.Diff(want, got, kit.AsOrder, kit.AsKids, kit.AsSnaps, kit.AsErr, kit.AsMetrics); d != "" {
			c.Bad(cs, d)
		}
	})
}

func TestC09(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "random tree with slice sampling; non-trivial: the sample leaves something out",
		Cases: 4000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		cs.ReverseFS = false
		cs.Sample = genSample(c)

		if rapid.IntRange(0, 5).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		want := cs.Model()
		plain := *cs
		plain.Sample = nil
		c.Case(len(want.Order) < len(plain.Model().Order), cs)
		c.Class(cs.Sample.Reverse, "in reverse")
		c.Class(cs.Sub == enums.SubscribeDirectoriesWithFiles, "directories with files")

		got := cs.Run()
		if d := kit.Diff(want, got, kit.AsOrder, kit.AsKids, kit.AsSnaps, kit.AsEvents, kit.AsErr, kit.AsMetrics); d != "" {
			c.Bad(cs, d)
		}
	})
}
