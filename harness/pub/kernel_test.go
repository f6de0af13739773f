package pub_test

import (
	"context"
	"fmt"
	"reflect"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

var anyRoot = kit.TreeGen{MaxDepth: 5, MaxKids: 6, MaxNodes: 40, RootFile: true}

// rawRoot may also have names that are not text.
var rawRoot = kit.TreeGen{MaxDepth: 5, MaxKids: 6, MaxNodes: 40, RootFile: true, Bytes: true}

const ruleTree = "random tree (up to 40 items, 5 levels, odd names, sometimes a single file), subscription, " +
	"sort and sub path options, relative or absolute root, listing order; non-trivial: at least 3 items in 2 levels"

func treeCase(c *kit.C, g kit.TreeGen) *kit.Case {
	cs := kit.GenBase(c.T, g)
	f, d := cs.Root.Count()
	c.Case(f+d >= 3 && cs.Root.Height() >= 2, cs)
	c.Class(cs.Root.Height() >= 3, "deep")
	c.Class(!cs.Root.Dir, "root is a file")
	c.Class(cs.Sub == enums.SubscribeFiles, "files")
	c.Class(cs.Sub == enums.SubscribeUniversal, "universal")

	return cs
}

func verify(c *kit.C, cs *kit.Case, aspects ...kit.Aspect) (*kit.Expected, *kit.Outcome) {
	want, got := cs.Model(), cs.Run()
	if d := kit.Diff(want, got, aspects...); d != "" {
		c.Bad(cs, d)
	}

	return want, got
}

func TestC01(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleTree, Cases: 2500}, func(c *kit.C) {
		cs := treeCase(c, rawRoot)

		_, got := verify(c, cs, kit.AsSet, kit.AsErr)
		if !got.Complete {
			c.Bad(cs, "traversal is not complete")
		}
	})
}

// large is well beyond what the general generator makes, in depth and width.
func large(c *kit.C, chains, widths int) *kit.Case {
	cs := &kit.Case{Tree: "root", Sub: rapid.SampledFrom(kit.Subs).Draw(c.T, "sub")}
	cs.Root = &kit.Entry{Name: "root", Dir: true}
	chain := rapid.IntRange(1, chains).Draw(c.T, "chain")
	width := rapid.IntRange(1, widths).Draw(c.T, "width")
	at := rapid.IntRange(0, chain).Draw(c.T, "at")

	if rapid.Bool().Draw(c.T, "at the limits") {
		chain, width = chains+1-chain, widths+1-width
	}

	cur := cs.Root
	for i := 0; i < chain; i++ {
		if i == at {
			fill(cur, width)
		}

		k := &kit.Entry{Name: "d", Dir: true}
		cur.Kids = append(cur.Kids, k)
		cur = k
	}

	if at >= chain {
		fill(cur, width)
	}

	c.Case(true, map[string]any{"sub": cs.Sub, "chain": chain, "width": width, "at": at})

	return cs
}

const ruleLarge = "chains up to 300 levels and directories of up to 1500 items; all non-trivial"

func verifyLarge(c *kit.C, want *kit.Expected, got *kit.Outcome, aspects ...kit.Aspect) {
	if d := kit.Diff(want, got, aspects...); d != "" {
		if len(d) > 2000 {
			d = d[:2000]
		}

		c.Fatalf("%s", d)
	}
}

func TestC01Large(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleLarge, Cases: 30}, func(c *kit.C) {
		cs := large(c, 300, 1500)
		verifyLarge(c, cs.Model(), cs.Run(), kit.AsOrder, kit.AsErr)
	})
}

func TestC03Large(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleLarge, Cases: 30}, func(c *kit.C) {
		cs := large(c, 300, 1500)
		verifyLarge(c, cs.Model(), cs.Run(), kit.AsSnaps, kit.AsKids)
	})
}

func TestC12Large(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleLarge, Cases: 20}, func(c *kit.C) {
		cs := large(c, 300, 1500)
		verifyLarge(c, cs.Model(), cs.Run(), kit.AsEvents)
	})
}

// TestC15Large goes beyond the range of 16 bits.
func TestC15Large(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "a directory of 76000 to 77000 items, a seventh of them directories, filtered or not; all non-trivial",
		Cases: 10,
	}, func(c *kit.C) {
		cs := &kit.Case{Tree: "root", Sub: enums.SubscribeUniversal}
		cs.Root = &kit.Entry{Name: "root", Dir: true}
		n := rapid.IntRange(76000, 77000).Draw(c.T, "items")
		pattern := rapid.SampledFrom([]string{"", "*0", "f*"}).Draw(c.T, "pattern")
		want := map[enums.Metric]uint{}

		if pattern != "" {
			cs.Filter = &kit.FilterSpec{
				Kind: "glob", Desc: "large", Pattern: pattern, Negate: rapid.Bool().Draw(c.T, "negate"), Scope: enums.ScopeAll,
			}
		}

		count := func(e *kit.Entry) {
			passes := pattern == "" || kit.MatchName("glob", pattern, e.Name) != cs.Filter.Negate

			switch {
			case e.Dir && passes:
				want[enums.MetricNoDirectoriesInvoked]++
			case e.Dir:
				want[enums.MetricNoDirectoriesFilteredOut]++
			case passes:
				want[enums.MetricNoFilesInvoked]++
			default:
				want[enums.MetricNoFilesFilteredOut]++
			}
		}

		count(cs.Root)

		for i := range n {
			e := &kit.Entry{Name: fmt.Sprintf("f%06d", i), Dir: i%7 == 3}
			cs.Root.Kids = append(cs.Root.Kids, e)
			count(e)
		}

		c.Case(true, fmt.Sprintf("%d items, %v", n, cs.Filter))

		calls := uint(0)
		result, err := age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Subscription: cs.Sub,
			Head: pref.Head{
				Handler:   func(core.Servant) error { calls++; return nil },
				GetForest: func(string) *core.Forest { return &core.Forest{T: cs.FS(), R: kit.NewVFS(true)} },
			},
			Tree: cs.Tree,
		}, cs.Options()...)).Navigate(context.Background())

		if err != nil {
			c.Fatalf("%d items, %v: error: %v", n, cs.Filter, err)
		}

		if calls != want[enums.MetricNoDirectoriesInvoked]+want[enums.MetricNoFilesInvoked] {
			c.Fatalf("%d items, %v: delivered %d", n, cs.Filter, calls)
		}

		if d := kit.MetricsDiff(want, kit.MetricsOf(result)); d != "" {
			c.Fatalf("%d items, %v, delivered %d: %s", n, cs.Filter, calls, d)
		}
	})
}

func fill(e *kit.Entry, n int) {
	for i := 0; i < n; i++ {
		name := "f" + string(rune('a'+i%26)) + string(rune('a'+i/26%26)) + string(rune('a'+i/676))
		e.Kids = append(e.Kids, &kit.Entry{Name: name, Dir: i%7 == 3})
	}
}

func TestC02(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleTree, Cases: 2500}, func(c *kit.C) {
		cs := treeCase(c, rawRoot)
		verify(c, cs, kit.AsOrder)
		// the listing order of the file system is of no consequence
		cs.ReverseFS = !cs.ReverseFS
		verify(c, cs, kit.AsOrder)
	})
}

func TestC03(t *testing.T) {
	kit.Check(t, kit.Opt{Rule: ruleTree, Cases: 2500}, func(c *kit.C) {
		cs := treeCase(c, rawRoot)
		if rapid.IntRange(0, 3).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		verify(c, cs, kit.AsSnaps, kit.AsKids)
	})
}

// TestC03Kept keeps the nodes delivered.
func TestC03Kept(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  ruleCombo + "the callback keeps the nodes and attaches something to each; non-trivial: 3 nodes or more are delivered",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, _ := genCombo(c, anyRoot)

		type kept struct {
			node *core.Node
			snap *kit.Snap
		}

		var all []kept

		by := map[string]*core.Node{}
		wrong := ""

		cs.Run(kit.RunOpts{OnNode: func(servant core.Servant) {
			n := servant.Node()

			if n.Extension.Custom != nil {
				wrong = fmt.Sprintf("%q is delivered with %v attached", n.Path, n.Extension.Custom)
			}

			for up := n.Parent; up != nil; up = up.Parent {
				if d := by[up.Path]; d == nil && up.Extension.Custom != nil || d != nil && (d != up || up.Extension.Custom != up.Path) {
					wrong = fmt.Sprintf("%q is delivered as an item of %q, but not of the node delivered for that, or what was attached is gone: %v",
						n.Path, up.Path, up.Extension.Custom)
				}
			}

			n.Extension.Custom = n.Path
			by[n.Path] = n
			all = append(all, kept{n, kit.SnapOf(n)})
		}})

		c.Case(len(all) >= 3, cs)

		if wrong != "" {
			c.Bad(cs, wrong)
		}

		for _, k := range all {
			if now := kit.SnapOf(k.node); !reflect.DeepEqual(k.snap, now) || k.node.Extension.Custom != k.node.Path {
				c.Bad(cs, fmt.Sprintf("changed after it was delivered: %s, children %q; now %s, children %q, attached: %v",
					snapText(k.snap), k.snap.Children, snapText(now), now.Children, k.node.Extension.Custom))
			}
		}
	})
}

func TestC04(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "as C01 with a depth limit and/or no-recurse; non-trivial: the limit cuts something off",
		Cases: 3000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, rawRoot)
		kit.GenDepth(c.T, cs)

		limit := int(min(cs.Depth, 1<<20))
		if cs.NoRecurse {
			limit = 1
		}

		c.Case(cs.Root.Height() > limit, cs)
		c.Class(limit > 1 && cs.Root.Height() > limit, "limit above 1 that cuts")

		_, got := verify(c, cs, kit.AsOrder, kit.AsSnaps, kit.AsEvents, kit.AsErr)

		// and it's the unlimited traversal, less what is deeper
		free := *cs
		free.Depth, free.NoRecurse = 0, false

		var kept []string

		all := free.Run()
		for _, e := range all.Of("invoke") {
			if e.Snap.Depth <= limit {
				kept = append(kept, e.Path)
			}
		}

		if d := kit.FirstDiff(kept, got.Invoked()); d != "" {
			c.Bad(cs, "differs from the unlimited traversal cut at the limit: "+d)
		}
	})
}

// genActions scripts reactions of the callback at some nodes.
func genActions(c *kit.C, cs *kit.Case, most int, kinds ...string) {
	paths := cs.Paths(nil)
	cs.Actions = map[string]string{}

	for i := rapid.IntRange(1, most).Draw(c.T, "nactions"); i > 0; i-- {
		p := rapid.SampledFrom(paths).Draw(c.T, "at")
		cs.Actions[p] = rapid.SampledFrom(kinds).Draw(c.T, "action")
	}
}

func TestC12(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree, options, depth limits, scripted skip/error at some nodes, unreadable directories; " +
			"non-trivial: at least 3 items in 2 levels and an early exit or limit",
		Cases: 3000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		if rapid.Bool().Draw(c.T, "limited") {
			kit.GenDepth(c.T, cs)
		}

		if rapid.IntRange(0, 2).Draw(c.T, "acting") > 0 {
			genActions(c, cs, 3, "skipdir", "skipdir", "skipall", "error")
		}

		if rapid.IntRange(0, 4).Draw(c.T, "rootstat") == 0 {
			cs.RootStat = true
		}

		genReadFaults(c, cs)

		f, d := cs.Root.Count()
		c.Case(f+d >= 3 && cs.Root.Height() >= 2 && (len(cs.Actions) > 0 || cs.Depth > 0 || cs.NoRecurse), cs)

		_, got := verify(c, cs, kit.AsEvents, kit.AsEnd)

		if d := kit.MetricsDiff(got.Metrics, got.EndSeen); d != "" {
			c.Bad(cs, "end notification and result differ: "+d)
		}

		nesting(c, cs, got)
	})
}

// nesting checks the brackets without reference to the model.
func nesting(c *kit.C, cs *kit.Case, got *kit.Outcome) {
	var stack []string

	for i, e := range got.Events {
		switch e.Kind {
		case "begin":
			if i != 0 {
				c.Bad(cs, "begin is not the first thing raised")
			}
		case "end":
			if i != len(got.Events)-1 {
				c.Bad(cs, "end is not the last thing raised")
			}
		case "descend":
			stack = append(stack, e.Path)
		case "ascend":
			if len(stack) == 0 || stack[len(stack)-1] != e.Path {
				c.Bad(cs, "ascend "+e.Path+" does not match the last descend")
			}

			stack = stack[:len(stack)-1]
		case "invoke":
			if len(stack) == 0 || stack[len(stack)-1] != e.Path {
				c.Bad(cs, "callback for "+e.Path+" outside of its descend and ascend")
			}
		}
	}

	if len(stack) > 0 {
		c.Bad(cs, "descend without ascend: "+stack[len(stack)-1])
	}
}

func TestC13(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree and options, callback scripted to return error, skip-dir or skip-all at 1 to 5 nodes; " +
			"non-trivial: a scripted node is delivered and something would have followed",
		Cases: 3500,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		if rapid.IntRange(0, 3).Draw(c.T, "limited") == 0 {
			kit.GenDepth(c.T, cs)
		}

		genActions(c, cs, 5, "skipdir", "skipdir", "skipdir", "skipall", "error")

		want := cs.Model()
		plain := *cs
		plain.Actions = nil
		n := len(plain.Model().Invoked())

		c.Case(len(want.Invoked()) < n, cs)
		c.Class(len(want.Invoked()) < n && want.Err != nil, "aborted by an error")
		c.Class(len(want.Invoked()) < n && want.Err == nil, "skipped")

		got := cs.Run()
		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsErr, kit.AsMetrics); d != "" {
			c.Bad(cs, d)
		}

		if want.Err == nil && got.Err != nil {
			c.Bad(cs, "a skip is not an error")
		}
	})
}

// genReadFaults makes some of the directories unreadable.
func genReadFaults(c *kit.C, cs *kit.Case) {
	dirs := cs.Paths(func(e *kit.Entry) bool { return e.Dir })
	if len(dirs) == 0 {
		return
	}

	for i := rapid.IntRange(0, 3).Draw(c.T, "nfaults"); i > 0; i-- {
		p := rapid.SampledFrom(dirs).Draw(c.T, "faulty")
		if rapid.IntRange(0, 3).Draw(c.T, "partial") == 0 {
			if cs.Partial == nil {
				cs.Partial = map[string]int{}
			}

			cs.Partial[p] = rapid.IntRange(0, 3).Draw(c.T, "entries")
		} else {
			cs.ReadErr = append(cs.ReadErr, p)
		}
	}
}

func TestC14(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree and options; up to 3 unreadable or partly readable directories, items without information, " +
			"a root that can't be examined, a scripted skip handler and fault handler; non-trivial: a fault or a reply other than continue is in play",
		Cases: 4000,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		genReadFaults(c, cs)

		for i := rapid.IntRange(0, 2).Draw(c.T, "ninfo"); i > 0; i-- {
			cs.InfoErr = append(cs.InfoErr, rapid.SampledFrom(cs.Paths(nil)).Draw(c.T, "noinfo"))
		}

		if rapid.IntRange(0, 7).Draw(c.T, "rootstat") == 0 {
			cs.RootStat = true
			cs.Fault = rapid.SampledFrom([]string{"", "swallow", "replace"}).Draw(c.T, "fault")
		}

		dirs := cs.Paths(func(e *kit.Entry) bool { return e.Dir })
		if len(dirs) > 0 && rapid.Bool().Draw(c.T, "ask") {
			cs.AskOn = true
			cs.Ask = map[string]string{}

			for i := rapid.IntRange(0, 3).Draw(c.T, "nreplies"); i > 0; i-- {
				cs.Ask[rapid.SampledFrom(dirs).Draw(c.T, "asked")] = rapid.SampledFrom(
					[]string{"all", "all0", "dir", "dir0", "err"}).Draw(c.T, "reply")
			}

			cs.AskErr = rapid.SampledFrom([]string{"", "", "none", "all", "dir", "dir0", "err"}).Draw(c.T, "replyerr")
		}

		c.Case(len(cs.ReadErr)+len(cs.Partial)+len(cs.InfoErr)+len(cs.Ask) > 0 || cs.RootStat, cs)
		c.Class(cs.RootStat, "root can't be examined")
		c.Class(cs.AskOn && len(cs.ReadErr) > 0, "skip handler and read error")

		want, got := cs.Model(), cs.Run()
		aspects := []kit.Aspect{kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr, kit.AsMetrics}

		if cs.AskOn {
			aspects = append(aspects, kit.AsAsks)
		}

		if d := kit.Diff(want, got, aspects...); d != "" {
			c.Bad(cs, d)
		}

		if cs.RootStat && cs.Fault == "" && len(got.Faults) != 1 {
			c.Bad(cs, "fault handler was not called exactly once")
		}
	})
}

func TestC33(t *testing.T) {
	clutter := anyRoot
	clutter.DSStore = true

	kit.Check(t, kit.Opt{
		Rule: "random tree with .DS_Store files, traversed with and without them, with sampling, child filters or node filters; " +
			"non-trivial: there is clutter",
		Cases: 2500,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, clutter)
		cs.ReverseFS = false
		names := append(cs.Names(), ".DS_Store")

		switch rapid.IntRange(0, 4).Draw(c.T, "feature") {
		case 1:
			cs.Sample = genSample(c)
		case 2:
			cs.Filter = kit.GenSimpleFilter(c.T, names, "glob", "regex")
			if cs.Sub == enums.SubscribeDirectoriesWithFiles {
				cs.Sub = enums.SubscribeFiles
			}
		case 3:
			cs.Sub = enums.SubscribeDirectoriesWithFiles
			cs.Child = genChild(c, names)
		}

		clean := *cs
		clean.Root = strip(cs.Root)

		n := 0
		cs.Root.Walk(cs.Tree, func(_ string, _ int, e *kit.Entry) {
			if e.Name == ".DS_Store" {
				n++
			}
		})
		c.Case(n > 0, cs)
		c.Class(n > 0 && cs.Sample != nil, "clutter and sampling")

		a, b := cs.Run(), clean.Run()
		want := clean.Model()

		for _, o := range []*kit.Outcome{a, b} {
			if d := kit.Diff(want, o, kit.AsEvents, kit.AsSnaps, kit.AsKids, kit.AsMetrics, kit.AsErr); d != "" {
				c.Bad(cs, d)
			}
		}
	})
}

func strip(e *kit.Entry) *kit.Entry {
	r := &kit.Entry{Name: e.Name, Dir: e.Dir, Size: e.Size}

	for _, k := range e.Kids {
		if k.Name != ".DS_Store" {
			r.Kids = append(r.Kids, strip(k))
		}
	}

	return r
}

func genSample(c *kit.C) *kit.SampleSpec {
	quantity := func(most int, what string) uint {
		if rapid.IntRange(0, 7).Draw(c.T, "plenty") == 0 {
			return rapid.SampledFrom(kit.Large).Draw(c.T, what)
		}

		return uint(kit.Upto(c.T, what, 0, most, 300))
	}

	return &kit.SampleSpec{
		Files:   quantity(4, "nfiles"),
		Dirs:    quantity(3, "ndirs"),
		Reverse: rapid.Bool().Draw(c.T, "inreverse"),
	}
}

func genChild(c *kit.C, names []string) *kit.ChildSpec {
	ch := &kit.ChildSpec{Kind: rapid.SampledFrom([]string{"glob", "regex"}).Draw(c.T, "childkind")}
	if ch.Kind == "glob" {
		ch.Pattern = kit.GenGlob(c.T, names)
	} else {
		ch.Pattern = kit.GenRegex(c.T, names)
	}

	ch.Negate = rapid.IntRange(0, 2).Draw(c.T, "childnegate") == 0

	return ch
}
