package pub_test

import (
	"fmt"
	"slices"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// heard is what one of the additional listeners heard
type heard struct {
	kind     string
	listener int
	path     string
	arg      any // node or result
}

var kinds = []string{"begin", "descend", "ascend", "wake", "sleep", "end"}

// audience makes the options which register the listeners, in an order drawn,
// either with the option made for the purpose or directly on the events.
func audience(c *kit.C, counts map[string]int, log *[]heard) []pref.Option {
	var order []string

	for _, k := range kinds {
		counts[k] = kit.Upto(c.T, k+" listeners", 0, 4, 20)

		for range counts[k] {
			order = append(order, k)
		}
	}

	if len(order) > 1 {
		order = rapid.Permutation(order).Draw(c.T, "order")
	}

	next := map[string]int{}
	options := []pref.Option{}

	for _, k := range order {
		id := next[k]
		next[k]++

		add := func(path string, arg any) { *log = append(*log, heard{k, id, path, arg}) }
		node := func(n *core.Node) { add(n.Path, n) }
		hib := func(d string) { add(d, nil) }
		begin := func(s *life.BeginState) { add(s.Tree, s) }
		end := func(r core.TraverseResult) { add("", r) }
		direct := rapid.Bool().Draw(c.T, "direct")

		options = append(options, func(o *pref.Options) error {
			switch {
			case k == "begin" && direct:
				o.Events.Begin.On(begin)
			case k == "begin":
				return age.WithOnBegin(begin)(o)
			case k == "descend" && direct:
				o.Events.Descend.On(node)
			case k == "descend":
				return age.WithOnDescend(node)(o)
			case k == "ascend" && direct:
				o.Events.Ascend.On(node)
			case k == "ascend":
				return age.WithOnAscend(node)(o)
			case k == "wake" && direct:
				o.Events.Wake.On(hib)
			case k == "wake":
				return age.WithOnWake(hib)(o)
			case k == "sleep" && direct:
				o.Events.Sleep.On(hib)
			case k == "sleep":
				return age.WithOnSleep(hib)(o)
			case k == "end" && direct:
				o.Events.End.On(end)
			case k == "end":
				return age.WithOnEnd(end)(o)
			}

			return nil
		})
	}

	return options
}

// attend checks what was heard against what the recorder, which is always the
// first listener, heard.
func attend(c *kit.C, what any, evs []kit.Event, counts map[string]int, log []heard) {
	var want, got []string

	for _, e := range evs {
		for id := range counts[e.Kind] {
			want = append(want, fmt.Sprintf("%s %d %q", e.Kind, id, e.Path))
		}
	}

	for i, h := range log {
		got = append(got, fmt.Sprintf("%s %d %q", h.kind, h.listener, h.path))

		if h.listener > 0 && i > 0 && log[i-1].kind == h.kind && log[i-1].arg != h.arg {
			c.Bad(what, fmt.Sprintf("%s: listener %d was given %v, the one before %v", h.kind, h.listener, h.arg, log[i-1].arg))
		}
	}

	if d := kit.FirstDiff(want, got); d != "" {
		c.Bad(what, "listeners: "+d)
	}
}

func TestC26(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: "any combination of features (as for C31), up to 5 listeners for each of the notifications, registered in any order; " +
			"1 in 3 panics and is resumed, when all notifications are muted up to the resume point (fastward); " +
			"non-trivial: 3 kinds of notification were sent, each to 2 listeners or more",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, _ := genCombo(c, crashTree)
		cs.Hib = nil

		if rapid.IntRange(0, 3).Draw(c.T, "hibernates") > 0 {
			cs.Hib = genHib(c, cs.Names())
		}

		resumed := rapid.IntRange(0, 2).Draw(c.T, "resumed") == 0
		if resumed {
			cs.Actions = nil
		}

		var log []heard

		counts := map[string]int{}
		full := cs.Model()
		inv := full.Invoked()

		if resumed && len(inv) == 0 {
			return
		}

		ro := kit.RunOpts{Extra: audience(c, counts, &log)}
		what := fmt.Sprintf("%v\nlisteners %v", cs, counts)
		got := &kit.Outcome{}
		want := full

		if resumed {
			at := pick(c, inv, "panics at")
			strategy := rapid.SampledFrom([]enums.ResumeStrategy{
				enums.ResumeStrategyFastward, enums.ResumeStrategySpawn,
			}).Draw(c.T, "strategy")
			what += fmt.Sprintf("\npanics at %q, resumed by %v", at, strategy)

			out, saved := crash(c, cs, at, ro)
			attend(c, what, out.Events, counts, log)

			log = nil
			counts = map[string]int{}
			ro.Extra = audience(c, counts, &log)
			got = cs.Resume(dir, saved, strategy, ro)
			want = nil
		} else {
			got = cs.Run(ro)
		}

		many := 0

		for _, k := range kinds {
			if counts[k] > 1 && len(got.Of(k)) > 0 {
				many++
			}
		}

		c.Case(many > 2, what)
		c.Class(resumed, "resumed")
		c.Class(counts["wake"] > 1 && len(got.Of("wake")) > 0, "wake heard")
		c.Class(counts["sleep"] > 1 && len(got.Of("sleep")) > 0, "sleep heard")

		if want != nil {
			// descriptions of triggers are for C11 to judge
			bare := *got
			bare.Events = slices.Clone(got.Events)
			blank(bare.Events)
			blank(want.Events)

			if d := kit.Diff(want, &bare, kit.AsEvents, kit.AsErr); d != "" {
				c.Bad(what, d)
			}
		} else if got.Panic != nil {
			c.Bad(what, fmt.Sprintf("panics: %v", got.Panic))
		}

		attend(c, what, got.Events, counts, log)
	})
}
