package pub_test

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// tally is a wait group that counts how often it is added to
type tally struct {
	sync.WaitGroup
	adds atomic.Int64
}

func (t *tally) Add(n int) {
	t.adds.Add(1)
	t.WaitGroup.Add(n)
}

// trait is what can be told of a traversal, regardless of the scheduling of
// the callbacks of a concurrent one
func trait(out *kit.Outcome, run bool, wg *tally) []string {
	navigator := ""
	lines := []string{}
	invoked := []string{}

	for _, e := range out.Events {
		if e.Kind == "begin" {
			navigator = e.By
		}
	}

	same := 0

	for _, e := range out.Events {
		if e.Kind != "invoke" {
			lines = append(lines, e.String())
			continue
		}

		if e.By == navigator {
			same++
		}

		text := fmt.Sprintf("invoke %+v", snapText(e.Snap))
		if run {
			invoked = append(invoked, text)
		} else {
			lines = append(lines, text)
		}
	}

	sort.Strings(invoked)
	lines = append(lines, invoked...)
	lines = append(lines,
		fmt.Sprintf("callbacks by the navigator itself: %d", same),
		fmt.Sprintf("error %v %T", out.Err, out.Err),
		fmt.Sprintf("panic %v", out.Panic),
		fmt.Sprintf("metrics %v", out.Metrics),
		fmt.Sprintf("end saw %v", out.EndSeen),
		fmt.Sprintf("complete %v, no result %v", out.Complete, out.NilResult),
		fmt.Sprintf("wait group used: %v", wg.adds.Load() > 0),
	)

	return lines
}

func snapText(s *kit.Snap) string {
	if s == nil {
		return "nil"
	}

	up := ""
	if s.Up != nil {
		up = s.Up.Path
	}

	return fmt.Sprintf("%q dir=%v depth=%d leaf=%v name=%q parent=%q sub=%q scope=%v up=%q err=%q",
		s.Path, s.Dir, s.Depth, s.IsLeaf, s.Name, s.Parent, s.SubPath, s.Scope, up, s.Err)
}

func TestC23(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: "random tree, options, callback errors; composite (Hydra, Hare, Tortoise, Goldfish) and its flags, given the right " +
			"(or, 1 in 8, the wrong) facade, against the explicit construction; non-trivial: 2 nodes or more were delivered, " +
			"or the facade is wrong",
		Cases: 1200,
	}, func(c *kit.C) {
		composite := rapid.SampledFrom([]string{"hydra", "hydra", "hare", "tortoise", "goldfish"}).Draw(c.T, "composite")
		walk := rapid.Bool().Draw(c.T, "walk")
		prime := rapid.Bool().Draw(c.T, "prime")
		wrong := rapid.IntRange(1, 8).Draw(c.T, "wrong facade") == 1

		switch composite {
		case "hare":
			walk = false
		case "tortoise":
			walk = true
		case "goldfish":
			prime = true
		}

		cs, full, at, _ := crashCase(c, walk)
		for p, a := range cs.Actions {
			if !walk && a != "error" {
				delete(cs.Actions, p)
			}
		}

		if at == "" {
			return
		}

		now := uint(rapid.IntRange(1, 4).Draw(c.T, "workers"))
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		text := fmt.Sprintf("%v\n%s walk=%v prime=%v wrong=%v workers=%d", cs, composite, walk, prime, wrong, now)

		scenario := func(wg *tally) age.Scenario {
			switch composite {
			case "hydra":
				return age.Hydra(walk, prime, wg)
			case "hare":
				return age.Hare(prime, wg)
			case "tortoise":
				return age.Tortoise(prime)
			}

			return age.Goldfish(walk, wg)
		}

		explicit := func(wg *tally) age.Scenario {
			return func(facade pref.Facade, settings ...pref.Option) age.Navigator {
				fac := age.Walk()
				if !walk {
					fac = age.Run(wg)
				}

				if prime {
					return fac.Configure().Extent(age.Prime(facade, settings...))
				}

				return fac.Configure().Extent(age.Resume(facade, settings...))
			}
		}

		drive := func(sc age.Scenario, wg *tally) func(pref.Facade, ...pref.Option) (core.TraverseResult, error) {
			return func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				defer wg.Wait()
				settings = append(settings, age.WithNoW(now))

				return sc(facade, settings...).Navigate(context.Background())
			}
		}

		usePrime := prime != wrong

		var saved *kit.Saved

		if !usePrime {
			session := *cs
			session.Actions = with(cs.Actions, at, "panic")
			r := kit.NewVFS(true)
			out := session.Run(kit.RunOpts{R: core.Forest{R: r}})

			var err error
			if saved, err = kit.SavedState(out, r); err != nil {
				c.Bad(text, err.Error())
			}
		}

		do := func(of func(wg *tally) age.Scenario) []string {
			wg := &tally{}
			opt := kit.RunOpts{Go: drive(of(wg), wg)}

			var out *kit.Outcome
			if usePrime {
				out = cs.Run(opt)
			} else {
				out = cs.Resume(dir, saved, strategy, opt)
			}

			return trait(out, !walk, wg)
		}

		if d := kit.FirstDiff(do(explicit), do(scenario)); d != "" {
			c.Bad(text, "explicit (want) and composite (got) differ: "+d)
		}

		c.Case(len(full.Invoked()) > 1 || wrong, text)
		c.Class(!walk && prime, "run prime")
		c.Class(!walk && !prime, "run resume")
		c.Class(walk && prime, "walk prime")
		c.Class(walk && !prime, "walk resume")
		c.Class(wrong, "wrong facade")
	})
}
