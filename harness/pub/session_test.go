package pub_test

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// sit is a traversal that has taken place
type sit struct {
	what string
	out  *kit.Outcome
	conc bool
	last time.Duration
}

func (s *sit) judge(c *kit.C) {
	t := s.out.Timing

	if t.Session == nil {
		c.Bad(s.what, "result without a session")
	}

	started, elapsed := t.Session.StartedAt(), t.Session.Elapsed()

	if started.Before(t.Called) {
		c.Bad(s.what, fmt.Sprintf("started %v before it was asked for", t.Called.Sub(started)))
	}

	if started.After(t.First) {
		c.Bad(s.what, fmt.Sprintf("started %v after the first notification", started.Sub(t.First)))
	}

	if most := t.Returned.Sub(t.Called); elapsed > most {
		c.Bad(s.what, fmt.Sprintf("elapsed %v, although it took only %v", elapsed, most))
	}

	if s.conc {
		// the callbacks may go on after the navigation has ended
		t.Last = t.First
	}

	if least := t.Last.Sub(t.First); elapsed < least {
		c.Bad(s.what, fmt.Sprintf("elapsed %v, although the notifications alone took %v", elapsed, least))
	}

	if t.Ended && t.AtEnd != elapsed {
		c.Bad(s.what, fmt.Sprintf("elapsed %v at the end notification, now it is %v", t.AtEnd, elapsed))
	}

	if s.last != 0 && s.last != elapsed {
		c.Bad(s.what, fmt.Sprintf("elapsed %v when looked at first, now it is %v", s.last, elapsed))
	}

	s.last = elapsed

	if s.out.Err == nil && !s.out.Complete {
		c.Bad(s.what, "ended without an error, but is not complete")
	}
}

func TestC34(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: "1 to 3 traversals (" + ruleCombo + "skips, errors and panics, callbacks that take their time), each by walk, run or a resume of it by either strategy, " +
			"their sessions looked at when each has ended and again after all the others; non-trivial: at least one of them delivers 3 nodes or more",
		Cases: 1200,
	}, func(c *kit.C) {
		var sits []*sit

		big := false

		for i := rapid.IntRange(1, 3).Draw(c.T, "traversals"); i > 0; i-- {
			s := sitting(c, dir)
			if s == nil {
				continue
			}

			sits = append(sits, s)
			big = big || len(s.out.Invoked()) >= 3
			s.judge(c)
		}

		if rapid.Bool().Draw(c.T, "later") {
			time.Sleep(50 * time.Microsecond)
		}

		for _, s := range sits {
			s.judge(c)
		}

		text := ""
		for _, s := range sits {
			text += s.what + "\n"
		}

		c.Case(big, text)
	})
}

func sitting(c *kit.C, dir string) *sit {
	how := rapid.SampledFrom([]string{"walk", "walk", "run", "fastward", "spawn"}).Draw(c.T, "how")
	slow := rapid.IntRange(0, 2).Draw(c.T, "slow")
	ro := kit.RunOpts{OnNode: func(core.Servant) {
		if slow > 0 {
			time.Sleep(time.Duration(slow) * 10 * time.Microsecond)
		}
	}}

	if how == "fastward" || how == "spawn" {
		strategy := enums.ResumeStrategyFastward
		if how == "spawn" {
			strategy = enums.ResumeStrategySpawn
		}

		cs, _, at := resumeCase(c, strategy)
		if at == "" {
			return nil
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})

		return &sit{
			what: fmt.Sprintf("%v\npanics at %q, then resumed by %v", cs, at, how),
			out:  cs.Resume(dir, saved, strategy, ro),
		}
	}

	cs, _ := genCombo(c, crashTree)
	if rapid.Bool().Draw(c.T, "acting") {
		genActions(c, cs, 2, "skipdir", "skipall", "error", "panic")
	}

	if how == "run" {
		// an error of a concurrent callback does not end it
		cs.Actions = nil
		ro.Go = func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
			var wg sync.WaitGroup
			defer wg.Wait()

			return age.Run(&wg).Configure().Extent(age.Prime(facade, settings...)).Navigate(context.Background())
		}
	}

	return &sit{
		what: fmt.Sprintf("%v\nby %v, slow %v", cs, how, slow),
		out:  cs.Run(ro),
		conc: how == "run",
	}
}
