package pub_test

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// TestC21Shared performs several concurrent traversals at once, which have the
// wait group in common.
func TestC21Shared(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "2 to 3 of: " + ruleConc + "some fail; all performed at once (or one after the other) with a single wait group, some with a single context, " +
			"each compared with the sequential traversal; non-trivial: more nodes than workers in two of them",
		Cases: 300,
	}, func(c *kit.C) {
		n := rapid.IntRange(2, 3).Draw(c.T, "ncases")
		cases := make([]*kit.Case, n)
		plans := make([]*schedule, n)
		seqs := make([]*kit.Outcome, n)
		outs := make([]*kit.Outcome, n)
		busy := 0

		var what []string

		for i := range cases {
			var paths []string

			if i > 0 && rapid.IntRange(0, 2).Draw(c.T, "same") == 0 {
				cases[i] = vary(c, cases[i-1])
				cases[i].Actions = nil
				paths = cases[i].Model().Invoked()
			} else {
				cases[i], _, paths = concCase(c, kit.TreeGen{MaxDepth: 4, MaxKids: 6, MaxNodes: 20, RootFile: true, MinKids: 3})
			}

			plans[i] = genSchedule(c, paths)
			seqs[i] = cases[i].Run()
			cases[i].Actions = map[string]string{}

			for p := range plans[i].fail {
				cases[i].Actions[p] = "error"
			}

			if len(paths) > int(plans[i].workers()) {
				busy++
			}

			what = append(what, fmt.Sprintf("%v\n%v", cases[i], plans[i]))
		}

		text := strings.Join(what, "\n")
		inTurn := rapid.Bool().Draw(c.T, "in turn")

		var (
			wg       sync.WaitGroup // of the traversals
			returned sync.WaitGroup
			all      sync.WaitGroup
			turn     sync.Mutex
		)

		ctx, cancel := context.WithCancel(context.Background())
		late := make([]int64, n)
		before := runtime.NumGoroutine()

		returned.Add(n)

		for i := range cases {
			s := plans[i]
			all.Add(1)

			go func() {
				defer all.Done()

				outs[i] = cases[i].Run(kit.RunOpts{
					OnNode: func(servant core.Servant) {
						s.inflight.Add(1)
						defer s.inflight.Add(-1)

						s.delay(s.pause[servant.Node().Path])
					},
					Go: func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
						if s.now > 0 {
							settings = append(settings, age.WithNoW(s.now))
						}

						settings = append(settings, func(o *pref.Options) error {
							o.Concurrency.Input.Size = s.in
							return nil
						})

						if inTurn {
							turn.Lock()
						}

						result, err := age.Run(&wg).Configure().Extent(age.Prime(facade, settings...)).Navigate(ctx)

						if inTurn {
							turn.Unlock()
						}

						returned.Done()
						returned.Wait()
						wg.Wait()

						late[i] = s.inflight.Load()

						return result, err
					},
				})
			}()
		}

		all.Wait()
		cancel()

		c.Case(busy >= 2, text)

		if l := left(before); l != "" {
			c.Bad(text, "still running: "+l)
		}

		for i, out := range outs {
			name := fmt.Sprintf("number %d: ", i)

			if out.Panic != nil {
				c.Bad(text, fmt.Sprintf("%spanicked: %v", name, out.Panic))
			}

			if late[i] != 0 {
				c.Bad(text, fmt.Sprintf("%s%d callbacks still active when the wait was over", name, late[i]))
			}

			if d := kit.FirstDiff(invocations(seqs[i].Events), invocations(out.Events)); d != "" {
				c.Bad(text, name+"delivered by sequential (want) and concurrent (got) traversal: "+d)
			}

			if d := kit.FirstDiff(notices(seqs[i].Events), notices(out.Events)); d != "" {
				c.Bad(text, name+"notified by sequential (want) and concurrent (got) traversal: "+d)
			}

			if (out.Err == nil) != (seqs[i].Err == nil) {
				c.Bad(text, fmt.Sprintf("%ssequential ends with %v, concurrent with %v", name, seqs[i].Err, out.Err))
			}

			if d := kit.MetricsDiff(seqs[i].Metrics, out.Metrics); d != "" {
				c.Bad(text, name+"metrics: "+d)
			}
		}
	})
}
