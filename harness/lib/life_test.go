package lib_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// channel is one notification: how to listen and how to send.
type channel struct {
	name     string
	on       func(listener func(arg any))
	dispatch func(arg any)
	mute     func()
	unmute   func()
	arg      func(n int) any
}

// hibernation and node handlers share a type, so that mixing up the channels
// of a type is possible, as it is in the library.
func channels(e *life.Events, cs *life.Controls) []channel {
	node := func(name string, ev life.Event[life.NodeHandler], ctrl *life.NotificationCtrl[life.NodeHandler]) channel {
		return channel{
			name:     name,
			on:       func(l func(any)) { ev.On(func(n *core.Node) { l(n) }) },
			dispatch: func(a any) { ctrl.Dispatch()(a.(*core.Node)) },
			mute:     ctrl.Mute,
			unmute:   ctrl.Unmute,
			arg:      func(n int) any { return &core.Node{Path: fmt.Sprint(n)} },
		}
	}
	hib := func(name string, ev life.Event[life.HibernateHandler], ctrl *life.NotificationCtrl[life.HibernateHandler]) channel {
		return channel{
			name:     name,
			on:       func(l func(any)) { ev.On(func(d string) { l(d) }) },
			dispatch: func(a any) { ctrl.Dispatch()(a.(string)) },
			mute:     ctrl.Mute,
			unmute:   ctrl.Unmute,
			arg:      func(n int) any { return fmt.Sprint(n) },
		}
	}

	return []channel{
		node("ascend", e.Ascend, &cs.Ascend),
		node("descend", e.Descend, &cs.Descend),
		hib("wake", e.Wake, &cs.Wake),
		hib("sleep", e.Sleep, &cs.Sleep),
		{
			name:     "begin",
			on:       func(l func(any)) { e.Begin.On(func(s *life.BeginState) { l(s) }) },
			dispatch: func(a any) { cs.Begin.Dispatch()(a.(*life.BeginState)) },
			mute:     cs.Begin.Mute,
			unmute:   cs.Begin.Unmute,
			arg:      func(n int) any { return &life.BeginState{Tree: fmt.Sprint(n)} },
		},
		{
			name:     "end",
			on:       func(l func(any)) { e.End.On(func(r core.TraverseResult) { l(r) }) },
			dispatch: func(a any) { cs.End.Dispatch()(a.(core.TraverseResult)) },
			mute:     cs.End.Mute,
			unmute:   cs.End.Unmute,
			arg:      func(n int) any { return &result{id: n} },
		},
	}
}

type result struct {
	core.TraverseResult
	id int
}

func TestC26Controls(t *testing.T) {
	type heard struct {
		channel  int
		listener int
		arg      any
	}

	kit.Check(t, kit.Opt{
		Rule:  "the 6 notifications, any sequence of registering, sending, muting, unmuting (one or all) on any of them, against a model; non-trivial: something was sent to at least 2 listeners, muted and unmuted",
		Cases: 3000,
	}, func(c *kit.C) {
		var (
			ev   life.Events
			cs   = life.NewControls()
			got  []heard
			log  []string
			many bool
			back bool
			hush bool
		)

		ev.Bind(cs)

		chs := channels(&ev, cs)
		counts := make([]int, len(chs))
		muted := make([]bool, len(chs))
		wasMuted := make([]bool, len(chs))
		// concentrate on a few of the channels, for the histories to be of interest
		focus := rapid.IntRange(1, len(chs)).Draw(c.T, "focus")
		first := rapid.IntRange(0, len(chs)-1).Draw(c.T, "first")

		for range kit.Upto(c.T, "ops", 2, 40, 200) {
			k := (first + rapid.IntRange(0, focus-1).Draw(c.T, "channel")) % len(chs)
			ch := chs[k]

			switch rapid.IntRange(0, 9).Draw(c.T, "op") {
			case 0, 1, 2:
				log = append(log, "on "+ch.name)
				id := counts[k]
				counts[k]++

				ch.on(func(arg any) { got = append(got, heard{k, id, arg}) })
			case 3, 4, 5, 6:
				log = append(log, "send "+ch.name)
				got = nil
				arg := ch.arg(len(log))
				ch.dispatch(arg)

				var want []heard

				if !muted[k] {
					for id := range counts[k] {
						want = append(want, heard{k, id, arg})
					}

					many = many || counts[k] > 1
					back = back || (wasMuted[k] && counts[k] > 0)
				} else {
					hush = hush || counts[k] > 0
				}

				if !reflect.DeepEqual(got, want) {
					c.Fatalf("%v: heard %v, want %v", log, got, want)
				}

				for i := range got {
					if k < 2 && got[i].arg != arg {
						c.Fatalf("%v: another argument", log)
					}
				}
			case 7:
				log = append(log, "mute "+ch.name)
				muted[k], wasMuted[k] = true, true

				ch.mute()
			case 8:
				log = append(log, "unmute "+ch.name)
				muted[k] = false

				ch.unmute()
			case 9:
				on := rapid.Bool().Draw(c.T, "mute all")
				log = append(log, fmt.Sprintf("mute all %v", on))

				for i := range chs {
					muted[i] = on
					wasMuted[i] = wasMuted[i] || on
				}

				if on {
					cs.MuteAll()
				} else {
					cs.UnmuteAll()
				}
			}
		}

		c.Class(many, "several listeners")
		c.Class(hush, "sent while muted")
		c.Class(back, "sent after unmuting")
		c.Case(many && hush && back, strings.Join(log, ", "))
	})
}
