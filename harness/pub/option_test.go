package pub_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log/slog"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"testing"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// settings mirrors the options: what they should come to. Everything that is
// not plain data is represented by the identity it was given.
type settings struct {
	nav      pref.NavigationBehaviours
	sampling struct {
		kind      enums.SampleType
		inReverse bool
		noOf      pref.EntryQuantities
	}
	node, child, sample, custom, sink int
	wake, sleep                       int
	hib                               core.HibernationBehaviour
	now                               uint
	out                               pref.OutputOptions // without On
	outOn                             int
	path                              string
	log, fault, panics, skip          int
	hookFile, hookDir, hookRead       int
	hookQuery, hookSort               int
	heard                             map[string][]int
}

func defaults() *settings {
	s := &settings{}
	s.nav.SubPath.KeepTrailingSep = true
	s.hib.InclusiveWake = true
	s.now = uint(runtime.NumCPU())
	s.path = filepath.Join("~", "agenor", "admin", "resume")
	s.heard = map[string][]int{}

	return s
}

// things that are given to options, by identity
type (
	things struct {
		defs    map[*core.FilterDef]int
		kids    map[*core.ChildFilterDef]int
		samples map[*core.SampleFilterDef]int
		loggers map[*slog.Logger]int
		next    int
		reached int // identity of the function called most recently
		heard   map[string][]int
	}

	faulty   struct{ id int }
	panicky  struct{ id int }
	skipping struct{ id int }
	custom   struct {
		core.TraverseFilter
		id int
	}
)

var errSetting = errors.New("verif: setting")

func (f *faulty) Accept(*pref.NavigationFault) error { return errSetting }

func (p *panicky) Rescue(pref.Recovery, pref.RescueData) (string, error) { return "", errSetting }

func (s *skipping) Ask(*core.Node, core.DirectoryContents, error) (enums.SkipTraversal, error) {
	return enums.SkipNoneTraversal, errSetting
}

func (th *things) id() int {
	th.next++

	return th.next
}

func (th *things) def() (*core.FilterDef, int) {
	id := th.id()
	def := &core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*", Description: fmt.Sprint("def ", id)}
	th.defs[def] = id

	return def, id
}

type setting struct {
	name  string
	opt   pref.Option
	apply func(s *settings)
}

// genSetting draws one option, with its effect on the mirror.
func genSetting(c *kit.C, th *things) setting {
	b := func(label string) bool { return rapid.Bool().Draw(c.T, label) }
	u := func(label string) uint { return uint(rapid.IntRange(0, 9).Draw(c.T, label)) }

	kinds := []string{
		"nav", "sub path", "sort", "depth", "no recurse", "sampling", "filter", "exclusive wake", "inclusive sleep",
		"wake at", "sleep at", "hibernate", "cpu", "now", "output", "admin", "logger", "fault", "panic", "skip",
		"hook file", "hook directory", "hook read", "hook query", "hook sort", "hook case sensitive",
		"begin", "end", "ascend", "descend", "wake", "sleep", "nothing",
	}
	kind := rapid.SampledFrom(kinds).Draw(c.T, "option")
	st := setting{name: kind}

	switch kind {
	case "nav":
		nb := pref.NavigationBehaviours{
			SubPath: pref.SubPathBehaviour{KeepTrailingSep: b("keep")},
			Sort:    pref.SortBehaviour{IsCaseSensitive: b("case"), SortFilesFirst: b("files first")},
			Cascade: pref.CascadeBehaviour{Depth: u("depth"), NoRecurse: b("no recurse")},
		}
		st.opt = age.WithNavigationBehaviours(&nb)
		st.apply = func(s *settings) { s.nav = nb }
	case "sub path":
		v := pref.SubPathBehaviour{KeepTrailingSep: b("keep")}
		st.opt = age.WithSubPathBehaviour(&v)
		st.apply = func(s *settings) { s.nav.SubPath = v }
	case "sort":
		v := pref.SortBehaviour{IsCaseSensitive: b("case"), SortFilesFirst: b("files first")}
		st.opt = age.WithSortBehaviour(&v)
		st.apply = func(s *settings) { s.nav.Sort = v }
	case "depth":
		v := u("depth")
		st.opt = age.WithDepth(v)
		st.apply = func(s *settings) { s.nav.Cascade.Depth = v }
	case "no recurse":
		st.opt = age.WithNoRecurse()
		st.apply = func(s *settings) { s.nav.Cascade.NoRecurse = true }
	case "sampling":
		v := pref.SamplingOptions{
			Type:      enums.SampleType(rapid.IntRange(0, 2).Draw(c.T, "type")),
			InReverse: b("reverse"),
			NoOf:      pref.EntryQuantities{Files: u("files"), Directories: u("directories")},
		}
		st.opt = age.WithSamplingOptions(&v)
		st.apply = func(s *settings) {
			s.sampling.kind, s.sampling.inReverse, s.sampling.noOf = v.Type, v.InReverse, v.NoOf
		}
	case "filter":
		var (
			v                               pref.FilterOptions
			node, child, sample, cust, sink int
		)

		if b("node") {
			v.Node, node = th.def()
		}

		if b("child") {
			v.Child, child = &core.ChildFilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, th.id()
			th.kids[v.Child] = child
		}

		if b("sample") {
			v.Sample, sample = &core.SampleFilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}, th.id()
			th.samples[v.Sample] = sample
		}

		if b("custom") {
			cust = th.id()
			v.Custom = &custom{id: cust}
		}

		if b("sink") {
			sink = th.id()
			v.Sink = func(pref.FilterReply) { th.reached = sink }
		}

		st.opt = age.WithFilter(&v)
		st.apply = func(s *settings) {
			s.node, s.child, s.sample, s.custom, s.sink = node, child, sample, cust, sink
		}
	case "exclusive wake":
		st.opt = age.WithHibernationBehaviourExclusiveWake()
		st.apply = func(s *settings) { s.hib.InclusiveWake = false }
	case "inclusive sleep":
		st.opt = age.WithHibernationBehaviourInclusiveSleep()
		st.apply = func(s *settings) { s.hib.InclusiveSleep = true }
	case "wake at":
		def, id := th.def()
		st.opt = age.WithHibernationFilterWake(def)
		st.apply = func(s *settings) { s.wake = id }
	case "sleep at":
		def, id := th.def()
		st.opt = age.WithHibernationFilterSleep(def)
		st.apply = func(s *settings) { s.sleep = id }
	case "hibernate":
		var (
			v    core.HibernateOptions
			w, z int
		)

		if b("wake") {
			v.WakeAt, w = th.def()
		}

		if b("sleep") {
			v.SleepAt, z = th.def()
		}

		v.Behaviour = core.HibernationBehaviour{InclusiveWake: b("inclusive wake"), InclusiveSleep: b("inclusive sleep")}
		st.opt = age.WithHibernationOptions(&v)
		st.apply = func(s *settings) { s.wake, s.sleep, s.hib = w, z, v.Behaviour }
	case "cpu":
		st.opt = age.WithCPU()
		st.apply = func(s *settings) { s.now = uint(runtime.NumCPU()) }
	case "now":
		v := 1 + u("workers")
		st.opt = age.WithNoW(v)
		st.apply = func(s *settings) { s.now = v }
	case "output":
		v := pref.OutputOptions{
			Size:               u("size"),
			CheckCloseInterval: time.Duration(u("interval")),
			TimeoutOnSend:      time.Duration(u("timeout")),
		}
		plain, on := v, 0

		if b("on") {
			on = th.id()
			v.On = func(core.OutputStream) { th.reached = on }
		}

		st.opt = age.WithOutput(&v)
		st.apply = func(s *settings) { s.out, s.outOn = plain, on }
	case "admin":
		v := fmt.Sprint("admin/", th.id())
		st.opt = age.WithAdminPath(v)
		st.apply = func(s *settings) { s.path = v }
	case "logger":
		v, id := slog.New(slog.NewTextHandler(io.Discard, nil)), th.id()
		th.loggers[v] = id
		st.opt = age.WithLogger(v)
		st.apply = func(s *settings) { s.log = id }
	case "fault":
		id := th.id()
		st.opt = age.WithFaultHandler(&faulty{id})
		st.apply = func(s *settings) { s.fault = id }
	case "panic":
		id := th.id()
		st.opt = age.WithPanicHandler(&panicky{id})
		st.apply = func(s *settings) { s.panics = id }
	case "skip":
		id := th.id()
		st.opt = age.WithSkipHandler(&skipping{id})
		st.apply = func(s *settings) { s.skip = id }
	case "hook file":
		id := th.id()
		st.opt = age.WithHookFileSubPath(func(*core.SubPathInfo) string { th.reached = id; return "" })
		st.apply = func(s *settings) { s.hookFile = id }
	case "hook directory":
		id := th.id()
		st.opt = age.WithHookDirectorySubPath(func(*core.SubPathInfo) string { th.reached = id; return "" })
		st.apply = func(s *settings) { s.hookDir = id }
	case "hook read":
		id := th.id()
		st.opt = age.WithHookReadDirectory(func(fs.ReadDirFS, string) ([]fs.DirEntry, error) { th.reached = id; return nil, nil })
		st.apply = func(s *settings) { s.hookRead = id }
	case "hook query":
		id := th.id()
		st.opt = age.WithHookQueryStatus(func(fs.StatFS, string) (fs.FileInfo, error) { th.reached = id; return nil, nil })
		st.apply = func(s *settings) { s.hookQuery = id }
	case "hook sort":
		id := th.id()
		st.opt = age.WithHookSort(func([]fs.DirEntry, ...any) { th.reached = id })
		st.apply = func(s *settings) { s.hookSort = id }
	case "hook case sensitive":
		st.opt = age.WithHookCaseSensitiveSort()
		st.apply = func(s *settings) { s.hookSort = -1 }
	case "nothing":
		st.apply = func(*settings) {}
	default: // notifications
		id := th.id()
		hear := func() { th.heard[kind] = append(th.heard[kind], id) }

		switch kind {
		case "begin":
			st.opt = age.WithOnBegin(func(*life.BeginState) { hear() })
		case "end":
			st.opt = age.WithOnEnd(func(core.TraverseResult) { hear() })
		case "ascend":
			st.opt = age.WithOnAscend(func(*core.Node) { hear() })
		case "descend":
			st.opt = age.WithOnDescend(func(*core.Node) { hear() })
		case "wake":
			st.opt = age.WithOnWake(func(string) { hear() })
		case "sleep":
			st.opt = age.WithOnSleep(func(string) { hear() })
		}

		st.apply = func(s *settings) { s.heard[kind] = append(slices.Clone(s.heard[kind]), id) }
	}

	return st
}

// reach finds the identity of the function called by fn; 0 if none of ours.
func (th *things) reach(fn func()) (id int) {
	th.reached = 0
	defer func() {
		_ = recover() // the defaults need not cope with what is given to them here
		id = th.reached
	}()

	fn()

	return 0
}

func recorded[K comparable](m map[*K]int, p *K) int {
	if p == nil {
		return 0
	}

	if id, ok := m[p]; ok {
		return id
	}

	return -99
}

type listing []string

func (n listing) entries() []fs.DirEntry {
	node := &kit.Entry{Dir: true}
	for _, s := range n {
		node.Kids = append(node.Kids, &kit.Entry{Name: s})
	}

	v := kit.NewVFS(false)
	v.Put("root", node)
	entries, _ := v.ReadDir("root")

	return entries
}

// observe what the options are
func (th *things) observe(o *pref.Options) *settings {
	s := &settings{
		nav:    o.Behaviours,
		node:   recorded(th.defs, o.Filter.Node),
		child:  recorded(th.kids, o.Filter.Child),
		sample: recorded(th.samples, o.Filter.Sample),
		wake:   recorded(th.defs, o.Hibernate.WakeAt),
		sleep:  recorded(th.defs, o.Hibernate.SleepAt),
		hib:    o.Hibernate.Behaviour,
		now:    o.Concurrency.NoW,
		out: pref.OutputOptions{
			Size:               o.Concurrency.Output.Size,
			CheckCloseInterval: o.Concurrency.Output.CheckCloseInterval,
			TimeoutOnSend:      o.Concurrency.Output.TimeoutOnSend,
		},
		path: o.Monitor.Admin.Path,
		log:  th.loggers[o.Monitor.Log],
	}
	s.sampling.kind, s.sampling.inReverse, s.sampling.noOf = o.Sampling.Type, o.Sampling.InReverse, o.Sampling.NoOf

	if o.Filter.Custom != nil {
		s.custom = o.Filter.Custom.(*custom).id
	}

	if o.Filter.Sink != nil {
		s.sink = th.reach(func() { o.Filter.Sink(pref.FilterReply{}) })
	}

	if o.Concurrency.Output.On != nil {
		s.outOn = th.reach(func() { o.Concurrency.Output.On(nil) })
	}

	if f, ok := o.Defects.Fault.(*faulty); ok {
		s.fault = f.id
	} else if err := o.Defects.Fault.Accept(&pref.NavigationFault{Err: errSetting}); err != errSetting {
		s.fault = -99
	}

	if p, ok := o.Defects.Panic.(*panicky); ok {
		s.panics = p.id
	}

	if k, ok := o.Defects.Skip.(*skipping); ok {
		s.skip = k.id
	} else if skip, err := o.Defects.Skip.Ask(nil, nil, errSetting); skip != enums.SkipNoneTraversal || err != nil {
		s.skip = -99
	}

	node := core.Node{Path: "a/b"}
	node.Extension.Parent = "a"

	s.hookFile = th.reach(func() { o.Hooks.FileSubPath.Invoke()(&core.SubPathInfo{Tree: "a", Node: &node}) })
	s.hookDir = th.reach(func() { o.Hooks.DirectorySubPath.Invoke()(&core.SubPathInfo{Tree: "a", Node: &node}) })
	s.hookRead = th.reach(func() { _, _ = o.Hooks.ReadDirectory.Invoke()(nil, "") })
	s.hookQuery = th.reach(func() { _, _ = o.Hooks.QueryStatus.Invoke()(nil, "") })

	// whichever sort is in force by default follows the behaviour, so that it
	// can only be told by what it does
	entries := listing{"b", "C", "a"}.entries()

	s.hookSort = th.reach(func() { o.Hooks.Sort.Invoke()(entries) })
	if s.hookSort == 0 {
		sorted := ""
		for _, e := range entries {
			sorted += e.Name()
		}

		switch {
		case sorted == "Cab":
			s.hookSort = -1
		case sorted == "abC":
		default:
			s.hookSort = -99
		}
	}

	return s
}

func (s *settings) String() string {
	text := strings.ReplaceAll(fmt.Sprintf("%+v", *s), "heard:map", "\nheard:map")

	return text
}

func TestC25(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "0 to 12 options out of all there are, in any order, repeated at random, some nil, some conditional (in any of the 3 " +
			"forms), 1 in 8 with one of them failing; non-trivial: 3 kinds of option or more",
		Cases: 3000,
	}, func(c *kit.C) {
		th := &things{
			defs: map[*core.FilterDef]int{}, kids: map[*core.ChildFilterDef]int{},
			samples: map[*core.SampleFilterDef]int{}, loggers: map[*slog.Logger]int{}, heard: map[string][]int{},
		}
		want := defaults()
		options := []pref.Option{}
		text := []string{}
		seen := map[string]bool{}
		asked := 0 // conditional functions called, when they should not be
		n := rapid.IntRange(0, 12).Draw(c.T, "no of options")
		failAt := -1

		if n > 0 && rapid.IntRange(1, 8).Draw(c.T, "fails") == 1 {
			failAt = rapid.IntRange(0, n-1).Draw(c.T, "fail at")
		}

		for i := range n {
			a := genSetting(c, th)
			chosen, name := a, a.name
			how := rapid.SampledFrom([]string{"plain", "plain", "if", "if f", "if else f"}).Draw(c.T, "how")
			cond := rapid.Bool().Draw(c.T, "condition")
			option := a.opt
			provide := func(s setting, due bool) pref.ConditionalOption {
				return func() pref.Option {
					if !due {
						asked++
					}

					return s.opt
				}
			}
			none := setting{apply: func(*settings) {}}

			switch how {
			case "if":
				option = age.IfOption(cond, a.opt)
			case "if f":
				option = age.IfOptionF(cond, provide(a, cond))
			case "if else f":
				other := genSetting(c, th)
				none = other
				name += " else " + other.name
				option = age.IfElseOptionF(cond, provide(a, cond), provide(other, !cond))
			}

			if how != "plain" {
				name += fmt.Sprintf(" (%s %v)", how, cond)

				if !cond {
					chosen = none
				}
			}

			if i == failAt {
				options = append(options, func(*pref.Options) error { return errSetting })
				text = append(text, "fail")
			}

			options = append(options, option)
			text = append(text, name)

			if failAt < 0 || i < failAt {
				chosen.apply(want)
				seen[chosen.name] = true
			}
		}

		c.Case(len(seen) >= 3, strings.Join(text, ", "))
		c.Class(failAt >= 0, "failing option")

		if asked > 0 {
			c.Bad(text, "the function of a conditional option was called although its condition does not hold")
		}

		var got *settings

		look := func(o *pref.Options) error {
			got = th.observe(o)

			// from here on, only the listeners matter: keep this a simple
			// traversal
			fresh := pref.DefaultOptions()
			fresh.Events = o.Events
			fresh.Monitor.Log = o.Monitor.Log
			*o = *fresh

			return nil
		}

		if failAt < 0 {
			options = append(options, look)
		} else {
			// at the point of failure
			at := failAt
			for i, o := range options {
				if i == at {
					options[i] = func(opts *pref.Options) error {
						got = th.observe(opts)

						return o(opts)
					}
				}
			}
		}

		cs := &kit.Case{
			Root: &kit.Entry{Dir: true, Kids: []*kit.Entry{{Name: "d", Dir: true, Kids: []*kit.Entry{{Name: "f"}}}}},
			Tree: "root", Sub: enums.SubscribeUniversal,
		}
		model := cs.Model()
		invoked := 0
		fS := cs.FS()
		_, err := age.Walk().Configure().Extent(age.Prime(&pref.Using{
			Subscription: cs.Sub,
			Head: pref.Head{
				Handler:   func(core.Servant) error { invoked++; return nil },
				GetForest: func(string) *core.Forest { return &core.Forest{T: fS, R: kit.NewVFS(true)} },
			},
			Tree: "root",
		}, options...)).Navigate(context.Background())

		if got == nil {
			c.Bad(text, fmt.Sprintf("options were not applied, error: %v", err))
		}

		heard := want.heard
		want.heard, got.heard = nil, nil

		if want.hookSort == 0 && want.nav.Sort.IsCaseSensitive {
			want.hookSort = -1 // the same effect
		}

		if want.String() != got.String() {
			c.Bad(text, fmt.Sprintf("settings differ\nwant %v\ngot  %v", want, got))
		}

		if failAt >= 0 {
			if !errors.Is(err, errSetting) || invoked > 0 || len(th.heard) > 0 {
				c.Bad(text, fmt.Sprintf("an option failed; error: %v, %d invoked, heard: %v", err, invoked, th.heard))
			}

			return
		}

		if err != nil || invoked != 3 {
			c.Bad(text, fmt.Sprintf("traversal: error %v, %d invoked", err, invoked))
		}

		// each is sent as often as the model says
		due := map[string][]int{}
		for k, times := range map[string]int{"begin": 0, "end": 0, "ascend": 0, "descend": 0, "wake": 0, "sleep": 0} {
			for _, e := range model.Events {
				if e.Kind == k {
					times++
				}
			}

			if times > 0 && len(heard[k]) > 0 {
				due[k] = slices.Concat(slices.Repeat([][]int{heard[k]}, times)...)
			}
		}

		if fmt.Sprint(due) != fmt.Sprint(th.heard) {
			c.Bad(text, fmt.Sprintf("notifications: want %v got %v", due, th.heard))
		}
	})
}

func TestC25Ready(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "1 to 3 cases of any combination of features (as for C31), on trees of their own, walked or run; ready made options " +
			"(those an earlier traversal was given, or made beforehand) are used for 1 to 4 traversals of the cases; options made " +
			"beforehand are adjusted from case to case; non-trivial: a traversal with options used before delivered 2 nodes or more",
		Cases: 1500,
	}, func(c *kit.C) {
		run := rapid.IntRange(1, 4).Draw(c.T, "run") == 1
		ready := &kit.Ready{Capture: rapid.IntRange(1, 3).Draw(c.T, "capture") == 1}
		k := 1

		if !ready.Capture {
			k = rapid.IntRange(1, 3).Draw(c.T, "cases")
		}

		cases, text := []*kit.Case{}, ""

		for range k {
			cs, _ := genCombo(c, anyRoot)
			if run {
				cs.Actions, cs.Hib, cs.AskOn = nil, nil, false
			}

			cs.RootStat = false
			cases = append(cases, cs)
			text += fmt.Sprintln(cs)
		}

		goes := func(wg *tally) func(pref.Facade, ...pref.Option) (core.TraverseResult, error) {
			return func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				fac := age.Walk()
				if run {
					fac = age.Run(wg)
				}

				result, err := fac.Configure().Extent(age.Prime(facade, settings...)).Navigate(context.Background())
				wg.Wait()

				return result, err
			}
		}
		do := func(cs *kit.Case, r *kit.Ready) (*kit.Outcome, []string) {
			wg := &tally{}
			out := cs.Run(kit.RunOpts{Ready: r, Go: goes(wg)})
			lines := trait(out, run, wg)

			return out, append(lines, fmt.Sprintf("asked %v, faults %v", out.Asks, out.Faults))
		}

		again, current := 0, -1

		for i := range rapid.IntRange(2, 4).Draw(c.T, "traversals") {
			at := rapid.IntRange(0, k-1).Draw(c.T, "case")
			if i > 0 && at != current {
				ready.Revise(cases[at])
			}

			current = at
			out, got := do(cases[at], ready)
			_, want := do(cases[at], nil)

			if i > 0 && len(out.Of("invoke")) > 1 {
				again++
			}

			if d := kit.FirstDiff(want, got); d != "" {
				c.Bad(text, fmt.Sprintf("traversal %d, of case %d, with options (want), and with ready made ones (got, capture: %v) differ: %s",
					i, at, ready.Capture, d))
			}
		}

		c.Case(again > 0, text)
		c.Class(run, "concurrent")
		c.Class(ready.Capture, "captured")
	})
}
