package pub_test

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io/fs"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// flaw is something that makes a request invalid
type flaw struct {
	name   string
	is     func(error) bool // kind of error expected
	using  func(u *pref.Using)
	relic  func(r *pref.Relic)
	opts   []pref.Option
	among  bool // the options are put somewhere among the others, rather than last
	place  int
	facade pref.Facade
	swap   bool                // use the facade above
	saved  func([]byte) []byte // tamper with the saved state
	child  bool                // only makes sense with directories with files
}

func sentinel(target error) func(error) bool {
	return func(err error) bool { return errors.Is(err, target) }
}

func anyError(err error) bool { return err != nil }

func newHead() pref.Head {
	return pref.Head{Handler: func(core.Servant) error { return nil }}
}

// beyond draws a value past the last of an enumeration
func beyond(c *kit.C, last int) int {
	return last + rapid.IntRange(1, 200).Draw(c.T, "beyond")
}

func badRegex(c *kit.C) string {
	return rapid.SampledFrom([]string{"(", "[a", "*x", "a{2,1}", "x)", "(?P<n", `\`, "a**", "[z-a]"}).Draw(c.T, "bad regex")
}

// genDefFlaw draws an invalid definition of a node filter, or a trigger
func genDefFlaw(c *kit.C, trigger bool) (*core.FilterDef, flaw) {
	good := func() core.FilterDef {
		return core.FilterDef{Type: enums.FilterTypeGlob, Pattern: "*"}
	}
	kinds := []string{"undefined", "regex", "unknown", "poly-nil", "globex-nosep", "globex-suffix", "poly-poly",
		"poly-undefined", "poly-regex", "custom-nil"}
	if trigger {
		// a custom trigger would be the custom filter, if there is one
		kinds = kinds[:len(kinds)-1]
	}

	kind := rapid.SampledFrom(kinds).Draw(c.T, "def flaw")
	f := flaw{name: kind, is: anyError}
	d := good()

	poly := func(bad core.FilterDef) *core.PolyFilterDef {
		if rapid.Bool().Draw(c.T, "bad file") {
			return &core.PolyFilterDef{File: bad, Directory: good()}
		}

		return &core.PolyFilterDef{File: good(), Directory: bad}
	}

	switch kind {
	case "undefined":
		d.Type = enums.FilterTypeUndefined
		f.is = sentinel(locale.ErrFilterMissingType)
	case "unknown":
		d.Type = enums.FilterType(beyond(c, int(enums.FilterTypePoly)))
	case "regex":
		d.Type = enums.FilterTypeRegex
		d.Pattern = badRegex(c)
	case "globex-nosep":
		d.Type = enums.FilterTypeGlobEx
		d.Pattern = rapid.SampledFrom([]string{"*", "a*", "x.txt", "*.txt,flac", "/"}).Draw(c.T, "pattern")
		f.is = locale.IsInvalidExtGlobFilterMissingSeparatorError
	case "globex-suffix":
		d.Type = enums.FilterTypeGlobEx
		d.Pattern = "*|" + rapid.SampledFrom([]string{"a*", "a,b*", "a b", "x[", "a/b"}).Draw(c.T, "suffixes")
	case "poly-nil":
		d.Type = enums.FilterTypePoly
		f.is = sentinel(locale.ErrPolyFilterIsInvalid)
	case "poly-poly":
		d.Type = enums.FilterTypePoly
		d.Poly = poly(core.FilterDef{Type: enums.FilterTypePoly, Pattern: "*"})
		f.is = sentinel(locale.ErrPolyFilterIsInvalid)
	case "poly-undefined":
		d.Type = enums.FilterTypePoly
		d.Poly = poly(core.FilterDef{Pattern: "*"})
		f.is = sentinel(locale.ErrFilterMissingType)
	case "poly-regex":
		d.Type = enums.FilterTypePoly
		d.Poly = poly(core.FilterDef{Type: enums.FilterTypeRegex, Pattern: badRegex(c)})
	case "custom-nil":
		d.Type = enums.FilterTypeCustom
		f.is = sentinel(locale.ErrFilterIsNil)
	}

	if !trigger && (kind == "poly-nil" || kind == "custom-nil") && rapid.Bool().Draw(c.T, "no pattern") {
		d.Pattern = ""
	}

	return &d, f
}

func genOptionFlaw(c *kit.C) flaw {
	kind := rapid.SampledFrom([]string{"option", "node", "node", "child", "sample", "wake", "sleep", "quantity"}).Draw(c.T, "option flaw")

	switch kind {
	case "option":
		return flaw{name: "option fails", is: sentinel(kit.ErrFault), opts: []pref.Option{
			func(*pref.Options) error { return kit.ErrFault },
		}, among: true, place: rapid.IntRange(0, 8).Draw(c.T, "place")}

	case "node":
		d, f := genDefFlaw(c, false)
		f.name = "node filter " + f.name
		f.opts = []pref.Option{age.WithFilter(&pref.FilterOptions{Node: d})}

		return f

	case "wake", "sleep":
		d, f := genDefFlaw(c, true)
		f.name = kind + " trigger " + f.name
		f.opts = []pref.Option{age.WithHibernationFilterWake(d)}

		if kind == "sleep" {
			f.opts = []pref.Option{age.WithHibernationFilterSleep(d)}
		}

		return f

	case "child":
		d := &core.ChildFilterDef{Pattern: "*"}
		f := flaw{child: true, is: anyError}
		d.Type = rapid.SampledFrom([]enums.FilterType{
			enums.FilterTypeUndefined, enums.FilterTypeRegex, enums.FilterTypeGlobEx,
			enums.FilterTypeCustom, enums.FilterTypePoly, enums.FilterType(beyond(c, int(enums.FilterTypePoly))),
		}).Draw(c.T, "child type")

		switch d.Type {
		case enums.FilterTypeRegex:
			d.Pattern = badRegex(c)
		case enums.FilterTypeUndefined:
			f.is = sentinel(locale.ErrFilterUndefined)
		case enums.FilterTypeCustom:
			f.is = sentinel(locale.ErrFilterCustomNotSupported)
		case enums.FilterTypeGlobEx:
			f.is = sentinel(locale.ErrFilterChildGlobExNotSupported)
		case enums.FilterTypePoly:
			f.is = sentinel(locale.ErrPolyFilterIsInvalid)
		}

		f.name = fmt.Sprintf("child filter type %d %q", d.Type, d.Pattern)
		f.opts = []pref.Option{age.WithFilter(&pref.FilterOptions{Child: d})}

		return f

	case "quantity":
		scope := rapid.SampledFrom([]enums.FilterScope{enums.ScopeFile, enums.ScopeDirectory}).Draw(c.T, "scope")
		f := flaw{name: "no quantity", is: sentinel(locale.ErrInvalidFileSamplingSpecMissingFiles)}

		if scope == enums.ScopeDirectory {
			f.is = sentinel(locale.ErrInvalidSamplingSpecMissingDirectories)
		}

		q := pref.EntryQuantities{Files: 2, Directories: 2}
		if scope == enums.ScopeFile {
			q.Files = 0
		} else {
			q.Directories = 0
		}

		f.name += " " + scope.String()
		f.opts = []pref.Option{
			age.WithFilter(&pref.FilterOptions{Sample: &core.SampleFilterDef{
				Type: enums.FilterTypeGlob, Pattern: "*", Scope: scope,
			}}),
			age.WithSamplingOptions(&pref.SamplingOptions{Type: enums.SampleTypeFilter, NoOf: q}),
		}

		return f
	}

	// sample filter
	d := &core.SampleFilterDef{Pattern: "*", Scope: enums.ScopeFile}
	f := flaw{is: anyError}
	d.Type = rapid.SampledFrom([]enums.FilterType{
		enums.FilterTypeUndefined, enums.FilterTypeRegex, enums.FilterTypeCustom,
		enums.FilterTypeGlobEx, enums.FilterTypePoly, enums.FilterType(beyond(c, int(enums.FilterTypePoly))),
	}).Draw(c.T, "sample type")

	switch d.Type {
	case enums.FilterTypeRegex:
		d.Pattern = badRegex(c)
	case enums.FilterTypeUndefined:
		f.is = sentinel(locale.ErrFilterMissingType)
	}

	f.name = fmt.Sprintf("sample filter type %d %q", d.Type, d.Pattern)
	f.opts = []pref.Option{
		age.WithFilter(&pref.FilterOptions{Sample: d}),
		age.WithSamplingOptions(&pref.SamplingOptions{
			Type: enums.SampleTypeFilter,
			NoOf: pref.EntryQuantities{Files: 2, Directories: 2},
		}),
	}

	return f
}

func genForestFlaw(c *kit.C, head func(h *pref.Head), resume bool) string {
	kinds := []string{"nil", "T nil"}
	if resume {
		kinds = append(kinds, "R nil")
	}

	kind := rapid.SampledFrom(kinds).Draw(c.T, "forest")
	head(&pref.Head{GetForest: func(string) *core.Forest {
		v := kit.NewVFS(false)

		switch kind {
		case "nil":
			return nil
		case "T nil":
			return &core.Forest{R: v}
		}

		return &core.Forest{T: v}
	}})

	return "forest " + kind
}

func genPrimeFlaw(c *kit.C) flaw {
	kind := rapid.SampledFrom([]string{"handler", "tree", "sub", "sub?", "forest", "relic", "nil", "option", "option", "option", "option"}).Draw(c.T, "flaw")
	f := flaw{name: kind}

	switch kind {
	case "handler":
		f.is = sentinel(locale.ErrUsageMissingHandler)
		f.using = func(u *pref.Using) { u.Handler = nil }
	case "tree":
		f.is = sentinel(locale.ErrUsageMissingTreePath)
		f.using = func(u *pref.Using) { u.Tree = "" }
	case "sub":
		f.is = sentinel(locale.ErrUsageMissingSubscription)
		f.using = func(u *pref.Using) { u.Subscription = enums.SubscribeUndefined }
	case "sub?":
		s := enums.Subscription(beyond(c, int(enums.SubscribeUniversal)))
		f.is = anyError
		f.using = func(u *pref.Using) { u.Subscription = s }
	case "forest":
		f.is = anyError
		f.name = genForestFlaw(c, func(h *pref.Head) {
			f.using = func(u *pref.Using) { u.GetForest = h.GetForest }
		}, false)
	case "relic":
		f.is = sentinel(core.ErrWrongPrimaryFacade)
		f.swap = true
		f.facade = &pref.Relic{Head: newHead(), From: "/verif/none", Strategy: enums.ResumeStrategyFastward}
	case "nil":
		f.is = sentinel(core.ErrWrongPrimaryFacade)
		f.swap = true
	default:
		return genOptionFlaw(c)
	}

	return f
}

// leaves of a decoded json document, as functions that set them
func leaves(v any, path string, set func(any), visit func(path string, v any, set func(any))) {
	switch x := v.(type) {
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}

		sort.Strings(keys)

		for _, k := range keys {
			leaves(x[k], path+"/"+k, func(n any) { x[k] = n }, visit)
		}
	case []any:
		for i := range x {
			leaves(x[i], fmt.Sprintf("%s/%d", path, i), func(n any) { x[i] = n }, visit)
		}
	}

	visit(path, v, set)
}

func decoded(data []byte) map[string]any {
	var doc map[string]any
	if err := json.Unmarshal(data, &doc); err != nil {
		panic(fmt.Sprintf("VERIF-HARNESS: saved state: %v", err))
	}

	return doc
}

func encoded(doc any) []byte {
	data, err := json.Marshal(doc)
	if err != nil {
		panic(fmt.Sprintf("VERIF-HARNESS: saved state: %v", err))
	}

	return data
}

func genResumeFlaw(c *kit.C, data []byte) flaw {
	kind := rapid.SampledFrom([]string{"handler", "from", "absent", "strategy", "forest", "mismatch T", "mismatch R",
		"using", "nil", "option", "option", "option", "truncate", "part", "leaf", "leaf", "whole", "sub"}).Draw(c.T, "flaw")
	f := flaw{name: kind, is: anyError}

	mismatch := func(t bool) func(r *pref.Relic) {
		return func(r *pref.Relic) {
			get := r.GetForest
			r.GetForest = func(root string) *core.Forest {
				whole := get(root)
				if whole == nil || whole.T == nil || whole.R == nil {
					return whole
				}

				forest := *whole
				if t {
					forest.T = kit.NewVFS(forest.T.IsRelative())
				} else {
					forest.R = kit.NewVFS(forest.R.IsRelative())
				}

				return &forest
			}
		}
	}

	switch kind {
	case "handler":
		f.is = sentinel(locale.ErrUsageMissingHandler)
		f.relic = func(r *pref.Relic) { r.Handler = nil }
	case "from":
		f.relic = func(r *pref.Relic) { r.From = "" }
	case "absent":
		f.is = sentinel(fs.ErrNotExist)
		f.relic = func(r *pref.Relic) { r.From += ".absent" }
	case "strategy":
		s := enums.ResumeStrategy(beyond(c, int(enums.ResumeStrategyFastward)))
		f.relic = func(r *pref.Relic) { r.Strategy = s }
	case "forest":
		f.name = genForestFlaw(c, func(h *pref.Head) {
			f.relic = func(r *pref.Relic) { r.GetForest = h.GetForest }
		}, true)
	case "mismatch T":
		f.is = sentinel(locale.ErrCoreResumeFsMismatch)
		f.relic = mismatch(true)
	case "mismatch R":
		f.is = sentinel(locale.ErrCoreResumeFsMismatch)
		f.relic = mismatch(false)
	case "using":
		f.is = sentinel(core.ErrWrongResumeFacade)
		f.swap = true
		f.facade = &pref.Using{Head: newHead(), Tree: "root", Subscription: enums.SubscribeUniversal}
	case "nil":
		f.is = sentinel(core.ErrWrongResumeFacade)
		f.swap = true
	case "truncate":
		body := len(bytes.TrimSpace(data))
		n := rapid.IntRange(0, body-1).Draw(c.T, "length")
		f.name = fmt.Sprintf("state truncated to %d of %d", n, body)
		f.saved = func(d []byte) []byte { return d[:n] }
	case "part":
		doc := decoded(data)
		keys := make([]string, 0, len(doc))

		for k := range doc {
			keys = append(keys, k)
		}

		sort.Strings(keys)
		k := rapid.SampledFrom(keys).Draw(c.T, "part")
		null := rapid.Bool().Draw(c.T, "null")
		f.name = fmt.Sprintf("state without %s (null: %v)", k, null)
		f.saved = func(d []byte) []byte {
			doc := decoded(d)
			if null {
				doc[k] = nil
			} else {
				delete(doc, k)
			}

			return encoded(doc)
		}
	case "leaf":
		doc := decoded(data)
		all := []string{}

		leaves(doc, "", nil, func(path string, v any, _ func(any)) {
			if v != nil && path != "" {
				all = append(all, path)
			}
		})

		at := rapid.SampledFrom(all).Draw(c.T, "leaf")
		f.name = "state with wrong type at " + at
		f.saved = func(d []byte) []byte {
			doc := decoded(d)
			leaves(doc, "", nil, func(path string, v any, set func(any)) {
				if path != at {
					return
				}

				if _, ok := v.(string); ok {
					set(3.5)
				} else {
					set("wrong type")
				}
			})

			return encoded(doc)
		}
	case "whole":
		text := rapid.SampledFrom([]string{"null", "{}", "[]", "3", `"x"`, "true", "{}{}", "\x00", "<xml/>", "{\"JO\":{}}x"}).Draw(c.T, "whole")
		f.name = "state is " + text
		f.saved = func([]byte) []byte { return []byte(text) }
	case "sub":
		s := rapid.SampledFrom([]int{0, beyond(c, int(enums.SubscribeUniversal))}).Draw(c.T, "sub")
		f.name = fmt.Sprintf("state with subscription %d", s)
		f.saved = func(d []byte) []byte {
			doc := decoded(d)
			hits := 0

			leaves(doc, "", nil, func(path string, _ any, set func(any)) {
				if strings.HasSuffix(strings.ToLower(path), "/subscription") {
					set(s)
					hits++
				}
			})

			if hits != 1 {
				panic("VERIF-HARNESS: subscription not found in saved state")
			}

			return encoded(doc)
		}
	default:
		return genOptionFlaw(c)
	}

	return f
}

// mend makes the request suit the flaws
func mend(c *kit.C, cs *kit.Case, flaws []flaw) {
	for _, f := range flaws {
		if f.child {
			cs.Sub = enums.SubscribeDirectoriesWithFiles
		}
	}
}

func genFlaws(c *kit.C, gen func() flaw) []flaw {
	n := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(c.T, "flaws")
	flaws := make([]flaw, 0, n)

	for range n {
		f := gen()
		// of 2 sets of options the latter may undo the former, or may complete it
		if len(flaws) > 0 && (f.name == flaws[0].name || len(f.opts) > 0 && len(flaws[0].opts) > 0 || f.saved != nil && flaws[0].saved != nil) {
			continue
		}

		flaws = append(flaws, f)
	}

	return flaws
}

func names(flaws []flaw) string {
	out := ""
	for _, f := range flaws {
		out += " [" + f.name + "]"
	}

	return out
}

// driver of a request with flaws
func flawed(flaws []flaw, run, resume bool) func(pref.Facade, ...pref.Option) (core.TraverseResult, error) {
	return func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
		for _, f := range flaws {
			if u, ok := facade.(*pref.Using); ok && f.using != nil {
				f.using(u)
			}

			if r, ok := facade.(*pref.Relic); ok && f.relic != nil {
				f.relic(r)
			}

			at := len(settings)
			if f.among {
				at = min(at, f.place)
			}

			settings = slices.Insert(settings, at, f.opts...)
		}

		for _, f := range flaws {
			if f.swap {
				facade = f.facade
			}
		}

		var wg sync.WaitGroup

		fac := age.Walk()
		if run {
			fac = age.Run(&wg)
		}

		defer wg.Wait()

		if resume {
			return fac.Configure().Extent(age.Resume(facade, settings...)).Navigate(context.Background())
		}

		return fac.Configure().Extent(age.Prime(facade, settings...)).Navigate(context.Background())
	}
}

func refused(c *kit.C, text string, out *kit.Outcome, r *kit.VFS, flaws []flaw) {
	if out.Panic != nil {
		c.Bad(text, fmt.Sprintf("panicked: %v", out.Panic))
	}

	if n := len(out.Invoked()); n > 0 {
		c.Bad(text, fmt.Sprintf("callback invoked %d times: %v", n, out.Invoked()))
	}

	if out.Err == nil {
		c.Bad(text, "not refused")
	}

	ok := false
	for _, f := range flaws {
		ok = ok || f.is(out.Err)
	}

	if !ok {
		c.Bad(text, fmt.Sprintf("refused with an error of another kind: %v (%T)", out.Err, out.Err))
	}

	if errors.Is(out.Err, locale.ErrCorePanicOccurred) {
		c.Bad(text, fmt.Sprintf("the refusal is a recovered panic: %v", out.Err))
	}

	if len(r.Writes) > 0 {
		c.Bad(text, fmt.Sprintf("files were written: %v", r.Writes))
	}
}

func TestC22(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "valid prime request (random tree and options), made invalid in 1 or 2 ways: handler, tree, subscription, forest, " +
			"facade, failing option, definition of node/child/sample filter or trigger, sampling quantities; walk or run; " +
			"non-trivial: other options were set, or 2 flaws",
		Cases: 2500,
	}, func(c *kit.C) {
		cs, n := genCombo(c, kit.TreeGen{MaxDepth: 3, MaxKids: 4, MaxNodes: 12})
		flaws := genFlaws(c, func() flaw { return genPrimeFlaw(c) })
		run := rapid.IntRange(1, 4).Draw(c.T, "run") == 1
		mend(c, cs, flaws)

		r := kit.NewVFS(true)
		out := cs.Run(kit.RunOpts{R: core.Forest{R: r}, Go: flawed(flaws, run, false)})
		text := fmt.Sprintf("%v\nflaws%s, run %v", cs, names(flaws), run)

		refused(c, text, out, r, flaws)
		c.Case(n > 0 || len(flaws) > 1, text)
		c.Class(run, "run")
		c.Class(len(flaws) > 1, "2 flaws")
	})
}

func TestC22Resume(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: rulePanic + "whose saved state is resumed with a request made invalid in 1 or 2 ways: handler, restore path, " +
			"strategy, forest, kind of file system, facade, options, or state that is truncated, lacks a part, has a value of the " +
			"wrong type, or an unknown subscription; non-trivial: other options were set, or 2 flaws",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, _, at, n := crashCase(c, false)
		if at == "" {
			return
		}

		session := *cs
		session.Actions = with(nil, at, "panic")
		r := kit.NewVFS(true)
		out := session.Run(kit.RunOpts{R: core.Forest{R: r}})

		saved, err := kit.SavedState(out, r)
		if err != nil {
			c.Bad(cs, err.Error())
		}

		flaws := genFlaws(c, func() flaw { return genResumeFlaw(c, saved.Data) })
		run := rapid.IntRange(1, 4).Draw(c.T, "run") == 1
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")

		for _, f := range flaws {
			if f.child && cs.Sub != enums.SubscribeDirectoriesWithFiles {
				return
			}
		}

		bad := *saved
		for _, f := range flaws {
			if f.saved != nil {
				bad.Data = f.saved(bad.Data)
			}
		}

		r = kit.NewVFS(true)
		out = cs.Resume(dir, &bad, strategy, kit.RunOpts{R: core.Forest{R: r}, Go: flawed(flaws, run, true)})
		text := fmt.Sprintf("%v\npanicked at %q, resume %v, flaws%s, run %v", cs, at, strategy, names(flaws), run)

		refused(c, text, out, r, flaws)
		c.Case(n > 0 || len(flaws) > 1, text)
		c.Class(run, "run")

		for _, f := range flaws {
			c.Class(f.saved != nil, "tampered state")
		}
	})
}

// Whatever happened to the saved state, resuming from it does not panic or
// hang, and doesn't invent nodes.
func TestC22Mutated(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: rulePanic + "whose saved state is then subjected to 1-4 random edits (values replaced, removed, nulled, numbers " +
			"changed; bytes flipped, cut or repeated) and resumed; non-trivial: the edited state is still accepted",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, _, at, _ := crashCase(c, false)
		if at == "" {
			return
		}

		session := *cs
		session.Actions = with(nil, at, "panic")
		r := kit.NewVFS(true)
		out := session.Run(kit.RunOpts{R: core.Forest{R: r}})

		saved, err := kit.SavedState(out, r)
		if err != nil {
			c.Bad(cs, err.Error())
		}

		data := mutate(c, saved.Data)
		strategy := rapid.SampledFrom(kit.Strategies).Draw(c.T, "strategy")
		text := fmt.Sprintf("%v\npanicked at %q, resume %v\nfrom %s", cs, at, strategy, data)

		r = kit.NewVFS(true)
		out = cs.Resume(dir, &kit.Saved{Data: data}, strategy, kit.RunOpts{R: core.Forest{R: r}})

		if out.Panic != nil {
			c.Bad(text, fmt.Sprintf("panicked: %v", out.Panic))
		}

		seen := map[string]bool{}

		for _, p := range out.Invoked() {
			if seen[p] {
				c.Bad(text, fmt.Sprintf("%q delivered twice", p))
			}

			seen[p] = true

			if !out.FS.FileExists(p) && !out.FS.DirectoryExists(p) {
				c.Bad(text, fmt.Sprintf("%q does not exist", p))
			}
		}

		c.Case(out.Err == nil, text)
		c.Class(len(seen) > 0, "delivers")
	})
}

func mutate(c *kit.C, data []byte) []byte {
	var doc any = decoded(data)

	edits := rapid.IntRange(1, 4).Draw(c.T, "edits")
	for range edits {
		all := []string{}

		leaves(doc, "", nil, func(path string, v any, _ func(any)) {
			if path != "" {
				all = append(all, path)
			}

			if s := fmt.Sprintf("%T", v); s == "string" || s == "float64" || s == "bool" {
				all = append(all, path, path, path)
			}
		})

		if len(all) == 0 {
			break
		}

		at := rapid.SampledFrom(all).Draw(c.T, "at")
		to := rapid.SampledFrom([]any{
			nil, "", "root", ".", "/", "..", "zzz", "[", "(", "*|", true, false, 0, 1, 2, 3, 4, 5, 77, -1, 1 << 40,
			map[string]any{}, []any{}, []any{nil},
		}).Draw(c.T, "to")

		of := map[string][]any{
			"string":  {"", "root", ".", "/", "..", "zzz", "root/a", "root/aa", "[", "(", "*|", "*"},
			"float64": {0, 1, 2, 3, 4, 5, 6, 9, 16, 77, 1 << 40},
			"bool":    {true, false},
		}

		same := rapid.IntRange(1, 6).Draw(c.T, "same type") > 1

		leaves(doc, "", nil, func(path string, v any, set func(any)) {
			if path != at {
				return
			}

			if values := of[fmt.Sprintf("%T", v)]; same && values != nil {
				to = rapid.SampledFrom(values).Draw(c.T, "like")
			}

			set(to)
		})
	}

	out := encoded(doc)

	if rapid.IntRange(1, 5).Draw(c.T, "raw") == 1 {
		i := rapid.IntRange(0, len(out)-1).Draw(c.T, "i")
		j := rapid.IntRange(i, len(out)-1).Draw(c.T, "j")

		switch rapid.IntRange(0, 2).Draw(c.T, "how") {
		case 0:
			out[i] = rapid.Byte().Draw(c.T, "byte")
		case 1:
			out = append(out[:i:i], out[j:]...)
		case 2:
			out = append(out[:j:j], out[i:]...)
		}
	}

	return out
}
