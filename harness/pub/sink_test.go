package pub_test

import (
	"context"
	"fmt"
	"io/fs"
	"path/filepath"
	"reflect"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// replies are the filters a client was given
type replies struct {
	node    []core.TraverseFilter
	child   []core.ChildTraverseFilter
	sampler []core.SampleTraverseFilter
	invoked bool // before one of them
	callers int
}

func (r *replies) sink(o *pref.Options) error {
	o.Filter.Sink = func(reply pref.FilterReply) {
		if reply.Node != nil {
			r.node = append(r.node, reply.Node)
		}

		if reply.Child != nil {
			r.child = append(r.child, reply.Child)
		}

		if reply.Sampler != nil {
			r.sampler = append(r.sampler, reply.Sampler)
		}

		r.invoked = r.invoked || r.callers > 0
	}

	return nil
}

func (r *replies) hear(core.Servant) { r.callers++ }

// nodes of the whole tree, by path, and the listings of its directories
func everything(cs *kit.Case) (nodes map[string]*core.Node, listings map[string][]fs.DirEntry) {
	nodes, listings = map[string]*core.Node{}, map[string][]fs.DirEntry{}
	plain := &kit.Case{Root: cs.Root, Tree: cs.Tree, Spelling: cs.Spelling, Abs: cs.Abs, Sub: enums.SubscribeUniversal}
	fS := plain.FS()

	_, _ = age.Walk().Configure().Extent(age.Prime(&pref.Using{
		Subscription: enums.SubscribeUniversal,
		Head: pref.Head{
			Handler: func(servant core.Servant) error {
				n := servant.Node()
				nodes[n.Path] = n

				return nil
			},
			GetForest: func(string) *core.Forest { return &core.Forest{T: fS, R: kit.NewVFS(true)} },
		},
		Tree: plain.Spelt(),
	})).Navigate(context.Background())

	for p, n := range nodes {
		if n.IsDirectory() {
			entries, _ := fS.ReadDir(p)
			listings[p] = entries
		}
	}

	return nodes, listings
}

func entryNames(entries []fs.DirEntry) map[string]bool {
	names := map[string]bool{}
	for _, e := range entries {
		names[e.Name()] = true
	}

	return names
}

// sourceOf is what a filter says it was made from
func sourceOf(f *kit.FilterSpec) string {
	if f.Kind == "poly" {
		return sourceOf(f.File) + "##" + sourceOf(f.Dir)
	}

	return f.Pattern
}

func scopeOf(f *kit.FilterSpec) enums.FilterScope {
	switch {
	case f.Kind == "globex":
		return enums.ScopeFile
	case f.Scope == enums.ScopeUndefined:
		return enums.ScopeAll
	}

	return f.Scope
}

// judgeNode compares a node filter with what the definition means.
func judgeNode(f core.TraverseFilter, spec *kit.FilterSpec, nodes map[string]*core.Node) string {
	if err := f.Validate(); err != nil {
		return fmt.Sprintf("the filter given is not valid: %v", err)
	}

	if f.Source() != sourceOf(spec) {
		return fmt.Sprintf("source of the filter is %q rather than %q", f.Source(), sourceOf(spec))
	}

	if spec.Kind != "poly" {
		if f.Description() != spec.Desc {
			return fmt.Sprintf("description of the filter is %q rather than %q", f.Description(), spec.Desc)
		}

		if f.Scope() != scopeOf(spec) {
			return fmt.Sprintf("scope of the filter is %v rather than %v", f.Scope(), scopeOf(spec))
		}
	}

	for p, n := range nodes {
		if got, want := f.IsMatch(n), spec.Match(kit.SnapOf(n)); got != want {
			return fmt.Sprintf("the filter given says %v of %q, rather than %v", got, p, want)
		}

		if spec.Kind == "glob" || spec.Kind == "regex" {
			if got, want := f.IsApplicable(n), scopeOf(spec)&n.Extension.Scope != 0; got != want {
				return fmt.Sprintf("the filter given says that it's applicable to %q: %v, rather than %v", p, got, want)
			}
		} else if n.IsDirectory() && f.IsApplicable(n) {
			return fmt.Sprintf("a filter of files is said to be applicable to the directory %q", p)
		}
	}

	return ""
}

// TestC35 asks for the filters in force.
func TestC35(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "random tree with a node filter of any kind and/or a child filter, or a sample filter (glob, regex), and a sink; " +
			"the filters given to the sink are tried on every node and listing of the tree; non-trivial: one of them accepts some and rejects some",
		Cases: 2500,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, anyRoot)
		names := cs.Names()
		kind := rapid.IntRange(0, 4).Draw(c.T, "kind of filter")

		switch kind {
		case 0, 1:
			cs.Filter = kit.GenFilter(c.T, names, false)
		case 2:
			cs.Child = genChild(c, names)
		case 3:
			cs.Filter, cs.Child = kit.GenFilter(c.T, names, false), genChild(c, names)
		case 4:
			cs.Sample, cs.ReverseFS = genFilterSample(c, names), false
			if cs.Sample.Filter.Kind == "custom" {
				cs.Sample.Filter.Kind = "glob"
			}
		}

		r := &replies{}
		extra := kit.RunOpts{Extra: []pref.Option{r.sink}, OnNode: r.hear}
		got := cs.Run(extra)

		if got.Panic != nil {
			c.Bad(cs, fmt.Sprintf("panicked: %v", got.Panic))
		}

		count := func(yes bool) int {
			if yes {
				return 1
			}

			return 0
		}

		want := [3]int{count(cs.Filter != nil), count(cs.Child != nil), count(cs.Sample != nil)}
		if had := [3]int{len(r.node), len(r.child), len(r.sampler)}; had != want {
			c.Bad(cs, fmt.Sprintf("given %v filters for node, child and sampler, rather than %v", had, want))
		}

		if r.invoked {
			c.Bad(cs, "given a filter when nodes were already delivered")
		}

		// the sink changes nothing
		if d := same(cs.Run(), got); d != "" {
			c.Bad(cs, "with a sink: "+d)
		}

		nodes, listings := everything(cs)
		yes, no := 0, 0

		if cs.Filter != nil {
			if d := judgeNode(r.node[0], cs.Filter, nodes); d != "" {
				c.Bad(cs, d)
			}

			for _, n := range nodes {
				if r.node[0].IsMatch(n) {
					yes++
				} else {
					no++
				}
			}
		}

		for p, entries := range listings {
			before := append([]fs.DirEntry{}, entries...)

			if cs.Child != nil {
				accepted := entryNames(r.child[0].Matching(entries))
				expect := map[string]bool{}

				for _, e := range before {
					if kit.MatchName(cs.Child.Kind, cs.Child.Pattern, e.Name()) != cs.Child.Negate {
						expect[e.Name()] = true
					}
				}

				if !reflect.DeepEqual(accepted, expect) {
					c.Bad(cs, fmt.Sprintf("the child filter given accepts %v in %q, rather than %v", accepted, p, expect))
				}

				yes, no = yes+len(accepted), no+len(entries)-len(accepted)
			}

			if cs.Sample != nil {
				f := cs.Sample.Filter
				accepted := entryNames(r.sampler[0].Matching(entries))
				expect := map[string]bool{}

				for _, e := range before {
					scoped := f.Scope == enums.ScopeFile && !e.IsDir() || f.Scope == enums.ScopeDirectory && e.IsDir()
					if !scoped || kit.MatchName(f.Kind, f.Pattern, e.Name()) != f.Negate {
						expect[e.Name()] = true
					}
				}

				if !reflect.DeepEqual(accepted, expect) {
					c.Bad(cs, fmt.Sprintf("the sample filter given accepts %v in %q, rather than %v", accepted, p, expect))
				}

				yes, no = yes+len(accepted), no+len(entries)-len(accepted)
			}

			if !reflect.DeepEqual(entries, before) {
				c.Bad(cs, fmt.Sprintf("the filter given changes the listing of %q", p))
			}
		}

		if cs.Child != nil && (r.child[0].Source() != cs.Child.Pattern || r.child[0].Validate() != nil) {
			c.Bad(cs, fmt.Sprintf("source of the child filter is %q, it's valid: %v", r.child[0].Source(), r.child[0].Validate()))
		}

		c.Case(yes > 0 && no > 0, cs)
		c.Class(kind == 3, "node and child")
		c.Class(kind == 4, "sample")

		for p := range nodes {
			if filepath.Clean(p) != p {
				c.Bad(cs, fmt.Sprintf("path %q is not clean", p))
			}
		}
	})
}
