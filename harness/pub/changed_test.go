package pub_test

import (
	"fmt"
	"path/filepath"
	"strings"
	"testing"

	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// between the sessions of a traversal that was interrupted, the tree is likely
// to change: not least because the item that caused the panic is dealt with.

const ruleChanged = "a traversal with depth limits and a filter, that panics at a node; then up to 3 items are removed from the tree, up to 4 added, " +
	"and up to 2 directories can't be read any more; "

// removeFrom returns a copy of e without the items at the paths denoted
func removeFrom(e *kit.Entry, path string, gone map[string]bool) *kit.Entry {
	r := *e
	r.Kids = nil

	for _, k := range e.Kids {
		p := filepath.Join(path, k.Name)
		if !gone[p] {
			r.Kids = append(r.Kids, removeFrom(k, p, gone))
		}
	}

	return &r
}

// addTo an item to a directory, unless there is one already by that name
func addTo(dir *kit.Entry, item *kit.Entry) bool {
	for _, k := range dir.Kids {
		if strings.EqualFold(k.Name, item.Name) {
			return false
		}
	}

	dir.Kids = append(dir.Kids, item)

	return true
}

// changed is what has become of the tree, and the same with whatever of the
// way to a node that has gone put back.
type changed struct {
	now, anchored *kit.Case
	gone          map[string]bool // of the way
	unread        map[string]bool
	text          string
}

func relative(tree, path string) string {
	rel, err := filepath.Rel(tree, path)
	if err != nil {
		panic(fmt.Sprintf("VERIF-HARNESS: %v", err))
	}

	return rel
}

// beneath denotes whether a path of the tree is below the directory
func beneath(tree, dir, path string) bool {
	return path != dir && (dir == tree || strings.HasPrefix(path, dir+"/"))
}

func change(c *kit.C, cs *kit.Case, at string, keep bool) *changed {
	ch := &changed{gone: map[string]bool{}, unread: map[string]bool{}}
	gone := map[string]bool{}
	all := cs.Paths(nil)[1:]

	// the way from the tree down to the node
	way := []string{}
	for p := at; p != cs.Tree; p = filepath.Dir(p) {
		way = append([]string{p}, way...)
	}

	for range rapid.IntRange(0, 3).Draw(c.T, "removals") {
		if len(all) > 0 {
			gone[pick(c, all, "removed")] = true
		}
	}

	switch rapid.IntRange(0, 7).Draw(c.T, "of the way") {
	case 0, 1, 2:
		gone[at] = true
	case 3:
		gone[way[rapid.IntRange(0, len(way)-1).Draw(c.T, "level")]] = true
	}

	if keep {
		for _, p := range way {
			delete(gone, p)
		}
	}

	now := *cs
	now.Actions = nil
	now.Root = removeFrom(cs.Root, cs.Tree, gone)

	names := append([]string{"a"}, cs.Names()[1:]...)
	for i := range rapid.IntRange(0, 4).Draw(c.T, "additions") {
		dirs := now.Paths(func(e *kit.Entry) bool { return e.Dir })
		in := pick(c, dirs, "added to")

		if len(way) > 0 && rapid.Bool().Draw(c.T, "on the way") {
			if near := filepath.Dir(way[rapid.IntRange(0, len(way)-1).Draw(c.T, "near")]); now.Root.Find(relative(cs.Tree, near)) != nil {
				in = near
			}
		}

		name := fmt.Sprintf("%v%c%d", pick(c, names, "like"), 'a'+rune(i), i)
		if rapid.Bool().Draw(c.T, "before") {
			name = "1" + name
		}

		if rapid.Bool().Draw(c.T, "upper") {
			name = strings.ToUpper(name)
		}

		if addTo(now.Root.Find(relative(cs.Tree, in)), &kit.Entry{Name: name, Dir: rapid.Bool().Draw(c.T, "dir")}) {
			ch.text += " +" + filepath.Join(in, name)
		}
	}

	for p := range gone {
		ch.text += " -" + p
	}

	if rapid.IntRange(0, 2).Draw(c.T, "unreadable") == 0 {
		dirs := now.Paths(func(e *kit.Entry) bool { return e.Dir })
		for range rapid.IntRange(1, 2).Draw(c.T, "n unreadable") {
			p := pick(c, dirs, "can't read")
			if !keep || !beneath(cs.Tree, p, at) {
				now.ReadErr = append(now.ReadErr, p)
			}
		}
	}

	anchored := now
	anchored.Root = removeFrom(now.Root, cs.Tree, nil)
	anchored.ReadErr = nil

	for _, p := range now.ReadErr {
		if !beneath(cs.Tree, p, at) {
			anchored.ReadErr = append(anchored.ReadErr, p)
		} else {
			ch.unread[p] = true
		}
	}

	for _, p := range way {
		rel := relative(cs.Tree, p)
		if anchored.Root.Find(rel) == nil {
			ch.gone[p] = true
			dir := anchored.Root.Find(filepath.Dir(rel))
			dir.Kids = append(dir.Kids, &kit.Entry{Name: filepath.Base(p), Dir: cs.Root.Find(rel).Dir})
		}
	}

	ch.now, ch.anchored = &now, &anchored

	return ch
}

// changedCase is a case whose outcome for one node does not depend on others
func changedCase(c *kit.C) (cs *kit.Case, at string) {
	cs = kit.GenBase(c.T, crashTree)
	if rapid.Bool().Draw(c.T, "limit") {
		kit.GenDepth(c.T, cs)
	}

	if rapid.IntRange(0, 2).Draw(c.T, "filter") == 0 && cs.Sub != enums.SubscribeDirectoriesWithFiles {
		cs.Filter = kit.GenSimpleFilter(c.T, cs.Names(), "glob", "regex")
		cs.Filter.Scope = rapid.SampledFrom([]enums.FilterScope{
			enums.ScopeAll, enums.ScopeFile, enums.ScopeDirectory,
		}).Draw(c.T, "plain scope")
	}

	inv := cs.Model().Invoked()
	if len(inv) > 0 && inv[0] == cs.Tree {
		inv = inv[1:]
	}

	if len(inv) == 0 {
		return cs, ""
	}

	return cs, pick(c, inv, "panics at")
}

// TestC18Changed resumes by spawn after the tree has changed.
func TestC18Changed(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: ruleChanged + "resumed by spawn; non-trivial: something is left, and the node where it panicked, or a directory it was in, is gone or " +
			"can't be read",
		Cases: 2500,
	}, func(c *kit.C) {
		cs, at := changedCase(c)
		if at == "" {
			return
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		ch := change(c, cs, at, false)
		full := ch.anchored.Model()

		want := []string{}
		for _, p := range rest(full, at).Invoked() {
			if p != at || !ch.gone[at] {
				want = append(want, p)
			}
		}

		obstructed := len(ch.unread) > 0
		for p := range ch.gone {
			obstructed = obstructed || p != at
		}

		c.Class(ch.gone[at], "the node is gone")
		c.Class(obstructed, "a directory it was in is gone or can't be read")
		c.Case(len(want) > 0 && (obstructed || ch.gone[at]), fmt.Sprintf("%v panics at %q, then%v", cs, at, ch.text))

		what := fmt.Sprintf("%v\npanics at %q, then%v, unreadable %v, then resumed", cs, at, ch.text, ch.now.ReadErr)
		got := ch.now.Resume(dir, saved, enums.ResumeStrategySpawn)
		paths := got.Invoked()

		switch {
		case got.Panic != nil:
			c.Bad(what, fmt.Sprintf("traversal panicked: %v", got.Panic))
		case obstructed && got.Err != nil:
			// what is left can't be known, so all that was found is an initial part
			if len(paths) > len(want) || kit.FirstDiff(want[:len(paths)], paths) != "" {
				c.Bad(what, fmt.Sprintf("not an initial part of what is left: want %v, got %v", want, paths))
			}
		default:
			if d := kit.FirstDiff(want, paths); d != "" {
				c.Bad(what, fmt.Sprintf("%v; error %v", d, got.Err))
			}

			if got.Err != nil {
				c.Bad(what, fmt.Sprintf("error: %v", got.Err))
			}
		}
	})
}

// TestC17Changed resumes by fastward after the tree has changed.
func TestC17Changed(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule: ruleChanged + "other than the node itself and the directories it is in, then resumed by fastward; non-trivial: something is left and " +
			"the tree has changed",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, at := changedCase(c)
		if at == "" {
			return
		}

		_, saved := crash(c, cs, at, kit.RunOpts{})
		ch := change(c, cs, at, true)
		want := rest(ch.now.Model(), at)
		c.Case(len(want.Invoked()) > 1 && ch.text != "", fmt.Sprintf("%v panics at %q, then%v", cs, at, ch.text))

		what := fmt.Sprintf("%v\npanics at %q, then%v, unreadable %v, then resumed", cs, at, ch.text, ch.now.ReadErr)
		got := ch.now.Resume(dir, saved, enums.ResumeStrategyFastward)

		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
			c.Bad(what, d)
		}
	})
}
