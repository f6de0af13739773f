package pub_test

import (
	"context"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tfs"
	"github.com/snivilised/agenor/verif/kit"
	nef "github.com/snivilised/nefilim"
	"pgregory.net/rapid"
)

// disk is a place for a tree on the real file system.
type disk struct {
	dir   string // scratch
	base  string // directory which contains the tree
	kinds map[string]string
	how   string
}

// forests by which the tree can be got at.
var forests = []string{"default", "default", "absolute", "relative", "from cwd"}

func (d *disk) String() string {
	return fmt.Sprintf("on disk, %v forest, special items %v", d.how, d.kinds)
}

// settle moves the case to disk.
func settle(c *kit.C, dir string, cs *kit.Case) *disk {
	d := &disk{
		dir: dir, base: filepath.Join(dir, "base"), kinds: map[string]string{},
		how: rapid.SampledFrom(forests).Draw(c.T, "forest"),
	}

	must(os.RemoveAll(filepath.Join(dir, "base")))
	must(os.MkdirAll(d.base, 0o700))

	// strays, which are not in the tree
	must(os.WriteFile(filepath.Join(dir, "base", "stray"), []byte("stray"), 0o600))

	raw := cs.Abs // so names may not be text
	cs.Root.Name = "root"
	d.make(c, cs.Root, filepath.Join(d.base, "root"), "root")

	if cs.Root.Dir && rapid.IntRange(0, 5).Draw(c.T, "linked top") == 0 {
		must(os.Rename(filepath.Join(d.base, "root"), filepath.Join(d.base, "real")))
		must(os.Symlink("real", filepath.Join(d.base, "root")))

		d.kinds["root"] = "link"
	}

	cs.ReverseFS = false

	if d.how == "relative" && raw {
		d.how = "absolute"
	}

	switch d.how {
	case "relative":
		cs.Abs, cs.Tree = false, "root"
	case "from cwd":
		cwd, err := os.Getwd()
		must(err)

		cs.Tree, err = filepath.Rel(cwd, filepath.Join(d.base, "root"))
		must(err)

		cs.Abs = false
	default:
		cs.Abs, cs.Tree = true, filepath.Join(d.base, "root")
	}

	// what a path leads to depends on links
	if cs.Spelling == "up" {
		cs.Spelling = "dot"
	}

	if !cs.Root.Dir {
		cs.Spelling = ""
	}

	return d
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("VERIF-HARNESS: %v", err))
	}
}

func (d *disk) make(c *kit.C, e *kit.Entry, path, rel string) {
	if e.Dir {
		must(os.Mkdir(path, 0o700))

		e.Size = 0

		for _, k := range e.Kids {
			d.make(c, k, filepath.Join(path, k.Name), filepath.Join(rel, k.Name))
		}

		return
	}

	kind := "plain"
	if rel != "root" {
		kind = rapid.SampledFrom([]string{"plain", "plain", "plain", "dir", "up", "file", "broken", "pipe", "hard"}).Draw(c.T, "kind")
	}

	if kind != "plain" {
		d.kinds[rel] = kind
	}

	link := func(to string) {
		e.Size = len(to)
		must(os.Symlink(to, path))
	}

	switch kind {
	case "dir":
		link(d.base)
	case "up":
		link("..")
	case "file":
		link(filepath.Join(d.base, "stray"))
	case "broken":
		link("nowhere")
	case "pipe":
		e.Size = 0
		must(syscall.Mkfifo(path, 0o600))
	case "hard":
		e.Size = 5
		must(os.Link(filepath.Join(d.base, "stray"), path))
	default:
		must(os.WriteFile(path, []byte(strings.Repeat("x", e.Size)), 0o600))
	}
}

// head adjusts how the forest is made.
func (d *disk) head(h *pref.Head) {
	switch d.how {
	case "absolute":
		h.GetForest = func(string) *core.Forest {
			return &core.Forest{T: tfs.New(), R: tfs.New()}
		}
	case "relative":
		h.GetForest = func(string) *core.Forest {
			return &core.Forest{T: tfs.NewFS(nef.Rel{Root: d.base}), R: tfs.New()}
		}
	default:
		h.GetForest = nil
	}
}

// drive gives the means to traverse what is on disk.
func (d *disk) drive(run bool) func(pref.Facade, ...pref.Option) (core.TraverseResult, error) {
	return func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
		settings = append(settings, age.WithAdminPath(filepath.Join(d.dir, "admin")))
		extent := age.Prime

		switch f := facade.(type) {
		case *pref.Using:
			d.head(&f.Head)
		case *pref.Relic:
			d.head(&f.Head)

			extent = age.Resume
		}

		if run {
			var wg sync.WaitGroup
			defer wg.Wait()

			return age.Run(&wg).Configure().Extent(extent(facade, settings...)).Navigate(context.Background())
		}

		return age.Walk().Configure().Extent(extent(facade, settings...)).Navigate(context.Background())
	}
}

// sizeless drops the size of directories, which is up to the file system.
func sizeless(events []kit.Event) {
	for _, e := range events {
		for s := e.Snap; s != nil; s = s.Up {
			if s.Dir {
				s.InfoSize = 0
			}
		}
	}
}

// walked is what the standard library makes of the tree.
func walked(top string) map[string]string {
	items := map[string]string{}

	real, err := filepath.EvalSymlinks(top)
	must(err)

	must(filepath.WalkDir(real, func(path string, entry fs.DirEntry, err error) error {
		if err != nil {
			return err
		}

		info, err := entry.Info()
		if err == nil {
			items[top+strings.TrimPrefix(path, real)] = fmt.Sprintf("%v %v %v %v", info.Mode(), info.ModTime(), entry.Name(), info.Size())
		}

		return err
	}))

	return items
}

var diskTree = kit.TreeGen{MaxDepth: 4, MaxKids: 5, MaxNodes: 20, RootFile: true, MinKids: 2, DSStore: true, Bytes: true}

// textTree has names that can be saved
var textTree = kit.TreeGen{MaxDepth: 4, MaxKids: 5, MaxNodes: 20, RootFile: true, MinKids: 2, DSStore: true}

const ruleDisk = "random tree on a real file system, with symbolic links to directories, files and nowhere, hard links and pipes in it or " +
	"at the top, reached through the default forest, absolute, relative, or from the current directory; "

func TestC01Disk(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  ruleDisk + "compared with the model and filepath.WalkDir; non-trivial: at least 3 items and a special one",
		Cases: 500,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, diskTree)
		d := settle(c, dir, cs)

		if rapid.IntRange(0, 3).Draw(c.T, "with options") == 0 {
			kit.GenDepth(c.T, cs)
		}

		f, ds := cs.Root.Count()
		what := fmt.Sprintf("%v %v", cs, d)
		c.Case(f+ds >= 3 && len(d.kinds) > 0, what)
		c.Class(d.how == "relative", "relative")
		c.Class(d.how == "from cwd", "from cwd")
		c.Class(d.kinds["root"] != "", "top is a link")

		top := cs.Tree
		if !filepath.IsAbs(top) && d.how == "relative" {
			top = filepath.Join(d.base, top)
		}

		items := walked(top)
		wrong := ""

		got := cs.Run(kit.RunOpts{Go: d.drive(false), OnNode: func(servant core.Servant) {
			n := servant.Node()
			if n.Entry == nil {
				return // top
			}

			path := n.Path
			if d.how == "relative" {
				path = filepath.Join(d.base, path)
			}

			info := n.Info
			if info == nil {
				var err error
				if info, err = n.Entry.Info(); err != nil {
					wrong += err.Error()
					return
				}
			}

			if says := fmt.Sprintf("%v %v %v %v", info.Mode(), info.ModTime(), n.Entry.Name(), info.Size()); says != items[path] {
				wrong += fmt.Sprintf("%q is %q, according to filepath.WalkDir it's %q", path, says, items[path])
			}
		}})

		want := cs.Model()
		sizeless(want.Events)
		sizeless(got.Events)

		if dif := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsEvents, kit.AsErr); dif != "" {
			c.Bad(what, dif)
		}

		if wrong != "" {
			c.Bad(what, wrong)
		}

		// nothing is modified
		for path, is := range walked(top) {
			if items[path] != is {
				c.Bad(what, fmt.Sprintf("%q has become %q, it was %q", path, is, items[path]))
			}
		}
	})
}

func TestC21Disk(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  ruleDisk + "traversed concurrently; non-trivial: at least 3 items and a special one",
		Cases: 150,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, diskTree)
		d := settle(c, dir, cs)
		f, ds := cs.Root.Count()
		what := fmt.Sprintf("%v %v", cs, d)
		c.Case(f+ds >= 3 && len(d.kinds) > 0, what)

		want, got := cs.Model(), cs.Run(kit.RunOpts{Go: d.drive(true)})
		sizeless(want.Events)
		sizeless(got.Events)

		if dif := kit.FirstDiff(invocations(want.Events), invocations(got.Events)); dif != "" {
			c.Bad(what, dif)
		}

		if got.Err != nil {
			c.Bad(what, fmt.Sprintf("error %v", got.Err))
		}
	})
}

// TestC19Disk crash and resume, by way of the real file system only.
func TestC19Disk(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  ruleDisk + "panicking, then resumed by either strategy; non-trivial: something precedes the resume point and something follows it",
		Cases: 400,
	}, func(c *kit.C) {
		cs := kit.GenBase(c.T, textTree)
		d := settle(c, dir, cs)

		full := cs.Model()
		inv := full.Invoked()

		if len(inv) == 0 {
			return
		}

		at := pick(c, inv, "panics at")
		strategy := rapid.SampledFrom([]enums.ResumeStrategy{
			enums.ResumeStrategyFastward, enums.ResumeStrategySpawn,
		}).Draw(c.T, "strategy")
		what := fmt.Sprintf("%v %v\npanics at %q, resumed by %v", cs, d, at, strategy)
		want := rest(full, at)

		c.Case(at != inv[0] && len(want.Invoked()) > 1, what)
		c.Class(strategy == enums.ResumeStrategySpawn, "spawn")

		cut := *cs
		cut.Actions = with(cs.Actions, at, "panic")
		out := cut.Run(kit.RunOpts{Go: d.drive(false)})
		path := kit.SavedAs(out)

		if path == "" {
			c.Bad(what, fmt.Sprintf("the error is not that of a saved traversal: %v", out.Err))
		}

		if rel, err := filepath.Rel(filepath.Join(dir, "admin"), path); err != nil || strings.HasPrefix(rel, "..") {
			c.Bad(what, fmt.Sprintf("state was saved to %q, which is not under the admin path", path))
		}

		info, err := os.Stat(path)
		if err != nil {
			c.Bad(what, fmt.Sprintf("the error names %q, which can't be read: %v", path, err))
		}

		if info.Mode().Perm()&0o600 != 0o600 {
			c.Bad(what, fmt.Sprintf("state was saved with permissions %v", info.Mode()))
		}

		got := cs.Resume(dir, &kit.Saved{Path: path}, strategy, kit.RunOpts{
			Go: func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				facade.(*pref.Relic).From = path

				return d.drive(false)(facade, settings...)
			},
		})

		must(os.RemoveAll(filepath.Join(dir, "admin")))

		if strategy == enums.ResumeStrategySpawn {
			spawned(got)
			spawned(&kit.Outcome{Events: want.Events})
		}

		sizeless(want.Events)
		sizeless(got.Events)

		if dif := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); dif != "" {
			c.Bad(what, dif)
		}
	})
}
