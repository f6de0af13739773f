package pub_test

import (
	"fmt"
	"hash/fnv"
	"io/fs"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"testing"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// hooking says which hooks are used: the first link may be installed, the
// others are chained.
type hooking struct {
	Tap    bool // the first is installed in place of the default
	Links  int
	Salt   uint32   `json:",omitempty"`
	Keys   []string `json:",omitempty"` // sort keys
	Faults []string `json:",omitempty"` // read: directories for which the last link fails
	Fails  bool     `json:",omitempty"` // query: the last link fails
	Size   int      `json:",omitempty"` // query: the size reported
}

type hookings struct {
	Read, Sort, File, Dir, Query *hooking `json:",omitempty"`

	dirnames []string // directories for which the read hook was called
	queried  []string
	wrong    string // the first thing found to be wrong by a hook
}

func (h *hookings) String() string {
	s := ""
	for name, k := range map[string]*hooking{"read": h.Read, "sort": h.Sort, "file": h.File, "dir": h.Dir, "query": h.Query} {
		if k != nil {
			s += fmt.Sprintf(" %s=%+v", name, *k)
		}
	}

	return s
}

func (h *hookings) amiss(format string, args ...any) {
	if h.wrong == "" {
		h.wrong = fmt.Sprintf(format, args...)
	}
}

func genHooking(c *kit.C, label string) *hooking {
	if rapid.IntRange(0, 2).Draw(c.T, label+" hook") == 0 {
		return nil
	}

	return &hooking{
		Tap:   rapid.Bool().Draw(c.T, label+" tap"),
		Links: kit.Upto(c.T, label+" links", 1, 3, 12),
	}
}

// drops tells whether the link i of the read hooks removes an entry
func (k *hooking) drops(i int, path, name string) bool {
	f := fnv.New32a()
	fmt.Fprintf(f, "%d %d %s %s", k.Salt, i, path, name)

	return f.Sum32()%7 == 0
}

func rank(key, name string) string {
	switch key {
	case "length":
		return fmt.Sprintf("%04d", len(name))
	case "last":
		return name[len(name)-1:]
	case "first":
		return name[:1]
	}

	b := []byte(name)
	slices.Reverse(b)

	return string(b)
}

var sortKeys = []string{"length", "last", "first", "reversed"}

// apply adds the hooks to the options and to the model
func (h *hookings) apply(cs *kit.Case, forest func() *kit.VFS) []pref.Option {
	var options []pref.Option

	if k := h.Read; k != nil {
		cs.Drop = func(path, name string) bool {
			for i := range k.Links {
				if k.drops(i, path, name) {
					return true
				}
			}

			return false
		}
		step := func(i int, in []fs.DirEntry, err error, rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
			if i == 0 {
				h.dirnames = append(h.dirnames, dirname)
			}

			if rsys != fs.ReadDirFS(forest()) {
				h.amiss("read hook %d: another file system", i)
			}

			if err != nil {
				return in, err
			}

			out := make([]fs.DirEntry, 0, len(in))

			for _, e := range in {
				for j := range i {
					if k.drops(j, dirname, e.Name()) {
						h.amiss("read hook %d of %q was given %q, dropped by %d", i, dirname, e.Name(), j)
					}
				}

				if e.Name() != ".DS_Store" && !k.drops(i, dirname, e.Name()) {
					out = append(out, e)
				}
			}

			if i == k.Links-1 && slices.Contains(k.Faults, dirname) {
				return nil, kit.ErrFault
			}

			return out, nil
		}

		for i := range k.Links {
			if i == 0 && k.Tap {
				options = append(options, age.WithHookReadDirectory(func(rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
					in, err := rsys.ReadDir(dirname)
					if err != nil {
						in = nil
					}

					return step(0, in, err, rsys, dirname)
				}))

				continue
			}

			options = append(options, func(o *pref.Options) error {
				o.Hooks.ReadDirectory.Chain(func(in []fs.DirEntry, err error, rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
					return step(i, in, err, rsys, dirname)
				})

				return nil
			})
		}
	}

	if k := h.Sort; k != nil {
		var base func(a, b string) bool

		if k.Tap {
			base = func(a, b string) bool { return a > b }
			options = append(options, age.WithHookSort(func(entries []fs.DirEntry, _ ...any) {
				sort.SliceStable(entries, func(i, j int) bool { return entries[i].Name() > entries[j].Name() })
			}))
		} else {
			plain := *cs
			base = plain.Less
		}

		less := base

		for _, key := range k.Keys {
			prev := less
			less = func(a, b string) bool {
				if ra, rb := rank(key, a), rank(key, b); ra != rb {
					return ra < rb
				}

				return prev(a, b)
			}
			options = append(options, func(o *pref.Options) error {
				o.Hooks.Sort.Chain(func(entries []fs.DirEntry, _ ...any) {
					if !sort.SliceIsSorted(entries, func(i, j int) bool { return prev(entries[i].Name(), entries[j].Name()) }) {
						h.amiss("the %q sort hook was given entries not sorted by its predecessor", key)
					}

					sort.SliceStable(entries, func(i, j int) bool {
						return rank(key, entries[i].Name()) < rank(key, entries[j].Name())
					})
				})

				return nil
			})
		}

		cs.Sorter = less
	}

	spell := func(k *hooking, name string, i int, sofar string) string {
		if i == 0 && k.Tap {
			sofar = ""
		}

		return fmt.Sprintf("%s<%d%s", sofar, i, name)
	}

	for _, one := range []struct {
		k   *hooking
		dir bool
	}{{h.File, false}, {h.Dir, true}} {
		k := one.k
		if k == nil {
			continue
		}

		step := func(i int, sofar string, info *core.SubPathInfo) string {
			if info.Tree != cs.Tree || info.KeepTrailingSep == cs.TrimSep || info.Node.IsDirectory() != one.dir {
				h.amiss("sub path hook (directory %v) was given %q, keep separator %v, node %q",
					one.dir, info.Tree, info.KeepTrailingSep, info.Node.Path)
			}

			return spell(k, filepath.Base(info.Node.Path), i, sofar)
		}

		for i := range k.Links {
			if i == 0 && k.Tap {
				hook := func(info *core.SubPathInfo) string { return step(0, "", info) }
				if one.dir {
					options = append(options, age.WithHookDirectorySubPath(hook))
				} else {
					options = append(options, age.WithHookFileSubPath(hook))
				}

				continue
			}

			options = append(options, func(o *pref.Options) error {
				hook := func(sofar string, info *core.SubPathInfo) string { return step(i, sofar, info) }
				if one.dir {
					o.Hooks.DirectorySubPath.Chain(hook)
				} else {
					o.Hooks.FileSubPath.Chain(hook)
				}

				return nil
			})
		}
	}

	if h.File != nil || h.Dir != nil {
		cs.SubPathOf = func(s *kit.Snap, plain string) string {
			k := h.File
			if s.Dir {
				k = h.Dir
			}

			if k == nil {
				return plain
			}

			for i := range k.Links {
				plain = spell(k, filepath.Base(s.Path), i, plain)
			}

			return plain
		}
	}

	if k := h.Query; k != nil {
		step := func(i int, info fs.FileInfo, err error, qsys fs.StatFS, path string) (fs.FileInfo, error) {
			if qsys != fs.StatFS(forest()) {
				h.amiss("query hook %d: another file system", i)
			}

			if err != nil {
				h.amiss("query hook %d of %q was given the error: %v", i, path, err)
				return info, err
			}

			if i == 0 {
				h.queried = append(h.queried, path)
			} else if sz, ok := info.(sized); !ok || sz.link != i-1 {
				h.amiss("query hook %d was given %v", i, info)
			}

			if k.Fails && i == k.Links-1 {
				return nil, kit.ErrFault
			}

			return sized{info, int64(k.Size), i}, nil
		}

		for i := range k.Links {
			if i == 0 && k.Tap {
				options = append(options, age.WithHookQueryStatus(func(qsys fs.StatFS, path string) (fs.FileInfo, error) {
					info, err := qsys.Stat(path)
					return step(0, info, err, qsys, path)
				}))

				continue
			}

			options = append(options, func(o *pref.Options) error {
				o.Hooks.QueryStatus.Chain(func(info fs.FileInfo, err error, qsys fs.StatFS, path string) (fs.FileInfo, error) {
					return step(i, info, err, qsys, path)
				})

				return nil
			})
		}

		root := *cs.Root
		root.Size = k.Size
		cs.Root = &root
		cs.RootStat = k.Fails
	}

	if h.Read != nil {
		cs.ReadErr = append(slices.Clone(cs.ReadErr), h.Read.Faults...)
	}

	return options
}

// sized is what the query hook makes of a file info
type sized struct {
	fs.FileInfo
	size int64
	link int
}

func (s sized) Size() int64 { return s.size }

func genHookings(c *kit.C, cs *kit.Case, faults bool) *hookings {
	h := &hookings{
		Read: genHooking(c, "read"), Sort: genHooking(c, "sort"),
		File: genHooking(c, "file"), Dir: genHooking(c, "dir"), Query: genHooking(c, "query"),
	}

	if k := h.Read; k != nil {
		k.Salt = rapid.Uint32().Draw(c.T, "salt")

		if dirs := cs.Paths(func(e *kit.Entry) bool { return e.Dir }); faults && len(dirs) > 0 && rapid.IntRange(0, 2).Draw(c.T, "fault") == 0 {
			k.Faults = []string{pick(c, dirs, "fails at")}
		}
	}

	if k := h.Sort; k != nil {
		for range k.Links {
			k.Keys = append(k.Keys, rapid.SampledFrom(sortKeys).Draw(c.T, "key"))
		}
	}

	if k := h.Query; k != nil {
		k.Size = rapid.IntRange(100000, 100010).Draw(c.T, "size")
		k.Fails = faults && rapid.IntRange(0, 5).Draw(c.T, "query fails") == 0
	}

	return h
}

func (h *hookings) count() (n, chained int) {
	for _, k := range []*hooking{h.Read, h.Sort, h.File, h.Dir, h.Query} {
		if k != nil {
			n++

			if !k.Tap || k.Links > 1 {
				chained++
			}
		}
	}

	return
}

func (h *hookings) judge(c *kit.C, what any, want *kit.Expected, fresh bool) {
	if h.wrong != "" {
		c.Bad(what, h.wrong)
	}

	if h.Query != nil {
		for _, p := range h.queried {
			if len(h.queried) > 1 && fresh || p == "" {
				c.Bad(what, fmt.Sprintf("query hook was called for %q", h.queried))
			}
		}

		if len(h.queried) == 0 {
			c.Bad(what, "query hook was not called")
		}
	}

	if h.Read != nil && fresh {
		seen := map[string]bool{}

		for _, p := range h.dirnames {
			if !want.Reads[p] {
				c.Bad(what, fmt.Sprintf("read hook was called for %q", p))
			}

			seen[p] = true
		}

		for p := range want.Reads {
			if !seen[p] {
				c.Bad(what, fmt.Sprintf("read hook was not called for %q", p))
			}
		}
	}
}

func TestC24(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "any combination of features (as for C31) with any combination of hooks, each installed, chained or both: reads that " +
			"remove entries or fail, other sort orders, sub paths, and root queries; non-trivial: 3 hooks or more of which 2 have " +
			"chains, 3 nodes or more delivered",
		Cases: 1500,
	}, func(c *kit.C) {
		cs, n := genCombo(c, kit.DefaultTree)
		h := genHookings(c, cs, true)
		hooked := *cs
		fS := cs.FS()
		options := h.apply(&hooked, func() *kit.VFS { return fS })
		want := hooked.Model()
		what := fmt.Sprintf("%v\nhooks %v", cs, h)

		hooks, chained := h.count()
		c.Case(hooks > 2 && chained > 1 && len(want.Invoked()) > 2, what)
		c.Class(h.Read != nil, "read")
		c.Class(h.Sort != nil, "sort")
		c.Class(h.File != nil || h.Dir != nil, "sub path")
		c.Class(h.Query != nil, "query")
		c.Class(n > 1, "2 or more features")
		c.Class(cs.Sample != nil, "sampling")

		got := cs.Run(kit.RunOpts{FS: fS, Extra: options})

		if d := kit.Diff(want, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsEvents, kit.AsErr, kit.AsAsks); d != "" {
			c.Bad(what, d)
		}

		if !sampleFiltered(cs) {
			if d := kit.Diff(want, got, kit.AsMetrics); d != "" {
				c.Bad(what, d)
			}
		}

		h.judge(c, what, want, true)
	})
}

// hooks can't be saved, so are given again when resuming
func TestC24Resume(t *testing.T) {
	dir := scratch(t)

	kit.Check(t, kit.Opt{
		Rule:  rulePanic + "with any combination of hooks, then resumed with the same hooks, by either strategy; non-trivial: 2 hooks or more, something precedes the resume point and something follows it",
		Cases: 1000,
	}, func(c *kit.C) {
		strategy := enums.ResumeStrategySpawn
		if rapid.Bool().Draw(c.T, "fastward") {
			strategy = enums.ResumeStrategyFastward
		}

		cs, _ := genCombo(c, crashTree)
		cs.Actions, cs.Hib = nil, nil

		h := genHookings(c, cs, false)
		if h.Query != nil {
			h.Query.Size = cs.Root.Size
		}

		hooked := *cs
		fS := cs.FS()
		forest := func() *kit.VFS { return fS }
		options := h.apply(&hooked, forest)
		full := hooked.Model()
		what := fmt.Sprintf("%v\nhooks %v", cs, h)
		inv := full.Invoked()

		if len(inv) == 0 {
			return
		}

		at := pick(c, inv, "panics at")
		left := rest(full, at)
		hooks, _ := h.count()

		c.Case(hooks > 1 && len(left.Invoked()) > 1 && len(left.Invoked()) < len(inv), fmt.Sprintf("%s\npanics at %q, resumed by %v", what, at, strategy))
		c.Class(strategy == enums.ResumeStrategySpawn, "spawn")
		c.Class(h.Sort != nil, "sort")
		c.Class(h.Read != nil, "read")

		_, saved := crash(c, cs, at, kit.RunOpts{FS: fS, Extra: options})

		h.dirnames, h.queried = nil, nil
		fS = cs.FS()
		got := cs.Resume(dir, saved, strategy, kit.RunOpts{FS: fS, Extra: options})
		what = fmt.Sprintf("%s\npanics at %q, resumed by %v", what, at, strategy)

		if strategy == enums.ResumeStrategySpawn {
			spawned(got)
			spawned(&kit.Outcome{Events: left.Events})
		}

		if d := kit.Diff(left, got, kit.AsOrder, kit.AsSnaps, kit.AsKids, kit.AsErr); d != "" {
			c.Bad(what, d)
		}

		h.judge(c, what, full, false)

		for _, p := range h.dirnames {
			if !full.Reads[p] && !strings.HasPrefix(at, p) {
				c.Bad(what, fmt.Sprintf("read hook was called for %q", p))
			}
		}
	})
}

// TestC24Provided installs the hooks which the library provides itself.
func TestC24Provided(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "any combination of features (as for C31), where any of the hooks provided are installed: the default ones make no difference, and with " +
			"the root item sub path a node has its path relative to the root as sub path; non-trivial: 2 hooks or more, 3 nodes or more delivered",
		Cases: 500,
	}, func(c *kit.C) {
		cs, _ := genCombo(c, kit.DefaultTree)
		installed := []string{}

		var options []pref.Option

		install := func(name string, option pref.Option) bool {
			if !rapid.Bool().Draw(c.T, name) {
				return false
			}

			installed = append(installed, name)
			options = append(options, option)

			return true
		}

		install("query", age.WithHookQueryStatus(pref.DefaultQueryStatusHook))
		install("read", age.WithHookReadDirectory(pref.DefaultReadEntriesHook))

		switch {
		case !cs.CaseSens:
			install("insensitive", age.WithHookSort(pref.DefaultCaseInSensitiveSortHook))
		case !cs.CaseBy:
			install("sensitive", age.WithHookSort(pref.CaseSensitiveSortHook))
		}

		var items [2]bool

		for i, with := range []func(core.SubPathHook) pref.Option{age.WithHookFileSubPath, age.WithHookDirectorySubPath} {
			if !install(fmt.Sprintf("default sub path %d", i), with(pref.DefaultSubPathHook)) {
				items[i] = install(fmt.Sprintf("item sub path %d", i), with(pref.RootItemSubPathHook))
			}
		}

		hooked := *cs

		hooked.SubPathOf = func(s *kit.Snap, plain string) string {
			if kind := map[bool]int{true: 1}[s.Dir]; !items[kind] {
				return plain
			}

			rel, err := filepath.Rel(cs.Tree, s.Path)
			if err != nil || rel == "." {
				return ""
			}

			return string(filepath.Separator) + rel
		}

		want := hooked.Model()
		got := cs.Run(kit.RunOpts{Extra: options})
		what := fmt.Sprintf("%v\ninstalled %v", cs, installed)

		c.Case(len(installed) > 1 && len(want.Invoked()) > 2, what)
		c.Class(items[0] || items[1], "root item")

		if d := kit.Diff(want, got, kit.AsEvents, kit.AsSnaps, kit.AsErr); d != "" {
			c.Bad(what, d)
		}

		if !sampleFiltered(cs) {
			if d := kit.Diff(want, got, kit.AsMetrics); d != "" {
				c.Bad(what, d)
			}
		}
	})
}
