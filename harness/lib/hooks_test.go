package lib_test

import (
	"errors"
	"fmt"
	"io/fs"
	"reflect"
	"strings"
	"testing"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/tapable"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// hooked is one of the hooks seen through strings: a call gives the trace of
// the functions which ran, each with what it was given.
type hooked interface {
	tap(id string)
	wrap(id string) // install a function that calls the one in force
	reset()
	chain(id string)
	call(arg string) (trace []string, result string)
	byDefault(arg string) string
}

type subPathHook struct {
	h   tapable.Hook[core.SubPathHook, core.ChainSubPathHook]
	log *[]string
}

func infoOf(arg string) *core.SubPathInfo {
	return &core.SubPathInfo{
		Tree: "tree", KeepTrailingSep: true,
		Node: &core.Node{Path: "tree/" + arg + "/x", Extension: core.Extension{Parent: "tree/" + arg + "/", Scope: enums.ScopeLeaf}},
	}
}

func (s *subPathHook) tap(id string) {
	s.h.Tap(func(i *core.SubPathInfo) string {
		*s.log = append(*s.log, id+"<"+i.Node.Path)
		return id
	})
}

func (s *subPathHook) wrap(id string) {
	prev := s.h.Invoke()
	s.h.Tap(func(i *core.SubPathInfo) string {
		r := prev(i)
		*s.log = append(*s.log, id+"<"+i.Node.Path+","+r)

		return r + id
	})
}

func (s *subPathHook) reset() { s.h.Tap(s.h.Default()) }

func (s *subPathHook) chain(id string) {
	s.h.Chain(func(r string, i *core.SubPathInfo) string {
		*s.log = append(*s.log, id+"<"+i.Node.Path+","+r)
		return r + id
	})
}

func (s *subPathHook) call(arg string) ([]string, string) {
	*s.log = nil
	r := s.h.Invoke()(infoOf(arg))

	return *s.log, r
}

func (s *subPathHook) byDefault(arg string) string { return s.h.Default()(infoOf(arg)) }

// dirs is the file system the read and query hooks are given.
type dirs struct{ *kit.VFS }

func newDirs() *dirs {
	v := kit.NewVFS(false)
	for i := range 4 {
		v.Put(fmt.Sprintf("d%d", i), &kit.Entry{Name: fmt.Sprintf("d%d", i), Dir: true, Kids: []*kit.Entry{{Name: fmt.Sprintf("f%d", i)}}})
	}

	return &dirs{v}
}

type named struct {
	fs.DirEntry
	name string
}

func (n named) Name() string { return n.name }

func entriesText(es []fs.DirEntry, err error) string {
	r := make([]string, 0, len(es))
	for _, e := range es {
		r = append(r, e.Name())
	}

	if err != nil {
		return strings.Join(append(r, "!"+err.Error()), "")
	}

	return strings.Join(r, "")
}

type readHook struct {
	h   tapable.Hook[core.ReadDirectoryHook, core.ChainReadDirectoryHook]
	fS  *dirs
	log *[]string
}

func (s *readHook) given(rsys fs.ReadDirFS, dirname string) string {
	if rsys != fs.ReadDirFS(s.fS) {
		return "another file system"
	}

	return dirname
}

func (s *readHook) tap(id string) {
	s.h.Tap(func(rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
		*s.log = append(*s.log, id+"<"+s.given(rsys, dirname))

		if strings.HasSuffix(id, "!") {
			return nil, errors.New(id)
		}

		return []fs.DirEntry{named{name: id}}, nil
	})
}

func (s *readHook) after(id string, r []fs.DirEntry, err error, rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
	*s.log = append(*s.log, id+"<"+s.given(rsys, dirname)+","+entriesText(r, err))

	if strings.HasSuffix(id, "!") {
		return r, errors.New(id)
	}

	return append(append([]fs.DirEntry{}, r...), named{name: id}), nil
}

func (s *readHook) wrap(id string) {
	prev := s.h.Invoke()
	s.h.Tap(func(rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
		r, err := prev(rsys, dirname)
		return s.after(id, r, err, rsys, dirname)
	})
}

func (s *readHook) reset() { s.h.Tap(s.h.Default()) }

func (s *readHook) chain(id string) {
	s.h.Chain(func(r []fs.DirEntry, err error, rsys fs.ReadDirFS, dirname string) ([]fs.DirEntry, error) {
		return s.after(id, r, err, rsys, dirname)
	})
}

func (s *readHook) call(arg string) ([]string, string) {
	*s.log = nil
	r := entriesText(s.h.Invoke()(s.fS, arg))

	return *s.log, r
}

func (s *readHook) byDefault(arg string) string { return entriesText(s.h.Default()(s.fS, arg)) }

type queryHook struct {
	h   tapable.Hook[core.QueryStatusHook, core.ChainQueryStatusHook]
	fS  *dirs
	log *[]string
}

type status struct {
	fs.FileInfo
	name string
}

func (n status) Name() string { return n.name }

func infoText(i fs.FileInfo, err error) string {
	r := ""
	if i != nil {
		r = i.Name()
	}

	if err != nil {
		r += "!" + err.Error()
	}

	return r
}

func (s *queryHook) given(qsys fs.StatFS, path string) string {
	if qsys != fs.StatFS(s.fS) {
		return "another file system"
	}

	return path
}

func (s *queryHook) tap(id string) {
	s.h.Tap(func(qsys fs.StatFS, path string) (fs.FileInfo, error) {
		*s.log = append(*s.log, id+"<"+s.given(qsys, path))

		if strings.HasSuffix(id, "!") {
			return nil, errors.New(id)
		}

		return status{name: id}, nil
	})
}

func (s *queryHook) after(id string, r fs.FileInfo, err error, qsys fs.StatFS, path string) (fs.FileInfo, error) {
	*s.log = append(*s.log, id+"<"+s.given(qsys, path)+","+infoText(r, err))

	if strings.HasSuffix(id, "!") {
		return r, errors.New(id)
	}

	return status{name: infoText(r, nil) + id}, nil
}

func (s *queryHook) wrap(id string) {
	prev := s.h.Invoke()
	s.h.Tap(func(qsys fs.StatFS, path string) (fs.FileInfo, error) {
		r, err := prev(qsys, path)
		return s.after(id, r, err, qsys, path)
	})
}

func (s *queryHook) reset() { s.h.Tap(s.h.Default()) }

func (s *queryHook) chain(id string) {
	s.h.Chain(func(r fs.FileInfo, err error, qsys fs.StatFS, path string) (fs.FileInfo, error) {
		return s.after(id, r, err, qsys, path)
	})
}

func (s *queryHook) call(arg string) ([]string, string) {
	*s.log = nil
	r := infoText(s.h.Invoke()(s.fS, arg))

	return *s.log, r
}

func (s *queryHook) byDefault(arg string) string { return infoText(s.h.Default()(s.fS, arg)) }

// sortHook sorts one entry, whose name is the result.
type sortHook struct {
	h   tapable.Hook[core.SortHook, core.ChainSortHook]
	log *[]string
}

func (s *sortHook) tap(id string) {
	s.h.Tap(func(es []fs.DirEntry, custom ...any) {
		*s.log = append(*s.log, id+"<"+fmt.Sprint(custom...))
		es[0] = named{name: id}
	})
}

func (s *sortHook) after(id string, es []fs.DirEntry, custom ...any) {
	*s.log = append(*s.log, id+"<"+fmt.Sprint(custom...)+","+entriesText(es, nil))
	es[0] = named{name: es[0].Name() + id}
}

func (s *sortHook) wrap(id string) {
	prev := s.h.Invoke()
	s.h.Tap(func(es []fs.DirEntry, custom ...any) {
		prev(es, custom...)
		s.after(id, es, custom...)
	})
}

func (s *sortHook) reset() { s.h.Tap(s.h.Default()) }

func (s *sortHook) chain(id string) {
	s.h.Chain(func(es []fs.DirEntry, custom ...any) { s.after(id, es, custom...) })
}

func (s *sortHook) call(arg string) ([]string, string) {
	*s.log = nil
	es := []fs.DirEntry{named{name: arg}}
	s.h.Invoke()(es, arg)

	return *s.log, entriesText(es, nil)
}

func (s *sortHook) byDefault(arg string) string { return arg }

// link is one function in force, in the order in which they run
type link struct {
	id   string
	base bool
}

func TestC24Controls(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "each of the 5 hooks, any sequence of installing, decorating, resetting, chaining and calling, some functions " +
			"failing, against a model; non-trivial: called with at least 2 functions chained, and called after installing over a chain",
		Cases: 3000,
	}, func(c *kit.C) {
		o := pref.DefaultOptions()
		log := []string{}
		fS := newDirs()

		var (
			h       hooked
			failing bool
		)

		kind := rapid.SampledFrom([]string{"file", "directory", "read", "query", "sort"}).Draw(c.T, "hook")

		switch kind {
		case "file":
			h = &subPathHook{o.Hooks.FileSubPath, &log}
		case "directory":
			h = &subPathHook{o.Hooks.DirectorySubPath, &log}
		case "read":
			h, failing = &readHook{o.Hooks.ReadDirectory, fS, &log}, true
		case "query":
			h, failing = &queryHook{o.Hooks.QueryStatus, fS, &log}, true
		case "sort":
			h = &sortHook{o.Hooks.Sort, &log}
		}

		var (
			force   []link // empty means the default runs first
			did     []string
			many    bool
			over    bool
			tapped  bool
			pending bool
			fails   bool
		)

		for n := range kit.Upto(c.T, "ops", 2, 16, 80) {
			id := string(rune('a' + n))
			if failing && rapid.IntRange(0, 4).Draw(c.T, "fails") == 0 {
				id += "!"
				fails = true
			}

			switch rapid.IntRange(0, 9).Draw(c.T, "op") {
			case 0:
				did = append(did, "tap "+id)
				pending = len(force) > 1
				tapped = true
				force = []link{{id, true}}
				h.tap(id)
			case 1:
				did = append(did, "decorate "+id)
				force = append(force, link{id, false})
				h.wrap(id)
			case 2:
				did = append(did, "reset")
				pending = len(force) > 1
				force = nil
				h.reset()
			case 3, 4, 5:
				did = append(did, "chain "+id)
				force = append(force, link{id, false})
				h.chain(id)
			default:
				arg := fmt.Sprintf("d%d", rapid.IntRange(0, 4).Draw(c.T, "arg")) // one more than there are
				did = append(did, "call "+arg)

				trace, result := h.call(arg)
				wantTrace, want := expected(kind, force, arg, h)

				if !reflect.DeepEqual(append([]string{}, trace...), wantTrace) || result != want {
					c.Fatalf("%v hook, %v:\n ran %q giving %q\nwant %q giving %q", kind, did, trace, result, wantTrace, want)
				}

				many = many || len(force) > 2
				over = over || pending
			}
		}

		c.Class(fails, "failing")
		c.Class(tapped, "replaced")
		c.Class(true, kind)
		c.Case(many && over, kind+": "+strings.Join(did, ", "))
	})
}

// expected trace and result of the functions in force.
func expected(kind string, force []link, arg string, h hooked) ([]string, string) {
	shown := arg
	if kind == "file" || kind == "directory" {
		shown = "tree/" + arg + "/x"
	}

	value, failed := h.byDefault(arg), ""
	if v, f, cut := strings.Cut(value, "!"); cut {
		value, failed = v, "!"+f
	}

	trace := []string{}

	for _, l := range force {
		if l.base {
			trace = append(trace, l.id+"<"+shown)
			value, failed = l.id, ""

			if strings.HasSuffix(l.id, "!") {
				value, failed = "", "!"+l.id
			}

			continue
		}

		trace = append(trace, l.id+"<"+shown+","+value+failed)

		if strings.HasSuffix(l.id, "!") {
			failed = "!" + l.id
		} else {
			value, failed = value+l.id, ""
		}
	}

	return trace, value + failed
}
