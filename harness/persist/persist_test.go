package persist_test

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"reflect"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/internal/enclave"
	"github.com/snivilised/agenor/internal/opts/json"
	"github.com/snivilised/agenor/internal/persist"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// files is what is written
type files struct {
	*kit.VFS
	data map[string][]byte
	perm map[string]fs.FileMode
	fail error
}

func (f *files) WriteFile(name string, data []byte, perm fs.FileMode) error {
	if f.fail != nil {
		return f.fail
	}

	f.data[name], f.perm[name] = bytes.Clone(data), perm

	return nil
}

func (f *files) ReadFile(name string) ([]byte, error) {
	if data, ok := f.data[name]; ok {
		return bytes.Clone(data), nil
	}

	return nil, fs.ErrNotExist
}

// source of values; strange is whether text may include some that is not
// valid utf-8
type source struct {
	c       *kit.C
	strange bool
	odd     bool // some was included
}

func (s *source) text(label string) string {
	kind := rapid.IntRange(0, 7).Draw(s.c.T, label+" kind")

	switch {
	case kind == 0:
		return ""
	case kind == 1:
		return rapid.SampledFrom([]string{
			"*.flac", `^\d+"<&>'`, "\\", "\"", "a|b,c", "\u2028\u2029", "\x00\x01\x1f\x7f", "\n\t\r", "</script>", "日本/ファイル", "\ufffd",
			"\U0001F600", "e\u0301", "null", "{}", strings.Repeat("x", 300),
		}).Draw(s.c.T, label)
	case kind == 2 && s.strange:
		v := string(rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(s.c.T, label))
		s.odd = s.odd || !utf8.ValidString(v)

		return v
	}

	return rapid.StringN(0, 8, -1).Draw(s.c.T, label)
}

func (s *source) b(label string) bool { return rapid.Bool().Draw(s.c.T, label) }

func (s *source) u(label string) uint {
	return uint(rapid.OneOf(
		rapid.Uint64Range(0, 9), rapid.SampledFrom([]uint64{1 << 31, 1<<53 + 1, 1<<64 - 1}),
	).Draw(s.c.T, label))
}

func (s *source) of(label string, limit int) int {
	return rapid.IntRange(0, limit).Draw(s.c.T, label)
}

func (s *source) def(label string, deep int) *core.FilterDef {
	if !s.b(label) {
		return nil
	}

	v := s.value(label, deep)

	return &v
}

func (s *source) value(label string, deep int) core.FilterDef {
	v := core.FilterDef{
		Type:            enums.FilterType(s.of("type", 8)),
		Description:     s.text("description"),
		Pattern:         s.text("pattern"),
		Scope:           enums.FilterScope(s.of("scope", 255)),
		Negate:          s.b("negate"),
		IfNotApplicable: enums.TriStateBool(s.of("if not applicable", 2)),
	}

	v.Poly = s.poly(label, deep)

	return v
}

func (s *source) poly(label string, deep int) *core.PolyFilterDef {
	if deep == 0 || s.of(label+" poly", 2) != 0 {
		return nil
	}

	return &core.PolyFilterDef{File: s.value("file", deep-1), Directory: s.value("directory", deep-1)}
}

func (s *source) options() *pref.Options {
	o := pref.DefaultOptions()
	o.Behaviours = pref.NavigationBehaviours{
		SubPath: pref.SubPathBehaviour{KeepTrailingSep: s.b("keep")},
		Sort:    pref.SortBehaviour{IsCaseSensitive: s.b("case"), SortFilesFirst: s.b("files first")},
		Cascade: pref.CascadeBehaviour{Depth: s.u("depth"), NoRecurse: s.b("no recurse")},
	}
	o.Sampling = pref.SamplingOptions{
		Type: enums.SampleType(s.of("sample", 4)), InReverse: s.b("reverse"),
		NoOf: pref.EntryQuantities{Files: s.u("files"), Directories: s.u("directories")},
	}
	o.Filter.Node = s.def("node", 2)

	if s.b("child") {
		o.Filter.Child = &core.ChildFilterDef{
			Type: enums.FilterType(s.of("type", 8)), Description: s.text("description"),
			Pattern: s.text("pattern"), Negate: s.b("negate"),
		}
	}

	if s.b("sample filter") {
		o.Filter.Sample = &core.SampleFilterDef{
			Type: enums.FilterType(s.of("type", 8)), Description: s.text("description"),
			Pattern: s.text("pattern"), Scope: enums.FilterScope(s.of("scope", 255)), Negate: s.b("negate"),
			Poly: s.poly("sample", 2),
		}
	}

	o.Hibernate = core.HibernateOptions{
		WakeAt: s.def("wake", 1), SleepAt: s.def("sleep", 1),
		Behaviour: core.HibernationBehaviour{InclusiveWake: s.b("inclusive wake"), InclusiveSleep: s.b("inclusive sleep")},
	}
	o.Concurrency.NoW = s.u("workers")

	return o
}

func (s *source) active() *core.ActiveState {
	a := &core.ActiveState{
		Tree:                s.text("tree"),
		TraverseDescription: core.FsDescription{IsRelative: s.b("relative")},
		ResumeDescription:   core.FsDescription{IsRelative: s.b("resume relative")},
		Subscription:        enums.Subscription(s.of("subscription", 6)),
		Hibernation:         enums.Hibernation(s.of("hibernation", 4)),
		CurrentPath:         s.text("current"),
		IsDir:               s.b("is dir"),
		Depth:               s.of("active depth", 50),
		Metrics:             core.Metrics{},
	}

	for _, m := range kit.MetricKinds {
		if s.b("metric") {
			a.Metrics[m] = &core.NavigationMetric{T: m, Counter: core.MetricValue(s.u("count"))}
		}
	}

	return a
}

// persisted is the part of the options that is saved, as a value that can be
// compared and printed
type persisted struct {
	Behaviours pref.NavigationBehaviours
	Type       enums.SampleType
	InReverse  bool
	NoOf       pref.EntryQuantities
	Node       *core.FilterDef
	Child      *core.ChildFilterDef
	Sample     *core.SampleFilterDef
	Hibernate  core.HibernateOptions
	NoW        uint
}

func part(o *pref.Options) string {
	return dump(persisted{
		o.Behaviours, o.Sampling.Type, o.Sampling.InReverse, o.Sampling.NoOf, o.Filter.Node, o.Filter.Child,
		o.Filter.Sample, o.Hibernate, o.Concurrency.NoW,
	})
}

// dump follows pointers, and writes numbers rather than names
func dump(v any) string {
	var sb strings.Builder

	var write func(name string, v reflect.Value)
	write = func(name string, v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				fmt.Fprintf(&sb, "%s=nil\n", name)
				return
			}

			write(name, v.Elem())
		case reflect.Struct:
			for i := range v.NumField() {
				write(name+"."+v.Type().Field(i).Name, v.Field(i))
			}
		case reflect.Map:
			for _, m := range kit.MetricKinds {
				if e := v.MapIndex(reflect.ValueOf(m)); e.IsValid() {
					write(fmt.Sprintf("%s[%d]", name, int(m)), e)
				}
			}

			fmt.Fprintf(&sb, "%s has %d\n", name, v.Len())
		case reflect.String:
			fmt.Fprintf(&sb, "%s=%q\n", name, v.String())
		case reflect.Bool:
			fmt.Fprintf(&sb, "%s=%v\n", name, v.Bool())
		case reflect.Int, reflect.Int64, reflect.Int32:
			fmt.Fprintf(&sb, "%s=%d\n", name, v.Int())
		case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
			fmt.Fprintf(&sb, "%s=%d\n", name, v.Uint())
		default:
			panic(fmt.Sprintf("%s: kind %v", name, v.Kind()))
		}
	}

	write("", reflect.ValueOf(v))

	return sb.String()
}

func diff(what, want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range min(len(w), len(g)) {
		if w[i] != g[i] {
			return fmt.Sprintf("%s: want %s got %s", what, w[i], g[i])
		}
	}

	if len(w) != len(g) {
		return fmt.Sprintf("%s: want %d items got %d", what, len(w), len(g))
	}

	return ""
}

func TestC20(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "options with every persisted field drawn (filters of any type, poly up to 2 levels, extreme numbers, text with quotes, " +
			"control, html and non-ascii characters; 1 in 6 may have text that is not valid utf-8) and any active state; " +
			"non-trivial: at least one filter or trigger is defined",
		Cases: 6000,
	}, func(c *kit.C) {
		src := &source{c: c, strange: rapid.IntRange(1, 6).Draw(c.T, "strange") == 1}
		o, a := src.options(), src.active()
		f := &files{data: map[string][]byte{}, perm: map[string]fs.FileMode{}}
		path := rapid.SampledFrom([]string{"admin/resume.json", "/x/y.json"}).Draw(c.T, "path")
		perm := rapid.SampledFrom([]fs.FileMode{0o600, 0o644}).Draw(c.T, "perm")
		wantO, wantA := part(o), dump(a)
		text := wantO + wantA

		c.Case(o.Filter.Node != nil || o.Filter.Child != nil || o.Filter.Sample != nil || o.Hibernate.WakeAt != nil ||
			o.Hibernate.SleepAt != nil, text)
		c.Class(src.odd, "not utf-8")

		if rapid.IntRange(1, 20).Draw(c.T, "unwritable") == 1 {
			f.fail = errors.New("verif: write")
		}

		result, err := persist.Marshal(&persist.MarshalRequest{Active: a, O: o, Path: path, Perm: perm, FS: f})

		if d := diff("options after marshalling", wantO, part(o)); d != "" {
			c.Bad(text, d)
		}

		if d := diff("state after marshalling", wantA, dump(a)); d != "" {
			c.Bad(text, d)
		}

		if f.fail != nil {
			if err == nil {
				c.Bad(text, "writing failed, but marshalling did not")
			}

			return
		}

		if src.odd {
			// can't be represented, so must not go unnoticed; unless the text
			// is not among what ends up in the document
			if err != nil {
				if !errors.Is(err, locale.ErrUnEqualConversion) {
					c.Bad(text, fmt.Sprintf("text that is not utf-8: error %v", err))
				}

				if len(f.data) > 0 {
					c.Bad(text, "an unfaithful document was written, although it was noticed")
				}

				return
			}
		} else if err != nil {
			c.Bad(text, fmt.Sprintf("marshalling failed: %v", err))
		}

		if len(f.data) != 1 || f.data[path] == nil || f.perm[path] != perm {
			c.Bad(text, fmt.Sprintf("document not written as requested: %v", f.perm))
		}

		if result == nil || result.Active == nil || result.JO == nil {
			c.Bad(text, "marshalling gave no result")
		}

		if d := diff("marshalled state", wantA, dump(result.Active)); d != "" {
			c.Bad(text, d)
		}

		restore := &enclave.RestoreState{Path: path, FS: f}
		back, err := persist.Unmarshal(&persist.UnmarshalRequest{Restore: restore})

		if err != nil {
			c.Bad(text, fmt.Sprintf("unmarshalling failed: %v", err))
		}

		if d := diff("options", wantO, part(back.O)); d != "" {
			c.Bad(text, d)
		}

		if d := diff("state", wantA, dump(back.Active)); d != "" {
			c.Bad(text, d)
		}

		// what is not persisted is as by default
		if back.O.Filter.Custom != nil || back.O.Filter.Sink != nil || back.O.Defects.Fault == nil || back.O.Defects.Panic == nil ||
			back.O.Defects.Skip == nil || back.O.Monitor.Log == nil || back.O.Hooks.Sort == nil || back.O.Hooks.ReadDirectory == nil {
			c.Bad(text, "what is not persisted is not at its default")
		}

		// and once more: the same document
		g := &files{data: map[string][]byte{}, perm: map[string]fs.FileMode{}}
		if _, err = persist.Marshal(&persist.MarshalRequest{Active: back.Active, O: back.O, Path: path, Perm: perm, FS: g}); err != nil {
			c.Bad(text, fmt.Sprintf("marshalling what was unmarshalled failed: %v", err))
		}

		if !bytes.Equal(f.data[path], g.data[path]) {
			c.Bad(text, "marshalling what was unmarshalled gives another document")
		}
	})
}

// spot is a place in the options at which a difference can be made
type spot struct {
	name string
	set  func()
}

// spots finds all of them.
func spots(name string, v reflect.Value) (found []spot) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return []spot{{name + " set", func() { v.Set(reflect.New(v.Type().Elem())) }}}
		}

		found = append(found, spot{name + " nil", func() { v.SetZero() }})

		return append(found, spots(name, v.Elem())...)
	case reflect.Struct:
		for i := range v.NumField() {
			found = append(found, spots(name+"."+v.Type().Field(i).Name, v.Field(i))...)
		}
	case reflect.Bool:
		found = append(found, spot{name, func() { v.SetBool(!v.Bool()) }})
	case reflect.String:
		found = append(found, spot{name, func() { v.SetString(v.String() + "x") }})
	case reflect.Int, reflect.Int64, reflect.Int32:
		found = append(found, spot{name, func() { v.SetInt(v.Int() + 1) }})
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uint16, reflect.Uint8:
		found = append(found, spot{name, func() { v.SetUint(v.Uint() ^ 1) }})
	}

	return found
}

func TestC20Comparison(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "options as for the round trip, compared with their own json form, and with it after a difference made at any one " +
			"of its fields (value changed; optional part removed or added); non-trivial: at least 20 fields",
		Cases: 8000,
	}, func(c *kit.C) {
		src := &source{c: c}
		o := src.options()
		jo := persist.ToJSON(o)
		text := part(o)

		if err := (&persist.Comparison{O: o, JO: jo}).Equals(); err != nil {
			c.Bad(text, fmt.Sprintf("own json form is not equal: %v", err))
		}

		back := persist.FromJSON(jo)
		if d := diff("options from json", text, part(back)); d != "" {
			c.Bad(text, d)
		}

		if err := (&persist.Comparison{O: back, JO: jo}).Equals(); err != nil {
			c.Bad(text, fmt.Sprintf("options from json are not equal to the json: %v", err))
		}

		all := spots("", reflect.ValueOf(jo).Elem())
		c.Case(len(all) >= 20, text)

		at := all[rapid.IntRange(0, len(all)-1).Draw(c.T, "spot")]
		at.set()
		c.Class(strings.Contains(at.name, "Poly"), "in a poly filter")

		err := (&persist.Comparison{O: o, JO: jo}).Equals()
		if err == nil || !errors.Is(err, locale.ErrUnEqualConversion) || err.Error() == "" {
			c.Bad(text, fmt.Sprintf("difference at %s: error %v", at.name, err))
		}

		// nor may either be missing
		if err := (&persist.Comparison{O: o}).Equals(); !errors.Is(err, locale.ErrUnEqualConversion) {
			c.Bad(text, fmt.Sprintf("no json: error %v", err))
		}

		if err := (&persist.Comparison{JO: &json.Options{}}).Equals(); !errors.Is(err, locale.ErrUnEqualConversion) {
			c.Bad(text, fmt.Sprintf("no options: error %v", err))
		}
	})
}
