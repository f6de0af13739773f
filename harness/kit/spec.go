package kit

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"syscall"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/pref"

	age "github.com/snivilised/agenor"
)

// FilterSpec describes a node filter independently of the code under test.
type FilterSpec struct {
	Kind    string            // glob | regex | globex | poly | custom
	Desc    string            `json:",omitempty"`
	Pattern string            `json:",omitempty"`
	Scope   enums.FilterScope `json:",omitempty"`
	Negate  bool              `json:",omitempty"`
	IfNA    int               `json:",omitempty"` // 0 unset, 1 true, 2 false
	File    *FilterSpec       `json:",omitempty"` // poly
	Dir     *FilterSpec       `json:",omitempty"` // poly
}

// ChildSpec describes a child filter.
type ChildSpec struct {
	Kind    string // glob | regex
	Pattern string
	Negate  bool
}

// SampleSpec describes sampling.
type SampleSpec struct {
	Files, Dirs uint
	Reverse     bool
	// Filter, when not nil, selects filter sampling.
	Filter *FilterSpec
}

// HibSpec describes hibernation.
type HibSpec struct {
	Wake, Sleep    *FilterSpec
	ExclusiveWake  bool
	InclusiveSleep bool
	Whole          bool // use WithHibernationOptions rather than the individual setters
}

// Case is a complete traversal configuration.
type Case struct {
	given *Given

	Root       *Entry
	Tree       string
	Spelling   string `json:",omitempty"` // how the tree is given, see Spellings
	Abs        bool
	Sub        enums.Subscription
	Depth      uint              `json:",omitempty"`
	NoRecurse  bool              `json:",omitempty"`
	FilesFirst bool              `json:",omitempty"`
	CaseSens   bool              `json:",omitempty"`
	CaseBy     bool              `json:",omitempty"` // case sensitive by the sort behaviour, as opposed to by the hook
	TrimSep    bool              `json:",omitempty"`
	Filter     *FilterSpec       `json:",omitempty"`
	Child      *ChildSpec        `json:",omitempty"`
	Sample     *SampleSpec       `json:",omitempty"`
	Hib        *HibSpec          `json:",omitempty"`
	Actions    map[string]string `json:",omitempty"` // path -> skipdir|skipall|error|panic
	ReadErr    []string          `json:",omitempty"`
	InfoErr    []string          `json:",omitempty"`
	Partial    map[string]int    `json:",omitempty"`
	RootStat   bool              `json:",omitempty"` // stat of the tree fails
	AskOn      bool              `json:",omitempty"` // install a skip handler
	Ask        map[string]string `json:",omitempty"` // path -> all|dir|all+err
	AskErr     string            `json:",omitempty"` // reply to a read error: none|all|dir|err
	Fault      string            `json:",omitempty"` // "", swallow, replace
	ReverseFS  bool              `json:",omitempty"`

	// what hooks do, for the benefit of the model only
	Sorter    func(a, b string) bool             `json:"-"`
	SubPathOf func(s *Snap, plain string) string `json:"-"`
	Drop      func(path, name string) bool       `json:"-"`
}

func (c *Case) String() string {
	s := *c
	s.Root = nil
	b, _ := json.Marshal(s)

	return fmt.Sprintf("%s tree=%s", b, c.Root)
}

// Sentinel errors used by generated callbacks and faults.
var (
	ErrCallback = errors.New("verif: callback error")
	ErrFault    = errors.New("verif: injected fault")
	ErrAsk      = errors.New("verif: skip handler error")
	ErrReplaced = errors.New("verif: replaced fault")
	ErrPanicked = errors.New("verif: a panic, which is turned into an error") // by the model only
)

// FilterTypes maps spec kinds to filter types.
var FilterTypes = map[string]enums.FilterType{
	"glob":   enums.FilterTypeGlob,
	"regex":  enums.FilterTypeRegex,
	"globex": enums.FilterTypeGlobEx,
	"poly":   enums.FilterTypePoly,
	"custom": enums.FilterTypeCustom,
}

// Def builds the definition given to the code under test.
func (f *FilterSpec) Def() *core.FilterDef {
	if f == nil {
		return nil
	}

	d := &core.FilterDef{
		Type:        FilterTypes[f.Kind],
		Description: f.Desc,
		Pattern:     f.Pattern,
		Scope:       f.Scope,
		Negate:      f.Negate,
	}

	switch f.IfNA {
	case 1:
		d.IfNotApplicable = enums.TriStateBoolTrue
	case 2:
		d.IfNotApplicable = enums.TriStateBoolFalse
	}

	if f.Kind == "poly" {
		d.Poly = &core.PolyFilterDef{File: *f.File.Def(), Directory: *f.Dir.Def()}
	}

	return d
}

// custom part of a poly filter
func (f *FilterSpec) custom() *FilterSpec {
	for _, part := range []*FilterSpec{f.File, f.Dir} {
		if part != nil && part.Kind == "custom" {
			return part
		}
	}

	return nil
}

// Match is the reference meaning of a node filter.
func (f *FilterSpec) Match(n *Snap) bool {
	switch f.Kind {
	case "poly":
		if n.Dir {
			return true
		}

		// the scope of a client defined filter is its own affair
		ff, df := *f.File, *f.Dir
		if ff.Kind != "custom" {
			ff.Scope = (ff.Scope | enums.ScopeFile) &^ enums.ScopeDirectory
		}

		if df.Kind != "custom" {
			df.Scope = (df.Scope | enums.ScopeDirectory) &^ enums.ScopeFile
		}

		if n.Up == nil {
			return ff.Match(n)
		}

		return df.Match(n.Up) && ff.Match(n)
	case "globex":
		return f.globex(n)
	}

	scope := f.Scope
	if scope == enums.ScopeUndefined {
		scope = enums.ScopeAll
	}

	if scope&n.Scope == 0 {
		return f.IfNA != 2
	}

	return MatchName(f.Kind, f.Pattern, n.Name) != f.Negate
}

// MatchName applies a glob or a regex to a name.
func MatchName(kind, pattern, name string) bool {
	if kind == "regex" {
		return regexp.MustCompile(pattern).MatchString(name)
	}

	m, _ := filepath.Match(pattern, name)

	return m
}

func (f *FilterSpec) globex(n *Snap) bool {
	if n.Dir {
		return f.IfNA != 2
	}

	bar := strings.Index(f.Pattern, "|")
	dirPart, filePart := strings.ToLower(f.Pattern[:bar]), f.Pattern[bar+1:]
	excl := ""

	if i := strings.Index(dirPart, "/"); i >= 0 {
		dirPart, excl = dirPart[:i], dirPart[i+1:]
	}

	if n.Up != nil {
		pn := strings.ToLower(n.Up.Name)
		if in, _ := filepath.Match(dirPart, pn); !in {
			return f.IfNA != 2
		}

		if out, _ := filepath.Match(excl, pn); out && excl != "" {
			return f.IfNA != 2
		}
	}

	return globexFiles(filePart, n.Name) != f.Negate
}

// globexFiles: a file matches when any of the comma separated sub patterns
// selects it, and no exclusion (base.!ext) rejects it; a list that contains an
// exclusion selects whatever is not excluded.
func globexFiles(list, name string) bool {
	name = strings.ToLower(name)
	selected := false

	for _, p := range strings.Split(list, ",") {
		p = strings.ToLower(strings.TrimSpace(p))
		if p == "" || p == "!" {
			continue
		}

		dot := strings.LastIndex(p, ".")
		base, ext := p[:dot], p[dot+1:]
		neg := strings.HasPrefix(ext, "!")
		ext = strings.TrimPrefix(ext, "!")

		if base == "" {
			base = "*"
		}

		m, _ := filepath.Match(base+"."+ext, name)

		if neg {
			if m {
				return false
			}

			selected = true
		} else if m {
			selected = true
		}
	}

	return selected
}

// CustomFilter is a client defined filter whose behaviour is that of its spec.
type CustomFilter struct {
	Spec  *FilterSpec
	scope enums.FilterScope
}

func (c *CustomFilter) Description() string      { return c.Spec.Desc }
func (c *CustomFilter) Validate() error          { return nil }
func (c *CustomFilter) Source() string           { return c.Spec.Pattern }
func (c *CustomFilter) Scope() enums.FilterScope { return c.Spec.Scope }
func (c *CustomFilter) IsApplicable(n *core.Node) bool {
	return c.Spec.Scope == 0 || c.Spec.Scope&n.Extension.Scope != 0
}

func (c *CustomFilter) IsMatch(n *core.Node) bool {
	if !c.IsApplicable(n) {
		return c.Spec.IfNA != 2
	}

	m, _ := filepath.Match(c.Spec.Pattern, n.Extension.Name)

	return m != c.Spec.Negate
}

// Given holds what a client keeps and uses for several traversals: options, and
// the definitions in them.
type Given struct {
	options []pref.Option
	checks  []func() string
}

// Keep makes the case use the same options, and values in them, for each of its runs.
func (c *Case) Keep() {
	g := &Given{}
	c.given = g
	g.options = c.make(func(spec *FilterSpec) *core.FilterDef {
		d := spec.Def()

		g.checks = append(g.checks, func() string {
			if w := spec.Def(); !reflect.DeepEqual(d, w) {
				return fmt.Sprintf("filter definition was changed: %s, was: %s", defText(d), defText(w))
			}

			return ""
		})

		return d
	})
}

func defText(d *core.FilterDef) string {
	if d != nil && d.Poly != nil {
		return fmt.Sprintf("%+v poly %+v", *d, *d.Poly)
	}

	return fmt.Sprintf("%+v", d)
}

// Kept tells what was changed of that which the client keeps.
func (c *Case) Kept() string {
	for _, f := range c.given.checks {
		if s := f(); s != "" {
			return s
		}
	}

	return ""
}

// Options turns the case into traversal options.
func (c *Case) Options() []pref.Option {
	if c.given != nil {
		return append([]pref.Option(nil), c.given.options...)
	}

	return c.make((*FilterSpec).Def)
}

func (c *Case) make(def func(*FilterSpec) *core.FilterDef) []pref.Option {
	var o []pref.Option

	if c.Depth > 0 {
		o = append(o, age.WithDepth(c.Depth))
	}

	if c.NoRecurse {
		o = append(o, age.WithNoRecurse())
	}

	if c.FilesFirst || c.CaseSens && c.CaseBy {
		o = append(o, age.WithSortBehaviour(&pref.SortBehaviour{
			SortFilesFirst: c.FilesFirst, IsCaseSensitive: c.CaseSens && c.CaseBy,
		}))
	}

	if c.CaseSens && !c.CaseBy {
		o = append(o, age.WithHookCaseSensitiveSort())
	}

	if c.TrimSep {
		o = append(o, age.WithSubPathBehaviour(&pref.SubPathBehaviour{KeepTrailingSep: false}))
	}

	if c.Filter != nil || c.Child != nil || (c.Sample != nil && c.Sample.Filter != nil) {
		fo := &pref.FilterOptions{}

		if c.Filter != nil {
			if c.Filter.Kind == "custom" {
				fo.Custom = &CustomFilter{Spec: c.Filter}
			} else {
				fo.Node = def(c.Filter)
			}

			if part := c.Filter.custom(); part != nil {
				fo.Custom = &CustomFilter{Spec: part}
			}
		}

		if c.Child != nil {
			fo.Child = &core.ChildFilterDef{
				Type: FilterTypes[c.Child.Kind], Pattern: c.Child.Pattern, Negate: c.Child.Negate,
			}
		}

		if c.Sample != nil && c.Sample.Filter != nil {
			sf := c.Sample.Filter
			fo.Sample = &core.SampleFilterDef{
				Type: FilterTypes[sf.Kind], Pattern: sf.Pattern, Scope: sf.Scope, Negate: sf.Negate,
			}

			if sf.Kind == "custom" {
				fo.Sample.Custom = &CustomSample{Spec: sf}
			}
		}

		o = append(o, age.WithFilter(fo))
	}

	if c.Sample != nil {
		so := &pref.SamplingOptions{
			Type:      enums.SampleTypeSlice,
			InReverse: c.Sample.Reverse,
			NoOf:      pref.EntryQuantities{Files: c.Sample.Files, Directories: c.Sample.Dirs},
		}

		if c.Sample.Filter != nil {
			so.Type = enums.SampleTypeFilter
			if c.Sample.Filter.Kind == "custom" {
				so.Type = enums.SampleTypeCustom
			}
		}

		o = append(o, age.WithSamplingOptions(so))
	}

	if h := c.Hib; h != nil {
		if h.Whole {
			o = append(o, age.WithHibernationOptions(&core.HibernateOptions{
				WakeAt:  def(h.Wake),
				SleepAt: def(h.Sleep),
				Behaviour: core.HibernationBehaviour{
					InclusiveWake: !h.ExclusiveWake, InclusiveSleep: h.InclusiveSleep,
				},
			}))
		} else {
			if h.Wake != nil {
				o = append(o, age.WithHibernationFilterWake(def(h.Wake)))
			}

			if h.Sleep != nil {
				o = append(o, age.WithHibernationFilterSleep(def(h.Sleep)))
			}

			if h.ExclusiveWake {
				o = append(o, age.WithHibernationBehaviourExclusiveWake())
			}

			if h.InclusiveSleep {
				o = append(o, age.WithHibernationBehaviourInclusiveSleep())
			}
		}
	}

	switch c.Fault {
	case "swallow":
		o = append(o, age.WithFaultHandler(pref.Accepter(func(*pref.NavigationFault) error { return nil })))
	case "replace":
		o = append(o, age.WithFaultHandler(pref.Accepter(func(*pref.NavigationFault) error { return ErrReplaced })))
	}

	return o
}

// CustomSample is a client defined sample filter.
type CustomSample struct{ Spec *FilterSpec }

func (c *CustomSample) Description() string { return "custom sample" }
func (c *CustomSample) Validate() error     { return nil }
func (c *CustomSample) Source() string      { return c.Spec.Pattern }
func (c *CustomSample) Matching(in []fs.DirEntry) []fs.DirEntry {
	var out []fs.DirEntry

	if len(c.Spec.Pattern)%2 == 0 {
		// with the help that there is for clients
		base := age.NewCustomSampleFilter(c.Spec.Scope)

		return base.Matching(in, func(e fs.DirEntry, _ int) bool {
			m, _ := filepath.Match(c.Spec.Pattern, e.Name())

			return m != c.Spec.Negate
		})
	}

	for _, e := range in {
		if sampleApplies(c.Spec.Scope, e.IsDir()) {
			if m, _ := filepath.Match(c.Spec.Pattern, e.Name()); m != c.Spec.Negate {
				out = append(out, e)
			}
		}
	}

	for _, e := range in {
		if !sampleApplies(c.Spec.Scope, e.IsDir()) {
			out = append(out, e)
		}
	}

	return out
}

func sampleApplies(scope enums.FilterScope, dir bool) bool {
	if scope&enums.ScopeDirectory != 0 {
		return dir
	}

	if scope&enums.ScopeFile != 0 {
		return !dir
	}

	return true
}

// FS builds the traversal file system for the case.
func (c *Case) FS() *VFS {
	v := NewVFS(c.Abs)
	v.Put(c.Tree, c.Root)

	for _, p := range c.ReadErr {
		v.ReadErr[p] = FaultAt(p)
	}

	for _, p := range c.InfoErr {
		v.InfoErr[p] = FaultAt(p)
	}

	for p, n := range c.Partial {
		v.ReadErr[p] = FaultAt(p)
		v.ReadPartial[p] = n
	}

	if c.RootStat {
		v.StatErr[c.Tree] = FaultAt(c.Tree)
	}

	v.Reverse = c.ReverseFS

	return v
}

// FaultAt is the error of the file system at a path, always ErrFault by nature,
// but most are of another kind as well, as those of a real one are.
func FaultAt(path string) error {
	kinds := []error{
		fs.ErrPermission, fs.ErrNotExist, nil, io.ErrUnexpectedEOF, syscall.ENOTDIR, fs.ErrInvalid, os.ErrDeadlineExceeded, io.EOF,
	}

	kind := kinds[len(path)%len(kinds)]
	if kind == nil {
		return ErrFault
	}

	return &fs.PathError{Op: "verif", Path: path, Err: errors.Join(ErrFault, kind)}
}
