package kit

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/snivilised/agenor/enums"
)

// Expected is what the reference model says a traversal does.
type Expected struct {
	Events  []Event
	Metrics map[enums.Metric]uint
	Err     error // nil, ErrCallback, ErrFault ...
	Asks    []string
	Reads   map[string]bool
	// Order lists every permitted node in visiting order, with metadata,
	// whether or not it is delivered.
	Order []*Snap
}

// Invoked lists invoked paths.
func (x *Expected) Invoked() []string {
	var r []string

	for _, e := range x.Events {
		if e.Kind == "invoke" {
			r = append(r, e.Path)
		}
	}

	return r
}

type flow int

const (
	goOn    flow = iota
	stopDir      // skip the remaining items of the containing directory
	stopAll      // end of traversal
)

type hibState int

const (
	pending hibState = iota
	active
	retired
)

type model struct {
	c     *Case
	x     *Expected
	limit int
	hib   hibState
}

// Descriptions used when a trigger is absent.
const (
	Permissive  = "permissive"
	Prohibitive = "prohibitive"
)

// Model computes the expected behaviour of the case from its definition.
func (c *Case) Model() *Expected {
	m := &model{c: c, x: &Expected{Metrics: map[enums.Metric]uint{}, Reads: map[string]bool{}}}

	for _, k := range MetricKinds {
		m.x.Metrics[k] = 0
	}

	if c.Depth > 0 {
		m.limit = int(min(c.Depth, 1<<20)) // no tree is that deep
	}

	if c.NoRecurse {
		m.limit = 1
	}

	m.hib = active
	if c.Hib != nil && c.Hib.Wake != nil {
		m.hib = pending
	}

	m.emit("begin", c.Tree)

	switch {
	case c.RootStat && c.Fault == "swallow":
	case c.RootStat && c.Fault == "replace":
		m.x.Err = ErrReplaced
	case c.RootStat:
		m.x.Err = ErrFault
	default:
		m.visit(c.Tree, c.Root, nil, 0)
	}

	m.emit("end", "")

	return m.x
}

func (m *model) emit(kind, path string) {
	m.x.Events = append(m.x.Events, Event{Kind: kind, Path: path})
}

// Less is the sibling order within one group (files or directories).
func (c *Case) Less(a, b string) bool {
	if c.Sorter != nil {
		return c.Sorter(a, b)
	}

	if c.CaseSens {
		return a < b
	}

	if x, y := strings.ToLower(a), strings.ToLower(b); x != y {
		return x < y
	}

	return a < b
}

// contents of a directory as the traversal should see it.
func (m *model) contents(path string, e *Entry) (files, dirs []*Entry, failed bool) {
	m.x.Reads[path] = true

	for _, p := range m.c.ReadErr {
		if p == path {
			return nil, nil, true
		}
	}

	if _, ok := m.c.Partial[path]; ok {
		return nil, nil, true
	}

	raw := append([]*Entry{}, e.Kids...)
	sort.Slice(raw, func(i, j int) bool { return raw[i].Name < raw[j].Name })

	for _, k := range raw {
		if k.Name == ".DS_Store" || (m.c.Drop != nil && m.c.Drop(path, k.Name)) {
			continue
		}

		if k.Dir {
			dirs = append(dirs, k)
		} else {
			files = append(files, k)
		}
	}

	if s := m.c.Sample; s != nil {
		if s.Filter != nil {
			files, dirs = sampleKeep(s.Filter, files), sampleKeep(s.Filter, dirs)
		}

		files, dirs = slice(files, s.Files, s.Reverse), slice(dirs, s.Dirs, s.Reverse)
	}

	for _, g := range [][]*Entry{files, dirs} {
		sort.SliceStable(g, func(i, j int) bool { return m.c.Less(g[i].Name, g[j].Name) })
	}

	return files, dirs, false
}

func sampleKeep(f *FilterSpec, in []*Entry) (out []*Entry) {
	for _, e := range in {
		if !sampleApplies(f.Scope, e.Dir) || MatchName(f.Kind, f.Pattern, e.Name) != f.Negate {
			out = append(out, e)
		}
	}

	return
}

func slice(in []*Entry, n uint, reverse bool) []*Entry {
	if n == 0 || n >= uint(len(in)) {
		return append([]*Entry{}, in...)
	}

	if reverse {
		return append([]*Entry{}, in[len(in)-int(n):]...)
	}

	return append([]*Entry{}, in[:n]...)
}

func (m *model) visit(path string, e *Entry, up *Snap, depth int) flow {
	c := m.c

	if m.limit > 0 && depth > m.limit {
		return goOn
	}

	m.emit("descend", path)
	defer m.emit("ascend", path)

	var (
		files, dirs []*Entry
		failed      bool
	)

	if e.Dir || c.Sub == enums.SubscribeDirectories || c.Sub == enums.SubscribeDirectoriesWithFiles {
		if e.Dir {
			files, dirs, failed = m.contents(path, e)
		}
	}

	s := &Snap{
		Path: path, Dir: e.Dir, Depth: depth, Up: up,
		HasEntry: depth > 0, HasInfo: true, InfoSize: int64(e.Size), InfoName: filepath.Base(path),
	}
	s.Parent, s.Name = filepath.Split(path)
	s.IsLeaf = e.Dir && len(dirs) == 0
	s.Scope = scopeOf(e.Dir, s.IsLeaf, depth)
	s.SubPath = c.subPath(s)

	for _, p := range c.InfoErr {
		if p == path && depth > 0 { // the root does not come from a listing
			s.HasInfo, s.InfoName, s.InfoSize = false, "", 0
			s.Err = FaultAt(path).Error()
		}
	}

	m.x.Order = append(m.x.Order, s)

	wanted := true

	switch c.Sub {
	case enums.SubscribeFiles:
		wanted = !e.Dir
	case enums.SubscribeDirectories, enums.SubscribeDirectoriesWithFiles:
		wanted = e.Dir || depth == 0
	}

	if wanted {
		if f, done := m.offer(s, files); done {
			return f
		}
	}

	if !e.Dir {
		return goOn
	}

	if f, done := m.ask(path, failed, len(files), len(dirs)); done {
		return f
	}

	kids := append(append([]*Entry{}, dirs...), files...)
	if c.FilesFirst {
		kids = append(append([]*Entry{}, files...), dirs...)
	}

	for _, k := range kids {
		if !k.Dir && (c.Sub == enums.SubscribeDirectories || c.Sub == enums.SubscribeDirectoriesWithFiles) {
			continue
		}

		switch m.visit(filepath.Join(path, k.Name), k, s, depth+1) {
		case stopAll:
			return stopAll
		case stopDir:
			return goOn
		}
	}

	return goOn
}

// ask consults the scripted skip handler; done means the node's contents are
// not to be visited.
func (m *model) ask(path string, failed bool, files, dirs int) (flow, bool) {
	if !m.c.AskOn {
		return goOn, failed
	}

	tag := path
	if failed {
		tag += " !" + FaultAt(path).Error()
	}

	tag += fmt.Sprintf(" %d/%d", files, dirs)
	m.x.Asks = append(m.x.Asks, tag)

	reply := m.c.Ask[path]
	if failed && m.c.AskErr != "" {
		reply = m.c.AskErr
	}

	switch reply {
	case "all", "all0":
		return stopAll, true
	case "dir", "dir0":
		return goOn, true
	case "err":
		m.x.Err = ErrAsk
		return stopAll, true
	}

	return goOn, failed
}

// offer runs the chain in front of the callback; done means stop here.
func (m *model) offer(s *Snap, files []*Entry) (flow, bool) {
	c := m.c
	at := &Progress{Metrics: map[enums.Metric]uint{}}

	if h := c.Hib; h != nil {
		at.Hib = [...]enums.Hibernation{
			enums.HibernationPending, enums.HibernationActive, enums.HibernationRetired,
		}[m.hib]

		switch m.hib {
		case pending:
			if !h.Wake.Match(s) {
				return goOn, false
			}

			m.emit("wake", h.Wake.Desc)
			m.hib = active

			if h.ExclusiveWake {
				return goOn, false
			}
		case active:
			if h.Sleep != nil && h.Sleep.Match(s) {
				m.emit("sleep", h.Sleep.Desc)
				m.hib = retired

				if !h.InclusiveSleep {
					return goOn, false
				}
			}
		case retired:
			return stopAll, true
		}
	}

	pass := true

	switch {
	case c.Filter != nil:
		pass = c.Filter.Match(s)
		if !pass {
			if s.Dir {
				m.x.Metrics[enums.MetricNoDirectoriesFilteredOut]++
			} else {
				m.x.Metrics[enums.MetricNoFilesFilteredOut]++
			}
		}
	case c.Sample != nil && c.Sample.Filter != nil && s.Depth == 0:
		// the root of the tree did not come out of a directory, so the sample
		// filter is applied to it directly
		f := c.Sample.Filter
		pass = !sampleApplies(f.Scope, s.Dir) || MatchName(f.Kind, f.Pattern, filepath.Base(s.Path)) != f.Negate
	}

	if !pass {
		return goOn, false
	}

	for k, v := range m.x.Metrics {
		at.Metrics[k] = v
	}

	if c.Sub == enums.SubscribeDirectoriesWithFiles && s.Dir {
		m.children(s, files)
	}

	if s.Dir {
		m.x.Metrics[enums.MetricNoDirectoriesInvoked]++
	} else {
		m.x.Metrics[enums.MetricNoFilesInvoked]++
	}

	m.x.Events = append(m.x.Events, Event{Kind: "invoke", Path: s.Path, Snap: s, At: at})

	switch c.Actions[s.Path] {
	case "skipdir":
		if s.Dir {
			return goOn, true
		}

		return stopDir, true
	case "skipall":
		return stopAll, true
	case "error":
		m.x.Err = ErrCallback
		return stopAll, true
	case "panic", "panicstr":
		m.x.Err = ErrPanicked
		return stopAll, true
	}

	return goOn, false
}

func (m *model) children(s *Snap, files []*Entry) {
	for _, f := range files {
		if ch := m.c.Child; ch != nil && MatchName(ch.Kind, ch.Pattern, f.Name) == ch.Negate {
			m.x.Metrics[enums.MetricNoChildFilesFilteredOut]++
			continue
		}

		m.x.Metrics[enums.MetricNoChildFilesFound]++
		s.Children = append(s.Children, f.Name)
	}
}

func scopeOf(dir, leaf bool, depth int) enums.FilterScope {
	if !dir {
		return enums.ScopeFile | enums.ScopeLeaf
	}

	sc := enums.ScopeDirectory

	switch {
	case depth == 0:
		sc |= enums.ScopeTree
	case depth == 1:
		sc |= enums.ScopeTop
	case !leaf:
		sc |= enums.ScopeIntermediate
	}

	if leaf {
		sc |= enums.ScopeLeaf
	}

	return sc
}

// subPath is the path from the tree to the directory containing the node.
func (c *Case) subPath(s *Snap) string {
	sp := ""

	switch {
	case s.Depth == 0:
	case c.Tree == ".":
		sp = "/" + s.Parent
	default:
		sp = strings.TrimPrefix(s.Parent, strings.TrimSuffix(c.Tree, "/"))
	}

	if c.SubPathOf != nil {
		sp = c.SubPathOf(s, sp)
	}

	if c.TrimSep {
		sp = strings.TrimSuffix(sp, "/")
	}

	return sp
}
