package kit

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/life"
	"github.com/snivilised/agenor/pref"
)

// Snap is what a callback could see of a node, copied at the time of the call.
type Snap struct {
	Path     string
	Dir      bool
	Depth    int
	IsLeaf   bool
	Name     string
	Parent   string
	SubPath  string
	Scope    enums.FilterScope
	Children []string
	Up       *Snap `json:"-"` // snapshot of the parent node, as seen from this node
	HasEntry bool
	HasInfo  bool
	Err      string
	InfoName string
	InfoSize int64
}

// Event is one thing observed during a traversal.
type Event struct {
	Kind string // begin descend ascend invoke wake sleep end
	Path string
	Snap *Snap `json:"-"`

	// At is set by the model for invoke events
	At *Progress `json:"-"`

	// By is the go-routine in which it happened
	By string `json:"-"`
}

// Progress is the state of the traversal when a node is reached.
type Progress struct {
	Metrics map[enums.Metric]uint // not including the node
	Hib     enums.Hibernation
}

func (e Event) String() string { return e.Kind + ":" + e.Path }

// Metrics all defined metrics.
var MetricKinds = []enums.Metric{
	enums.MetricNoFilesInvoked,
	enums.MetricNoFilesFilteredOut,
	enums.MetricNoDirectoriesInvoked,
	enums.MetricNoDirectoriesFilteredOut,
	enums.MetricNoChildFilesFound,
	enums.MetricNoChildFilesFilteredOut,
}

// Outcome is everything observed of one traversal.
type Outcome struct {
	Events    []Event
	Metrics   map[enums.Metric]uint
	EndSeen   map[enums.Metric]uint // metrics reported through the end notification
	Err       error
	Panic     any
	NilResult bool
	Faults    []string
	Asks      []string
	FS        *VFS
	Complete  bool // what the session says of itself
	Timing    Timing
}

// Timing of a traversal.
type Timing struct {
	Session     core.Session
	Called      time.Time     // just before it was asked for
	First, Last time.Time     // event, other than the end
	AtEnd       time.Duration // elapsed, according to the end notification
	Ended       bool          // end was notified with a session
	Returned    time.Time
}

// Invoked lists invoked paths, in order.
func (o *Outcome) Invoked() []string {
	var r []string

	for _, e := range o.Events {
		if e.Kind == "invoke" {
			r = append(r, e.Path)
		}
	}

	return r
}

// Of lists events of the kinds given.
func (o *Outcome) Of(kinds ...string) []Event {
	return Filter(o.Events, kinds...)
}

// Filter selects events by kind.
func Filter(evs []Event, kinds ...string) []Event {
	var r []Event

	for _, e := range evs {
		for _, k := range kinds {
			if e.Kind == k {
				r = append(r, e)
			}
		}
	}

	return r
}

// Render makes a list of events printable.
func Render(evs []Event) string {
	s := make([]string, len(evs))
	for i, e := range evs {
		s[i] = e.String()
	}

	return strings.Join(s, "\n  ")
}

// SnapOf copies what a node exposes.
func SnapOf(n *core.Node) *Snap {
	if n == nil {
		return nil
	}

	s := &Snap{
		Path:     n.Path,
		Dir:      n.IsDirectory(),
		Depth:    n.Extension.Depth,
		IsLeaf:   n.Extension.IsLeaf,
		Name:     n.Extension.Name,
		Parent:   n.Extension.Parent,
		SubPath:  n.Extension.SubPath,
		Scope:    n.Extension.Scope,
		HasEntry: n.Entry != nil,
		HasInfo:  n.Info != nil,
		Up:       SnapOf(n.Parent),
	}

	if n.Error != nil {
		s.Err = n.Error.Error()
	}

	if n.Info != nil {
		s.InfoName = n.Info.Name()
		s.InfoSize = n.Info.Size()
	}

	for _, c := range n.Children {
		s.Children = append(s.Children, c.Name())
	}

	return s
}

// Recorder collects events.
type Recorder struct {
	mx      sync.Mutex
	Events  []Event
	EndSeen map[enums.Metric]uint
	Timing  Timing
}

// Options registers the life cycle handlers.
// Add an event; may be called from any goroutine
func (r *Recorder) Add(e Event) {
	e.By = Goroutine()

	r.mx.Lock()
	defer r.mx.Unlock()

	now := time.Now()

	if len(r.Events) == 0 {
		r.Timing.First, r.Timing.Last = now, now
	}

	if e.Kind != "end" {
		r.Timing.Last = now
	}

	r.Events = append(r.Events, e)
}

// Goroutine gets the identity of the current go-routine
func Goroutine() string {
	var buf [64]byte

	fields := strings.Fields(string(buf[:runtime.Stack(buf[:], false)]))

	return fields[1]
}

func (r *Recorder) Options() []pref.Option {
	add := func(kind string) func(n *core.Node) {
		return func(n *core.Node) {
			r.Add(Event{Kind: kind, Path: n.Path})
		}
	}

	return []pref.Option{
		age.WithOnBegin(func(bs *lifeBegin) {
			r.Add(Event{Kind: "begin", Path: bs.Tree})
		}),
		age.WithOnEnd(func(result core.TraverseResult) {
			r.Add(Event{Kind: "end"})
			r.EndSeen = MetricsOf(result)

			if result != nil && result.Session() != nil {
				r.Timing.AtEnd, r.Timing.Ended = result.Session().Elapsed(), true
			}
		}),
		age.WithOnDescend(add("descend")),
		age.WithOnAscend(add("ascend")),
		age.WithOnWake(func(d string) { r.Add(Event{Kind: "wake", Path: d}) }),
		age.WithOnSleep(func(d string) { r.Add(Event{Kind: "sleep", Path: d}) }),
	}
}

// MetricsOf reads all metrics of a result.
func MetricsOf(result core.TraverseResult) (m map[enums.Metric]uint) {
	defer func() {
		if recover() != nil {
			m = nil
		}
	}()

	m = map[enums.Metric]uint{}

	for _, k := range MetricKinds {
		m[k] = result.Metrics().Count(k)
	}

	return m
}

// React performs the scripted reaction of the callback at a path.
func React(action, path string) error {
	switch action {
	case "":
		return nil
	case "skipdir":
		return wrapped(path, fs.SkipDir)
	case "skipall":
		return wrapped(path, fs.SkipAll)
	case "error":
		return Failure(path)
	case "panic":
		panic(havoc(path))
	case "panicstr":
		panic("verif: panic with a string")
	}

	panic("unknown action " + action)
}

// HangLimit bounds one traversal; trees are tiny, so it is never approached.
const HangLimit = 120 * time.Second

// Ready is a set of options made once, to be given to any number of runs as
// the options to use. The options are either those of the first run, got hold
// of by an option, or made without any run.
type Ready struct {
	Capture bool
	O       *pref.Options
	rec     *Recorder
	told    *Outcome
}

func (r *Ready) prepare(using *pref.Using, options []pref.Option) []pref.Option {
	if r.O != nil {
		using.O = r.O

		return nil
	}

	if r.Capture {
		return append(options, func(o *pref.Options) error {
			r.O = o

			return nil
		})
	}

	r.O = Make(options)
	using.O = r.O

	return nil
}

// Make the options that result from applying settings to the default options.
func Make(settings []pref.Option) *pref.Options {
	o := pref.DefaultOptions()
	o.Events.Bind(life.NewControls())

	for _, set := range settings {
		if err := set(o); err != nil {
			panic(err)
		}
	}

	return o
}

// Revise the options for another case: all its settings, except listeners,
// which stay.
func (r *Ready) Revise(c *Case) {
	options := c.Options()

	if c.AskOn {
		options = append(options, age.WithSkipHandler(c.AskHandler(&r.told.Asks)))
	}

	fresh := Make(options)
	r.O.Behaviours = fresh.Behaviours
	r.O.Sampling = fresh.Sampling
	r.O.Filter = fresh.Filter
	r.O.Hibernate = fresh.Hibernate
	r.O.Concurrency = fresh.Concurrency
	r.O.Defects = fresh.Defects
	r.O.Hooks.Sort.Tap(r.O.Hooks.Sort.Default())

	if c.CaseSens && !c.CaseBy {
		r.O.Hooks.Sort.Tap(pref.CaseSensitiveSortHook)
	}
}

// RunOpts tweak Run.
type RunOpts struct {
	Extra   []pref.Option
	FS      *VFS
	R       core.Forest // only R is used
	Ready   *Ready
	OnNode  func(core.Servant)
	NoTrace bool

	// Go performs the traversal, in place of a walk
	Go func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error)
}

// AskHandler builds the scripted skip handler.
func (c *Case) AskHandler(asks *[]string) pref.SkipHandler {
	return pref.Asker(func(n *core.Node, contents core.DirectoryContents, err error) (enums.SkipTraversal, error) {
		tag := n.Path
		if err != nil {
			tag += " !" + err.Error()
		}

		// a handler is entitled to look at the contents it is given
		tag += fmt.Sprintf(" %d/%d", len(contents.Files()), len(contents.Directories()))

		// whether the handler is consulted for files is left open; a reply is
		// only ever scripted for directories
		if n.IsDirectory() {
			*asks = append(*asks, tag)
		}

		reply := c.Ask[n.Path]
		if err != nil && c.AskErr != "" {
			reply = c.AskErr
		}

		switch reply {
		case "all":
			return enums.SkipAllTraversal, fs.SkipAll
		case "dir":
			return enums.SkipDirTraversal, fs.SkipDir
		case "all0":
			return enums.SkipAllTraversal, nil
		case "dir0":
			return enums.SkipDirTraversal, nil
		case "err":
			return enums.SkipAllTraversal, ErrAsk
		}

		return enums.SkipNoneTraversal, nil
	})
}

// wrapped is the error itself or one that wraps it, which depends on the path.
func wrapped(path string, err error) error {
	switch len(path) % 4 {
	case 0:
		return fmt.Errorf("verif: %w", err)
	case 1:
		return errors.Join(errors.New("verif"), err)
	}

	return err
}

// Failure is the error of a callback at a path, always ErrCallback by nature,
// but it may be of other kinds as well.
func Failure(path string) error {
	switch len(path) % 8 {
	case 0:
		return fmt.Errorf("verif: %w", ErrCallback)
	case 1:
		return errors.Join(ErrCallback, io.EOF)
	case 2:
		return errors.Join(fs.ErrNotExist, ErrCallback)
	case 3:
		return errors.Join(ErrCallback, context.Canceled)
	case 4:
		return &fs.PathError{Op: "verif", Path: path, Err: ErrCallback}
	case 5:
		return errors.Join(fs.ErrPermission, ErrCallback)
	}

	return ErrCallback
}

// havoc is what the callback at a path panics with
func havoc(path string) any {
	switch len(path) % 8 {
	case 0:
		return 42
	case 1:
		return fmt.Errorf("verif: %w", fs.SkipAll)
	case 2:
		return fs.SkipDir
	case 3:
		return struct{ path string }{path}
	case 4:
		var none map[string]int

		return func() (data any) {
			defer func() { data = recover() }()

			none[path] = 1

			return nil
		}()
	case 5:
		return fs.SkipAll
	}

	return Failure(path)
}

// Run performs the traversal described by the case with Walk.
func (c *Case) Run(ro ...RunOpts) *Outcome {
	var r RunOpts
	if len(ro) > 0 {
		r = ro[0]
	}

	fS := r.FS
	if fS == nil {
		fS = c.FS()
	}

	out := &Outcome{FS: fS}
	rec, told := &Recorder{}, out

	if r.Ready != nil {
		// the options made at the first run keep hold of these
		if r.Ready.rec == nil {
			r.Ready.rec, r.Ready.told = rec, &Outcome{}
		}

		rec, told = r.Ready.rec, r.Ready.told
		rec.Events, rec.EndSeen = nil, nil
		told.Asks, told.Faults = nil, nil
	}

	options := append(rec.Options(), c.Options()...)
	options = append(options, r.Extra...)

	if c.AskOn {
		options = append(options, age.WithSkipHandler(c.AskHandler(&told.Asks)))
	}

	if c.Fault == "" && c.RootStat {
		options = append(options, age.WithFaultHandler(pref.Accepter(func(f *pref.NavigationFault) error {
			told.Faults = append(told.Faults, f.Path+" !"+f.Err.Error())
			return f.Err
		})))
	}

	forest := &core.Forest{T: fS, R: r.R.R}
	if forest.R == nil {
		forest.R = NewVFS(true)
	}

	options = append(options, pref.WithAdminPath(AdminPath))
	using := &pref.Using{
		Subscription: c.Sub,
		Head: pref.Head{
			Handler:   c.handler(rec, r),
			GetForest: func(string) *core.Forest { return forest },
		},
		Tree: c.Spelt(),
	}

	if r.Ready != nil {
		options = r.Ready.prepare(using, options)
	}

	Guard(out, func() {
		drive := r.Go
		if drive == nil {
			drive = func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				return age.Walk().Configure().Extent(age.Prime(facade, settings...)).Navigate(context.Background())
			}
		}

		rec.Timing.Called = time.Now()
		result, err := drive(using, options...)
		rec.Timing.Returned = time.Now()
		out.Err = err
		out.take(result)
	})

	rec.Timing.Session = out.Timing.Session
	out.Timing = rec.Timing
	out.Events = rec.Events
	out.EndSeen = rec.EndSeen
	out.Asks, out.Faults = told.Asks, told.Faults

	return out
}

func (o *Outcome) take(result core.TraverseResult) {
	if result == nil {
		o.NilResult = true
		return
	}

	o.Metrics = MetricsOf(result)

	func() {
		defer func() { _ = recover() }()

		o.Timing.Session = result.Session()
		o.Complete = result.Session().IsComplete()
	}()
}

// Guard runs fn, capturing a panic, or a failure to return.
func Guard(out *Outcome, fn func()) {
	done := make(chan struct{})

	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				out.Panic = p
			}
		}()
		fn()
	}()

	select {
	case <-done:
	case <-time.After(HangLimit):
		// The goroutine can't be stopped, so neither shrink nor carry on: the
		// runner takes the case which was current as the replay.
		fmt.Fprintln(os.Stderr, "VERIF-HANG: traversal did not terminate within", HangLimit)
		os.Exit(3)
	}
}
