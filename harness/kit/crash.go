package kit

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"time"

	age "github.com/snivilised/agenor"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/pref"
)

// AdminPath is the admin path given to every traversal.
const AdminPath = "/verif-admin"

// Saved is the state a traversal left behind.
type Saved struct {
	Path string
	Data []byte
}

// SavedState fetches what a traversal that panicked has saved.
func SavedState(out *Outcome, r *VFS) (*Saved, error) {
	var saved *locale.TraversalSavedError

	if !errors.As(out.Err, &saved) {
		return nil, fmt.Errorf("the error is not that of a saved traversal: %v", out.Err)
	}

	data, err := r.ReadFile(saved.Destination)
	if err != nil {
		return nil, fmt.Errorf("the error names %q, which can't be read: %w", saved.Destination, err)
	}

	return &Saved{Path: saved.Destination, Data: data}, nil
}

// SavedAs is the file named by the error, if it's that of a saved traversal.
func SavedAs(out *Outcome) string {
	var saved *locale.TraversalSavedError

	if !errors.As(out.Err, &saved) {
		return ""
	}

	return saved.Destination
}

// State is the saved document, read without the code under test.
type State struct {
	Active struct {
		Tree                string
		TraverseDescription struct{ IsRelative bool }
		ResumeDescription   struct{ IsRelative bool }
		Subscription        uint
		Hibernation         uint
		CurrentPath         string
		IsDir               bool
		Depth               int
		Metrics             map[string]struct{ T, Counter uint }
	}
	JO map[string]any
}

// Decode reads the document.
func (s *Saved) Decode() (*State, error) {
	st := &State{}

	return st, json.Unmarshal(s.Data, st)
}

// Counts gives the metrics recorded.
func (st *State) Counts() map[enums.Metric]uint {
	m := map[enums.Metric]uint{}

	for _, k := range MetricKinds {
		m[k] = 0
	}

	for _, v := range st.Active.Metrics {
		m[enums.Metric(v.T)] = v.Counter
	}

	return m
}

// Strategies of resuming.
var Strategies = []enums.ResumeStrategy{enums.ResumeStrategyFastward, enums.ResumeStrategySpawn}

// Resume carries on from a saved state. Of the settings only those are given
// again which can't be saved (functions). The state is put into a scratch
// directory, as that is where the library loads it from.
func (c *Case) Resume(dir string, saved *Saved, strategy enums.ResumeStrategy, ro ...RunOpts) *Outcome {
	var r RunOpts
	if len(ro) > 0 {
		r = ro[0]
	}

	fS := r.FS
	if fS == nil {
		fS = c.FS()
	}

	from := filepath.Join(dir, "state.json")
	if err := os.WriteFile(from, saved.Data, 0o600); err != nil {
		panic(fmt.Sprintf("VERIF-HARNESS: can't write %s: %v", from, err))
	}

	out := &Outcome{FS: fS}
	rec := &Recorder{}
	bare := Case{CaseSens: c.CaseSens && !c.CaseBy}

	if c.Filter != nil && (c.Filter.Kind == "custom" || c.Filter.custom() != nil) ||
		c.Sample != nil && c.Sample.Filter != nil && c.Sample.Filter.Kind == "custom" {
		bare.Filter, bare.Child, bare.Sample = c.Filter, c.Child, c.Sample
	}

	options := append(rec.Options(), bare.Options()...)
	options = append(options, r.Extra...)
	options = append(options, pref.WithAdminPath(AdminPath))

	forest := &core.Forest{T: fS, R: r.R.R}
	if forest.R == nil {
		forest.R = NewVFS(true)
	}

	relic := &pref.Relic{
		Head: pref.Head{
			Handler:   c.handler(rec, r),
			GetForest: func(string) *core.Forest { return forest },
		},
		From:     from,
		Strategy: strategy,
	}

	Guard(out, func() {
		drive := r.Go
		if drive == nil {
			drive = func(facade pref.Facade, settings ...pref.Option) (core.TraverseResult, error) {
				return age.Walk().Configure().Extent(age.Resume(facade, settings...)).Navigate(context.Background())
			}
		}

		rec.Timing.Called = time.Now()
		result, err := drive(relic, options...)
		rec.Timing.Returned = time.Now()
		out.Err = err
		out.take(result)
	})

	rec.Timing.Session = out.Timing.Session
	out.Timing = rec.Timing
	out.Events = rec.Events
	out.EndSeen = rec.EndSeen

	return out
}

// handler is the recording, scripted callback.
func (c *Case) handler(rec *Recorder, r RunOpts) core.Client {
	return func(servant core.Servant) error {
		n := servant.Node()
		rec.Add(Event{Kind: "invoke", Path: n.Path, Snap: SnapOf(n)})

		if r.OnNode != nil {
			r.OnNode(servant)
		}

		return React(c.Actions[n.Path], n.Path)
	}
}
