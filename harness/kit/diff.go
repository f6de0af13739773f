package kit

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/snivilised/agenor/enums"
)

// Aspect selects what is compared.
type Aspect int

// Aspects of an outcome.
const (
	AsSet     Aspect = iota // invoked paths, as a multiset
	AsOrder                 // invoked paths, in order
	AsSnaps                 // metadata of invoked nodes
	AsKids                  // children of invoked nodes
	AsEvents                // every notification and invocation, in order
	AsHib                   // wake and sleep among invocations
	AsMetrics               // metrics of the result
	AsErr                   // error of the traversal
	AsAsks                  // what the skip handler was asked
	AsEnd                   // metrics seen by the end notification
)

func sorted(s []string) []string {
	r := append([]string{}, s...)
	sort.Strings(r)

	return r
}

// FirstDiff describes the first difference between two lists.
func FirstDiff(want, got []string) string {
	n := min(len(want), len(got))
	for i := range n {
		if want[i] != got[i] {
			return fmt.Sprintf("at %d: want %q, got %q (want %d items %q, got %d items %q)",
				i, want[i], got[i], len(want), want, len(got), got)
		}
	}

	if len(want) != len(got) {
		return fmt.Sprintf("want %d items %q, got %d items %q", len(want), want, len(got), got)
	}

	return ""
}

// SnapDiff compares metadata of one node. kids tells whether children count.
func SnapDiff(want, got *Snap, kids bool) string {
	var d []string

	add := func(what string, w, g any) {
		if !reflect.DeepEqual(w, g) {
			d = append(d, fmt.Sprintf("%s: want %v, got %v", what, w, g))
		}
	}

	add("path", want.Path, got.Path)
	add("directory", want.Dir, got.Dir)
	add("depth", want.Depth, got.Depth)
	add("leaf", want.IsLeaf, got.IsLeaf)
	add("name", want.Name, got.Name)
	add("parent path", want.Parent, got.Parent)
	add("sub path", want.SubPath, got.SubPath)
	add("scope", want.Scope, got.Scope)
	add("has entry", want.HasEntry, got.HasEntry)
	add("has info", want.HasInfo, got.HasInfo)
	add("error", want.Err, got.Err)

	if want.HasInfo && got.HasInfo && !want.Dir {
		add("size", want.InfoSize, got.InfoSize)
		add("info name", want.InfoName, got.InfoName)
	}

	if kids {
		if kd := FirstDiff(want.Children, got.Children); kd != "" {
			d = append(d, "children: "+kd)
		}
	}

	switch {
	case (want.Up == nil) != (got.Up == nil):
		d = append(d, fmt.Sprintf("parent node: want %v, got %v", want.Up != nil, got.Up != nil))
	case want.Up != nil:
		if ud := SnapDiff(want.Up, got.Up, false); ud != "" {
			d = append(d, "parent node: {"+ud+"}")
		}
	}

	return strings.Join(d, "; ")
}

// Diff compares an outcome with what is expected of it, in the given aspects.
// A panic is always a difference.
func Diff(want *Expected, got *Outcome, aspects ...Aspect) string {
	if got.Panic != nil {
		return fmt.Sprintf("traversal panicked: %v", got.Panic)
	}

	for _, a := range aspects {
		if d := diffOne(want, got, a); d != "" {
			return d
		}
	}

	return ""
}

func diffOne(want *Expected, got *Outcome, a Aspect) string {
	prefix := func(s, d string) string {
		if d == "" {
			return ""
		}

		return s + ": " + d
	}

	switch a {
	case AsSet:
		return prefix("nodes", FirstDiff(sorted(want.Invoked()), sorted(got.Invoked())))
	case AsOrder:
		return prefix("order", FirstDiff(want.Invoked(), got.Invoked()))
	case AsSnaps, AsKids:
		by := map[string]*Snap{}
		for _, e := range Filter(want.Events, "invoke") {
			by[e.Path] = e.Snap
		}

		for _, e := range got.Of("invoke") {
			w, ok := by[e.Path]
			if !ok {
				continue
			}

			d := ""
			if a == AsSnaps {
				d = SnapDiff(w, e.Snap, false)
			} else {
				d = FirstDiff(w.Children, e.Snap.Children)
			}

			if d != "" {
				return fmt.Sprintf("node %q: %s", e.Path, d)
			}
		}
	case AsEvents:
		return prefix("events", FirstDiff(eventStrings(want.Events), eventStrings(got.Events)))
	case AsHib:
		k := []string{"wake", "sleep", "invoke"}

		return prefix("hibernation", FirstDiff(
			eventStrings(Filter(want.Events, k...)), eventStrings(got.Of(k...))))
	case AsMetrics:
		return prefix("metrics", MetricsDiff(want.Metrics, got.Metrics))
	case AsEnd:
		if got.EndSeen == nil {
			return "end notification has no result"
		}

		return prefix("metrics at the end notification", MetricsDiff(want.Metrics, got.EndSeen))
	case AsErr:
		if want.Err == nil && got.Err != nil {
			return fmt.Sprintf("unexpected error: %v", got.Err)
		}

		if want.Err != nil && !errors.Is(got.Err, want.Err) {
			return fmt.Sprintf("want error %v, got %v", want.Err, got.Err)
		}

		if got.NilResult {
			return "there is no result"
		}
	case AsAsks:
		return prefix("skip handler", FirstDiff(want.Asks, got.Asks))
	}

	return ""
}

// MetricsDiff compares metrics.
func MetricsDiff(want, got map[enums.Metric]uint) string {
	if got == nil {
		return "no metrics"
	}

	var d []string

	for _, k := range MetricKinds {
		if want[k] != got[k] {
			d = append(d, fmt.Sprintf("%s: want %d, got %d", k, want[k], got[k]))
		}
	}

	return strings.Join(d, "; ")
}

func eventStrings(evs []Event) []string {
	r := make([]string, len(evs))
	for i, e := range evs {
		r[i] = e.String()
	}

	return r
}

// Bad fails the case.
func (c *C) Bad(what any, d string) {
	c.Fatalf("%s\ncase: %v", d, what)
}
