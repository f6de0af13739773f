package bus_test

import (
	"context"
	"fmt"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/internal/third/bus"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// world is the broker together with its model: two sets, topics and handlers.
type world struct {
	c        *kit.C
	b        *bus.Broker
	topics   map[string]bool
	handlers map[string]*registered
	log      []string
	got      []delivery
	ids      map[string]bool
	act      func(key string) // what a handler does when called
	versions int
}

type registered struct {
	matcher string
	version int
}

type delivery struct {
	key     string
	version int
	msg     bus.Message
	txID    any
}

func (w *world) bad(format string, args ...any) {
	w.c.Fatalf("after %s:\n%s", strings.Join(w.log, ", "), fmt.Sprintf(format, args...))
}

func (w *world) register(key, matcher string) {
	w.versions++
	version := w.versions
	w.handlers[key] = &registered{matcher, version}
	w.b.RegisterHandler(key, bus.Handler{
		Matcher: matcher,
		Handle: func(ctx context.Context, m bus.Message) {
			w.got = append(w.got, delivery{key, version, m, ctx.Value(bus.CtxKeyTxID)})

			if w.act != nil {
				w.act(key)
			}
		},
	})
}

func matches(matcher, topic string) bool {
	re, err := regexp.Compile(matcher)

	return err == nil && re.MatchString(topic)
}

// interested are the handlers of a topic, with their version
func (w *world) interested(topic string) []string {
	var keys []string

	for k, r := range w.handlers {
		if matches(r.matcher, topic) {
			keys = append(keys, fmt.Sprintf("%s/%d", k, r.version))
		}
	}

	sort.Strings(keys)

	return keys
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}

	sort.Strings(keys)

	return keys
}

func sorted(s []string) []string {
	s = append([]string{}, s...)
	sort.Strings(s)

	return s
}

func (w *world) same(what string, got, want []string) {
	if !slices.Equal(sorted(got), sorted(want)) {
		w.bad("%s: %q, want %q", what, sorted(got), sorted(want))
	}
}

func (w *world) audit(allTopics []string) {
	w.same("topics", w.b.Topics(), sortedKeys(w.topics))
	w.same("handlers", w.b.HandlerKeys(), sortedKeys(w.handlers))

	for _, topic := range allTopics {
		var keys []string

		if w.topics[topic] {
			for k, r := range w.handlers {
				if matches(r.matcher, topic) {
					keys = append(keys, k)
				}
			}
		}

		w.same("handlers of "+topic, w.b.TopicHandlerKeys(topic), keys)
	}

	for k, r := range w.handlers {
		var topics []string

		for t := range w.topics {
			if matches(r.matcher, t) {
				topics = append(topics, t)
			}
		}

		w.same("subscriptions of "+k, w.b.HandlerTopicSubscriptions(k), topics)
	}

	if got := w.b.HandlerTopicSubscriptions("nobody"); len(got) != 0 {
		w.bad("an unknown handler subscribes to %q", got)
	}
}

func (w *world) fresh(id, what string) {
	if id == "" || w.ids[id] {
		w.bad("%s %q is not new", what, id)
	}

	w.ids[id] = true
}

// emit sends on the topic in one of the ways there are
func (w *world) emit(topic string, known bool) []delivery {
	c := w.c
	data := rapid.IntRange(0, 1000).Draw(c.T, "data")
	w.got = nil

	var (
		err          error
		want         = bus.Message{Topic: topic, Data: data}
		start        = time.Now()
		withOptions  = rapid.Bool().Draw(c.T, "with options")
		ctx          = context.Background()
		expectedTxID any
	)

	if withOptions {
		var options []bus.MessageOption

		if rapid.Bool().Draw(c.T, "id") {
			want.ID = "my-id"
			options = append(options, bus.WithID(want.ID))
		}

		if rapid.Bool().Draw(c.T, "tx id") {
			want.TxID = "my-tx"
			options = append(options, bus.WithTxID(want.TxID))
		}

		if rapid.Bool().Draw(c.T, "source") {
			want.Source = "my-source"
			options = append(options, bus.WithSource(want.Source))
		}

		if rapid.Bool().Draw(c.T, "at") {
			want.OccurredAt = time.Unix(int64(data), 0)
			options = append(options, bus.WithOccurredAt(want.OccurredAt))
		}

		w.log = append(w.log, fmt.Sprintf("emit %s %v %+v", topic, data, want))
		err = w.b.EmitWithOpts(ctx, topic, data, options...)
	} else {
		if rapid.Bool().Draw(c.T, "tx id") {
			want.TxID = "my-tx"
			ctx = context.WithValue(ctx, bus.CtxKeyTxID, want.TxID)
		}

		if rapid.Bool().Draw(c.T, "source") {
			want.Source = "my-source"
			ctx = context.WithValue(ctx, bus.CtxKeySource, want.Source)
		}

		w.log = append(w.log, fmt.Sprintf("emit %s %v", topic, data))
		err = w.b.Emit(ctx, topic, data)
		expectedTxID = want.TxID
	}

	got := w.got

	if !known {
		if !core.IsBrokerTopicNotFoundError(err) || len(got) > 0 {
			w.bad("unknown topic: error %v, %d deliveries", err, len(got))
		}

		return got
	}

	if err != nil {
		w.bad("error %v", err)
	}

	for i, d := range got {
		if i == 0 {
			if want.ID == "" {
				w.fresh(d.msg.ID, "id")
				want.ID = d.msg.ID
			}

			if want.TxID == "" {
				w.fresh(d.msg.TxID, "tx id")
				want.TxID = d.msg.TxID
			}

			if want.OccurredAt.IsZero() {
				if at := d.msg.OccurredAt; at.Before(start) || at.After(time.Now()) {
					w.bad("message occurred at %v", at)
				}

				want.OccurredAt = d.msg.OccurredAt
			}

			if !withOptions {
				expectedTxID = want.TxID
			}
		}

		if !reflect.DeepEqual(d.msg, want) {
			w.bad("%s was given %+v, want %+v", d.key, d.msg, want)
		}

		if d.txID != expectedTxID {
			w.bad("%s was given the transaction %v by the context, want %v", d.key, d.txID, expectedTxID)
		}
	}

	return got
}

func deliveries(ds []delivery) []string {
	var r []string

	for _, d := range ds {
		r = append(r, fmt.Sprintf("%s/%d", d.key, d.version))
	}

	return r
}

var (
	allTopics = []string{"a", "b", "ab", "a.b", "c-1", "c-22"}
	allKeys   = []string{"h1", "h2", "h3", "h4", "h5", "h6", "h7"}
	matchers  = []string{"a", "^a$", "b", ".*", "^c-[0-9]+$", "x", "^a", "b$", "a.b", "[", "", "(a|c)"}
)

func newWorld(c *kit.C) *world {
	b, err := bus.New(&bus.Sequential{Format: "%03d"})
	if err != nil {
		c.Fatalf("new: %v", err)
	}

	return &world{c: c, b: b, topics: map[string]bool{}, handlers: map[string]*registered{}, ids: map[string]bool{}}
}

// step performs one change
func (w *world) step() (removal bool) {
	c := w.c
	topics := rapid.SliceOfN(rapid.SampledFrom(allTopics), 0, 3)

	switch rapid.IntRange(0, 7).Draw(c.T, "op") {
	case 0, 1, 2:
		ts := topics.Draw(c.T, "topics")
		w.log = append(w.log, fmt.Sprintf("topics %q", ts))

		for _, t := range ts {
			w.topics[t] = true
		}

		w.b.RegisterTopics(ts...)
	case 3:
		ts := topics.Draw(c.T, "topics")
		w.log = append(w.log, fmt.Sprintf("no topics %q", ts))

		for _, t := range ts {
			removal = removal || w.topics[t]
			delete(w.topics, t)
		}

		w.b.DeregisterTopics(ts...)
	case 4, 5, 6:
		key := rapid.SampledFrom(allKeys).Draw(c.T, "key")
		matcher := rapid.SampledFrom(matchers).Draw(c.T, "matcher")
		w.log = append(w.log, fmt.Sprintf("handler %s %q", key, matcher))
		removal = w.handlers[key] != nil
		w.register(key, matcher)
	case 7:
		key := rapid.SampledFrom(allKeys).Draw(c.T, "key")
		w.log = append(w.log, "no handler "+key)
		removal = w.handlers[key] != nil
		delete(w.handlers, key)
		w.b.DeregisterHandler(key)
	}

	return removal
}

func TestC28(t *testing.T) {
	if b, err := bus.New(nil); err == nil || b != nil {
		t.Fatalf("a broker without generator: %v, %v", b, err)
	}

	kit.Check(t, kit.Opt{
		Rule: "any sequence of registering and removing topics and handlers (regular expressions, some invalid, some replaced) and " +
			"emitting, against a model of sets; non-trivial: at least 2 handlers were reached by one message, and another message was " +
			"sent after something was removed",
		Cases: 2000,
	}, func(c *kit.C) {
		w := newWorld(c)
		many, removed, after, unknown := false, false, false, false

		for range kit.Upto(c.T, "ops", 4, 30, 120) {
			if rapid.IntRange(0, 2).Draw(c.T, "emit") > 0 {
				removed = w.step() || removed
				w.audit(allTopics)

				continue
			}

			topic := rapid.SampledFrom(allTopics).Draw(c.T, "topic")
			known := w.topics[topic]
			got := w.emit(topic, known)
			unknown = unknown || !known

			if known {
				w.same("delivered to", deliveries(got), w.interested(topic))

				many = many || len(got) > 1
				after = after || (removed && len(got) > 0)
			}
		}

		c.Class(unknown, "unknown topic")
		c.Class(many, "several handlers")
		c.Class(after, "delivery after a removal")
		c.Case(many && after, strings.Join(w.log, ", "))
	})
}

// Handlers which themselves change the registrations, or send: those which are
// not affected by the changes must get the message once.
func TestC28Within(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule: "as for TestC28, with handlers that register, replace, remove handlers or topics, or send another message, while a message is " +
			"delivered; non-trivial: at least 3 handlers are interested, and a change was made by one of them",
		Cases: 2000,
	}, func(c *kit.C) {
		w := newWorld(c)
		w.topics["a"] = true
		w.b.RegisterTopics("a")

		for _, k := range allKeys {
			if rapid.IntRange(0, 4).Draw(c.T, "registered") > 0 {
				m := rapid.SampledFrom([]string{"a", ".*", "^a", "x"}).Draw(c.T, "matcher")
				w.log = append(w.log, fmt.Sprintf("handler %s %q", k, m))
				w.register(k, m)
			}
		}

		for range rapid.IntRange(0, 4).Draw(c.T, "ops") {
			w.step()
		}

		if !w.topics["a"] {
			return
		}

		interested := w.interested("a")
		actor := rapid.SampledFrom(allKeys).Draw(c.T, "actor")
		before := map[string]int{}

		for k, r := range w.handlers {
			before[k] = r.version
		}

		changed := false
		nested := 0
		w.act = func(key string) {
			if key != actor || changed {
				return
			}

			changed = true

			for range rapid.IntRange(1, 2).Draw(c.T, "changes") {
				w.log = append(w.log, "(within "+key+")")

				if rapid.IntRange(0, 4).Draw(c.T, "send") == 0 && w.topics["a"] {
					mine := w.got
					w.got = nil
					exp := w.interested("a")

					if err := w.b.Emit(context.Background(), "a", "nested"); err != nil {
						w.bad("nested: %v", err)
					}

					w.same("nested message delivered to", deliveries(w.got), exp)
					w.got = mine
					nested++

					continue
				}

				w.step()
			}
		}

		if err := w.b.Emit(context.Background(), "a", "data"); err != nil {
			w.bad("error %v", err)
		}

		w.act = nil
		got := deliveries(w.got)
		c.Case(len(interested) > 2 && changed, strings.Join(w.log, ", "))
		c.Class(changed, "changed")
		c.Class(nested > 0, "nested message")

		for _, k := range interested {
			n := 0

			for _, g := range got {
				if g == k {
					n++
				}
			}

			key, _, _ := strings.Cut(k, "/")
			r := w.handlers[key]
			untouched := r != nil && r.version == before[key]

			if n > 1 || (n == 0 && untouched && w.topics["a"]) {
				w.bad("%s was given the message %d times: delivered to %q", k, n, got)
			}
		}

		for _, g := range got {
			n := 0

			for _, h := range got {
				if h == g {
					n++
				}
			}

			if n > 1 {
				w.bad("%s was given the message %d times", g, n)
			}
		}

		w.audit(allTopics)
		w.got = nil
		w.c = c

		if w.topics["a"] {
			exp := w.interested("a")
			w.same("next message delivered to", deliveries(w.emit("a", true)), exp)
		}
	})
}
