package lib_test

import (
	"errors"
	"fmt"
	"io/fs"
	"reflect"
	"strings"
	"testing"

	"github.com/nicksnyder/go-i18n/v2/i18n"
	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/agenor/stock"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// kind of error: how it is made from values and how it is recognised.
type kind struct {
	name   string
	values int
	make   func(v []string) error
	is     func(err error) bool
	family string // kinds of a family share the means of recognition
}

func fixed(name string, sentinel error) kind {
	return kind{name: name, make: func([]string) error { return sentinel }, is: func(err error) bool { return errors.Is(err, sentinel) }}
}

func with1(name string, mk func(string) error, is func(error) bool) kind {
	return kind{name: name, values: 1, make: func(v []string) error { return mk(v[0]) }, is: is}
}

func asType[T error](err error) bool {
	var target T

	return errors.As(err, &target)
}

var errorKinds = []kind{
	with1("mute", core.NewInvalidNotificationMuteRequestedError, core.IsInvalidNotificationMuteRequestedError),
	with1("transition", core.NewInvalidResumeStateTransitionError, core.IsInvalidResumeStateTransitionError),
	with1("extended", core.NewItemAlreadyExtendedError, core.IsNewItemAlreadyExtendedError),
	with1("detacher", core.NewMissingHibernationDetacherFunctionError, core.IsMissingHibernationDetacherFunctionError),
	{
		name: "periscope", values: 2,
		make: func(v []string) error { return core.NewInvalidPeriscopeRootPathError(v[0], v[1]) },
		is:   core.IsInvalidPeriscopeRootPathError,
	},
	with1("controller", core.NewResumeControllerNotSetError, core.IsResumeControllerNotSetError),
	with1("topic", core.NewBrokerTopicNotFoundError, core.IsBrokerTopicNotFoundError),
	fixed("sealed", core.ErrGuardianCantDecorateItemSealed),
	fixed("overflow", core.ErrDetectedSpawnStackOverflow),
	fixed("primary facade", core.ErrWrongPrimaryFacade),
	fixed("resume facade", core.ErrWrongResumeFacade),
	fixed("forest", core.ErrNilForest),
	fixed("stack", collections.ErrStackIsEmpty),

	fixed("filter nil", locale.ErrFilterIsNil),
	fixed("filter type", locale.ErrFilterMissingType),
	fixed("filter custom", locale.ErrFilterCustomNotSupported),
	fixed("filter child", locale.ErrFilterChildGlobExNotSupported),
	fixed("filter undefined", locale.ErrFilterUndefined),
	fixed("driver", locale.ErrInternalFailedToGetNavigatorDriver),
	with1("incase", locale.NewInvalidIncaseFilterDefError, locale.IsInvalidIncaseFilterDefError),
	fixed("pool", locale.ErrWorkerPoolCreationFailed),
	fixed("sampling files", locale.ErrInvalidFileSamplingSpecMissingFiles),
	fixed("sampling directories", locale.ErrInvalidSamplingSpecMissingDirectories),
	fixed("custom definition", locale.ErrMissingCustomFilterDefinition),
	with1("glob ex", locale.NewInvalidExtGlobFilterMissingSeparatorError, locale.IsInvalidExtGlobFilterMissingSeparatorError),
	fixed("poly", locale.ErrPolyFilterIsInvalid),
	fixed("tree path", locale.ErrUsageMissingTreePath),
	fixed("restore path", locale.ErrUsageMissingRestorePath),
	fixed("subscription", locale.ErrUsageMissingSubscription),
	fixed("handler", locale.ErrUsageMissingHandler),
	fixed("generator", locale.ErrIDGeneratorFuncCantBeNil),
	fixed("unequal", locale.ErrUnEqualConversion),
	{
		name: "fs mismatch", family: "mismatch",
		make: func([]string) error { return locale.ErrCoreResumeFsMismatch }, is: locale.IsCoreResumeFsMismatchError,
	},
	{
		name: "traverse fs mismatch", family: "mismatch",
		make: func([]string) error { return locale.NewTraverseFsMismatchError() },
		is:   asType[*locale.TraverseFsMismatchError],
	},
	{
		name: "resume fs mismatch", family: "mismatch",
		make: func([]string) error { return locale.NewResumeFsMismatchError() },
		is:   asType[*locale.ResumeFsMismatchError],
	},
	{
		name: "panic", family: "panic",
		make: func([]string) error { return locale.ErrCorePanicOccurred }, is: locale.IsCorePanicOccurredError,
	},
	{
		name: "saved", family: "panic", values: 1,
		make: func(v []string) error { return locale.NewTraversalSavedError(v[0], errors.New("cause")) },
		is:   asType[*locale.TraversalSavedError],
	},
	{
		name: "not saved", family: "panic", values: 1,
		make: func(v []string) error { return locale.NewTraversalNotSavedError(errors.New("cause"), errors.New(v[0])) },
		is:   asType[*locale.TraversalNotSavedError],
	},
}

// core of a family: recognises all of it
var cores = map[string]string{"mismatch": "fs mismatch", "panic": "panic"}

var wrappers = []struct {
	name string
	wrap func(err error) error
}{
	{"%w", func(err error) error { return fmt.Errorf("while: %w", err) }},
	{"join", func(err error) error { return errors.Join(errors.New("other"), err) }},
	{"joined", func(err error) error { return errors.Join(err, fs.ErrNotExist) }},
	{"%w %w", func(err error) error { return fmt.Errorf("%w and %w", fs.ErrClosed, err) }},
	{"path", func(err error) error { return &fs.PathError{Op: "open", Path: "p", Err: err} }},
}

func messageID(err error) string {
	v := reflect.ValueOf(err)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}

	if v.Kind() != reflect.Struct {
		return ""
	}

	f := v.FieldByName("Data")
	if !f.IsValid() || f.IsZero() {
		return ""
	}

	m, ok := f.Interface().(interface{ Message() *i18n.Message })
	if !ok {
		return ""
	}

	return m.Message().ID
}

func TestC30(t *testing.T) {
	values := rapid.OneOf(
		rapid.StringOfN(rapid.RuneFrom([]rune("ab/.*|% {}$\\\"'é日\n")), 1, 12, -1),
		rapid.SampledFrom([]string{"{{.Pattern}}", "%v", "%!s(MISSING)", "a: b", "/x/y", "{{", "<>&", "null"}),
	)

	kit.Check(t, kit.Opt{
		Rule: "any kind of error, made with any values, wrapped up to 5 times in any way, against the predicates and sentinels of all " +
			"kinds; non-trivial: the error was made with values, or wrapped at least twice",
		Cases: 2000,
	}, func(c *kit.C) {
		k := rapid.SampledFrom(errorKinds).Draw(c.T, "kind")
		made := make([]string, k.values)

		for i := range made {
			made[i] = values.Draw(c.T, "value")
		}

		err := k.make(made)
		what := fmt.Sprintf("%s%q", k.name, made)
		text := err.Error()

		if strings.TrimSpace(text) == "" {
			c.Fatalf("%s has no message", what)
		}

		if strings.Contains(text, "<no value>") {
			c.Fatalf("the message of %s is incomplete: %q", what, text)
		}

		for _, v := range made {
			if !strings.Contains(text, v) {
				c.Fatalf("the message of %s does not contain %q: %q", what, v, text)
			}
		}

		wraps := kit.Upto(c.T, "wraps", 0, 5, 80)
		outer := err

		for range wraps {
			w := rapid.SampledFrom(wrappers).Draw(c.T, "wrapper")
			outer = w.wrap(outer)
			what += " in " + w.name
		}

		c.Case(wraps > 1 || k.values > 0, what)
		c.Class(wraps > 0, "wrapped")
		c.Class(k.values > 0, "with values")

		for _, other := range errorKinds {
			want := other.name == k.name || (k.family != "" && other.name == cores[k.family])

			if got := other.is(outer); got != want {
				c.Fatalf("%s is recognised as %q: %v, want %v", what, other.name, got, want)
			}

			if other.name == k.name || other.values > 0 || k.values > 0 {
				continue
			}

			peer := other.make(nil)

			if peer.Error() == text {
				c.Fatalf("the message of %s is that of %q: %q", what, other.name, text)
			}

			if id := messageID(err); id != "" && id == messageID(peer) {
				c.Fatalf("the message of %s has the identity of %q: %q", what, other.name, id)
			}
		}

		if stock.IsBenignError(outer) {
			c.Fatalf("%s is benign", what)
		}
	})
}

func TestC30Benign(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "skip errors of the file system and others, wrapped up to 5 times in any way; non-trivial: wrapped at least twice",
		Cases: 1000,
	}, func(c *kit.C) {
		err := rapid.SampledFrom([]error{
			fs.SkipDir, fs.SkipAll, fs.ErrNotExist, fs.ErrInvalid, errors.New("skip this directory"), errors.New(""),
		}).Draw(c.T, "error")
		want := err == fs.SkipDir || err == fs.SkipAll
		wraps := kit.Upto(c.T, "wraps", 0, 5, 80)
		what := fmt.Sprintf("%q", err)

		for range wraps {
			w := rapid.SampledFrom(wrappers).Draw(c.T, "wrapper")
			err = w.wrap(err)
			what += " in " + w.name
		}

		c.Case(wraps > 1, what)
		c.Class(want, "benign")

		if stock.IsBenignError(err) != want {
			c.Fatalf("%s is benign: %v, want %v", what, !want, want)
		}

		if !stock.IsBenignError(nil) {
			c.Fatalf("no error is not benign")
		}
	})
}
