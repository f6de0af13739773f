package lib_test

import (
	"errors"
	"fmt"
	"reflect"
	"slices"
	"strings"
	"testing"

	"github.com/snivilised/agenor/collections"
	"github.com/snivilised/agenor/enums"
	"github.com/snivilised/agenor/verif/kit"
	"pgregory.net/rapid"
)

// positional drives one set and its model: the set of items held, and the
// order without duplicates with the anchor moved to the end.
func positional[T collections.Orderable](c *kit.C, items *rapid.Generator[T]) {
	order := rapid.SliceOfN(items, 0, kit.Upto(c.T, "size", 12, 12, 100)).Draw(c.T, "order")
	anchor := items.Draw(c.T, "anchor")
	given := slices.Clone(order)

	var want []T

	for _, i := range order {
		if i != anchor && !slices.Contains(want, i) {
			want = append(want, i)
		}
	}

	want = append(want, anchor)
	held := map[T]bool{anchor: true}
	ps := collections.NewPositionalSet(order, anchor)

	if !slices.Equal(order, given) {
		c.Fatalf("building the set changed the client's order: %v, was %v", order, given)
	}

	insert := func(i T) bool {
		if i == anchor || !slices.Contains(want, i) || held[i] {
			return false
		}

		held[i] = true

		return true
	}

	var (
		log      []string
		inserted int
		deleted  int
		rejected int
	)

	audit := func() {
		var exp []T

		for _, i := range want {
			if held[i] {
				exp = append(exp, i)
			}
		}

		if got := ps.Items(); !slices.Equal(got, exp) {
			c.Fatalf("order %v anchor %v, after %v: items %v, want %v", order, anchor, log, got, exp)
		}

		if got := ps.Count(); got != len(exp) {
			c.Fatalf("order %v anchor %v, after %v: count %v, want %v", order, anchor, log, got, len(exp))
		}

		if got := ps.Top(); got != exp[0] {
			c.Fatalf("order %v anchor %v, after %v: top %v, want %v", order, anchor, log, got, exp[0])
		}
	}

	ops := kit.Upto(c.T, "ops", 3, 30, 200)

	for range ops {
		item := items.Draw(c.T, "item")

		switch rapid.IntRange(0, 7).Draw(c.T, "op") {
		case 0, 1, 2:
			log = append(log, fmt.Sprintf("insert %v", item))
			exp := insert(item)

			if got := ps.Insert(item); got != exp {
				c.Fatalf("order %v anchor %v, after %v: insert gave %v, want %v", order, anchor, log, got, exp)
			}

			if exp {
				inserted++
			} else {
				rejected++
			}

		case 3:
			all := rapid.SliceOfN(items, 0, 6).Draw(c.T, "all")
			log = append(log, fmt.Sprintf("all %v", all))
			exp := true

			for _, i := range all {
				if insert(i) {
					inserted++
				} else {
					exp = false
				}
			}

			if got := ps.All(all...); got != exp {
				c.Fatalf("order %v anchor %v, after %v: all gave %v, want %v", order, anchor, log, got, exp)
			}

		case 4, 5:
			log = append(log, fmt.Sprintf("delete %v", item))

			if item != anchor && held[item] {
				deleted++
				delete(held, item)
			}

			ps.Delete(item)

		case 6:
			if got := ps.Contains(item); got != held[item] {
				c.Fatalf("order %v anchor %v, after %v: contains %v gave %v", order, anchor, log, item, got)
			}

			pos, ok := ps.Position(item)
			at := slices.Index(want, item)

			if ok != (at >= 0) || (ok && pos != at) {
				c.Fatalf("order %v anchor %v: position of %v gave %v %v, want %v", order, anchor, item, pos, ok, at)
			}

		case 7:
			log = append(log, "items")

			audit()
		}
	}

	audit()
	c.Class(rejected > 0, "insertions refused")
	c.Class(deleted > 0, "deletions")
	c.Class(len(want) < len(order)+1, "order with duplicates or the anchor")
	c.Case(inserted > 1 && deleted > 0, fmt.Sprintf("order %v anchor %v: %v", order, anchor, log))
}

func TestC27Positional(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "positional sets of small integers or strings, any order (duplicates, the anchor included) and any sequence of insertions, deletions and queries, against a model; non-trivial: at least 2 insertions and a deletion took effect",
		Cases: 3000,
	}, func(c *kit.C) {
		switch rapid.IntRange(0, 3).Draw(c.T, "type") {
		case 3:
			positional(c, rapid.IntRange(-2, 60))
		case 0:
			positional(c, rapid.IntRange(-2, 5))
		case 1:
			positional(c, rapid.StringOfN(rapid.RuneFrom([]rune("ab é")), 0, 2, -1))
		case 2:
			positional(c, rapid.Map(rapid.IntRange(0, 5), func(i int) enums.Role { return enums.Role(i) }))
		}
	})
}

func TestC27Stack(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "stacks, empty or built on a slice, any sequence of pushes, pops and queries against a slice; non-trivial: at least 3 pushes and 3 successful pops",
		Cases: 3000,
	}, func(c *kit.C) {
		var (
			model  []int
			log    []string
			pushed int
			popped int
			stack  = collections.NewStack[int]()
		)

		if rapid.Bool().Draw(c.T, "with") {
			with := rapid.SliceOfN(rapid.IntRange(0, 9), 0, kit.Upto(c.T, "size", 6, 6, 100)).Draw(c.T, "initial")
			model = slices.Clone(with)
			stack = collections.NewStackWith(with)
			log = append(log, fmt.Sprintf("with %v", with))
		}

		for range kit.Upto(c.T, "ops", 1, 24, 200) {
			switch rapid.IntRange(0, 4).Draw(c.T, "op") {
			case 0, 1:
				i := rapid.IntRange(0, 9).Draw(c.T, "item")
				log = append(log, fmt.Sprintf("push %v", i))
				model = append(model, i)
				pushed++

				stack.Push(i)
			case 2, 3:
				log = append(log, "pop")
				got, err := stack.Pop()

				if len(model) == 0 {
					if !errors.Is(err, collections.ErrStackIsEmpty) || got != 0 {
						c.Fatalf("after %v: pop of an empty stack gave %v, %v", log, got, err)
					}

					break
				}

				if exp := model[len(model)-1]; got != exp || err != nil {
					c.Fatalf("after %v: pop gave %v, %v; want %v", log, got, err, exp)
				}

				model = model[:len(model)-1]
				popped++
			case 4:
				log = append(log, "must pop")
				got, panicked := mustPop(stack)

				if panicked != (len(model) == 0) {
					c.Fatalf("after %v: must pop of %v items, panicked: %v", log, len(model), panicked)
				}

				if !panicked {
					if exp := model[len(model)-1]; got != exp {
						c.Fatalf("after %v: must pop gave %v; want %v", log, got, exp)
					}

					model = model[:len(model)-1]
					popped++
				}
			}

			top, err := stack.Current()

			if len(model) == 0 {
				if !errors.Is(err, collections.ErrStackIsEmpty) {
					c.Fatalf("after %v: current of an empty stack gave %v, %v", log, top, err)
				}
			} else if exp := model[len(model)-1]; top != exp || err != nil {
				c.Fatalf("after %v: current gave %v, %v; want %v", log, top, err, exp)
			}

			if stack.IsEmpty() != (len(model) == 0) || int(stack.Size()) != len(model) {
				c.Fatalf("after %v: empty %v, size %v; want %v items", log, stack.IsEmpty(), stack.Size(), len(model))
			}

			if got := stack.Content(); !slices.Equal(got, model) {
				c.Fatalf("after %v: content %v, want %v", log, got, model)
			}
		}

		c.Class(len(model) == 0, "emptied")
		c.Case(pushed > 2 && popped > 2, strings.Join(log, ", "))
	})
}

func mustPop(s *collections.Stack[int]) (item int, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()

	return s.MustPop(), false
}

func TestC27Iterators(t *testing.T) {
	kit.Check(t, kit.Opt{
		Rule:  "forward and reverse iterators, looped or run while a condition holds, used again for other input after being abandoned anywhere; non-trivial: 2 uses or more, of which one not empty",
		Cases: 3000,
	}, func(c *kit.C) {
		const zero = -77

		items := rapid.SliceOfN(rapid.IntRange(0, 5), 0, kit.Upto(c.T, "size", 8, 8, 300))
		input := items.Draw(c.T, "input")
		forward := rapid.Bool().Draw(c.T, "forward")

		var (
			it         collections.RunnableIterator[int, string]
			log        []string
			uses, full int
		)

		if forward {
			it = collections.ForwardRunIt[int, string](input, zero)
		} else {
			it = collections.ReverseRunIt[int, string](input, zero)
		}

		if rapid.Bool().Draw(c.T, "plain") {
			var plain collections.Iterator[int]

			if forward {
				plain = collections.ForwardIt(input, zero)
			} else {
				plain = collections.ReverseIt(input, zero)
			}

			iterate(c, plain, directed(input, forward), zero, len(input), &log)
		}

		if it.Valid() {
			c.Fatalf("iterator over %v is valid before the start", input)
		}

		for {
			exp := directed(input, forward)

			if len(exp) > 0 {
				full++
			}

			uses++

			switch rapid.IntRange(0, 2).Draw(c.T, "use") {
			case 0:
				iterate(c, it, exp, zero, len(exp), &log)
			case 1:
				iterate(c, it, exp, zero, rapid.IntRange(0, len(exp)).Draw(c.T, "abandon"), &log)
			case 2:
				stop := rapid.IntRange(0, len(exp)).Draw(c.T, "stop") // ordinal at which to stop

				var ran, asked []string

				it.RunAll(func(i int) string {
					r := fmt.Sprintf("%v/%v", i, len(ran))
					ran = append(ran, r)

					return r
				}, func(i int, r string) bool {
					asked = append(asked, r)

					if !strings.HasPrefix(r, fmt.Sprintf("%v/", i)) {
						c.Fatalf("the condition was given item %v with the result %q", i, r)
					}

					return len(asked) <= stop
				})

				var want []string

				for n, i := range exp {
					if n > stop {
						break
					}

					want = append(want, fmt.Sprintf("%v/%v", i, n))
				}

				log = append(log, fmt.Sprintf("run %v stop %v", exp, stop))

				if !reflect.DeepEqual(ran, want) || !reflect.DeepEqual(asked, want) {
					c.Fatalf("%v: ran %v, condition asked for %v, want %v", log, ran, asked, want)
				}
			}

			if !rapid.Bool().Draw(c.T, "again") {
				break
			}

			if rapid.IntRange(0, 3).Draw(c.T, "reset") > 0 {
				input = items.Draw(c.T, "other")
				it.Reset(input)

				if it.Valid() {
					c.Fatalf("%v: iterator is valid after the reset", log)
				}
			}
		}

		c.Class(!forward, "reverse")
		c.Case(uses > 1 && full > 0, fmt.Sprintf("forward %v: %v", forward, strings.Join(log, "; ")))
	})
}

func directed(items []int, forward bool) []int {
	out := slices.Clone(items)
	if !forward {
		slices.Reverse(out)
	}

	return out
}

// iterate loops over an iterator, giving up after limit items.
func iterate(c *kit.C, it collections.Iterator[int], exp []int, zero, limit int, log *[]string) {
	*log = append(*log, fmt.Sprintf("loop %v of %v", limit, exp))

	n := 0

	for entry := it.Start(); it.Valid(); entry = it.Next() {
		if n >= len(exp) || entry != exp[n] {
			c.Fatalf("%v: item %v was %v, want %v", *log, n, entry, exp)
		}

		n++

		if n > limit {
			return
		}
	}

	if n != len(exp) {
		c.Fatalf("%v: ended after %v of %v", *log, n, exp)
	}

	if len(exp) == 0 {
		if got := it.Start(); got != zero {
			c.Fatalf("%v: start of nothing gave %v", *log, got)
		}
	}

	for range 2 {
		if got := it.Next(); got != zero || it.Valid() {
			c.Fatalf("%v: next after the end gave %v, valid %v", *log, got, it.Valid())
		}
	}
}

func TestC32(t *testing.T) {
	flags := []enums.FilterScope{
		enums.ScopeTree, enums.ScopeTop, enums.ScopeLeaf, enums.ScopeIntermediate,
		enums.ScopeFile, enums.ScopeDirectory, enums.ScopeCustom,
	}

	kit.Check(t, kit.Opt{
		Rule:  "any scope (named flags, all, or any bits), any sequence of set, clear, scrub and checks, against sets of bits; non-trivial: at least one set and one clear changed the scope",
		Cases: 4000,
	}, func(c *kit.C) {
		for i, a := range flags {
			for _, b := range flags[i+1:] {
				if a == 0 || a&b != 0 {
					c.Fatalf("scopes %v and %v are not distinct", a, b)
				}
			}
		}

		masks := rapid.OneOf(
			rapid.SampledFrom(flags),
			rapid.Custom(func(t *rapid.T) enums.FilterScope {
				var m enums.FilterScope

				for _, f := range flags {
					if rapid.Bool().Draw(t, "flag") {
						m |= f
					}
				}

				return m
			}),
			rapid.Map(rapid.Uint32(), func(u uint32) enums.FilterScope { return enums.FilterScope(u) }),
			rapid.Just(enums.FilterScope(enums.ScopeAll)),
			rapid.Just(enums.ScopeUndefined),
		)

		toSet := func(s enums.FilterScope) map[int]bool {
			m := map[int]bool{}

			for b := range 32 {
				if s&(1<<b) != 0 {
					m[b] = true
				}
			}

			return m
		}

		scope := masks.Draw(c.T, "scope")
		model := toSet(scope)
		log := []string{fmt.Sprintf("%#x", uint32(scope))}
		grown, shrunk := false, false

		for range rapid.IntRange(1, 10).Draw(c.T, "ops") {
			before := len(model)
			mask := masks.Draw(c.T, "mask")

			switch rapid.IntRange(0, 3).Draw(c.T, "op") {
			case 0:
				log = append(log, fmt.Sprintf("set %#x", uint32(mask)))
				scope.Set(mask)

				for b := range toSet(mask) {
					model[b] = true
				}

				grown = grown || len(model) > before
			case 1:
				log = append(log, fmt.Sprintf("clear %#x", uint32(mask)))
				scope.Clear(mask)

				for b := range toSet(mask) {
					delete(model, b)
				}

				shrunk = shrunk || len(model) < before
			case 2:
				was := scope
				got := scope.Scrub()
				exp := was & (enums.ScopeFile | enums.ScopeDirectory)

				if got != exp || scope != was {
					c.Fatalf("%v: scrub of %#x gave %#x, left %#x", log, uint32(was), uint32(got), uint32(scope))
				}
			case 3:
				for name, q := range map[string]struct {
					got  bool
					flag enums.FilterScope
				}{
					"tree":      {scope.IsTree(), enums.ScopeTree},
					"file":      {scope.IsFile(), enums.ScopeFile},
					"directory": {scope.IsDirectory(), enums.ScopeDirectory},
				} {
					if q.got != (scope&q.flag != 0) {
						c.Fatalf("%v: is %v of %#x gave %v", log, name, uint32(scope), q.got)
					}
				}
			}

			if !reflect.DeepEqual(toSet(scope), model) {
				c.Fatalf("%v: scope is %#x, want bits %v", log, uint32(scope), model)
			}
		}

		c.Case(grown && shrunk, strings.Join(log, ", "))
	})
}
