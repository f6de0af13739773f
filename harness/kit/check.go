package kit

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/snivilised/agenor/locale"
	"github.com/snivilised/li18ngo"
	"pgregory.net/rapid"
)

// Opt describes one check.
type Opt struct {
	Rule  string // how cases are made, and what makes one non-trivial
	Cases int    // per process at scale 1
}

// C is handed to the property: rapid's T plus the bookkeeping of the case.
type C struct {
	*rapid.T
	st *stats
}

type stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`

	hashes map[uint64]struct{}
}

// Scale multiplies the number of cases of every check.
func Scale() float64 {
	if s, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && s > 0 {
		return s
	}

	return 1
}

// Check runs a property over generated cases, keeping count.
func Check(t *testing.T, opt Opt, prop func(c *C)) {
	t.Helper()

	n := int(float64(opt.Cases) * Scale())
	if n < 10 {
		n = 10
	}

	if flag.Lookup("rapid.checks") != nil {
		_ = flag.Set("rapid.checks", strconv.Itoa(n))
	}

	st := &stats{Test: t.Name(), Rule: opt.Rule, Classes: map[string]int{}, hashes: map[uint64]struct{}{}}

	t.Cleanup(func() { st.write() })

	rapid.Check(t, func(rt *rapid.T) {
		st.Evaluations++
		prop(&C{T: rt, st: st})
	})
}

// Case records the case about to be run: what it is and whether it is one that
// puts the property to the test.
func (c *C) Case(nontrivial bool, what any) {
	s := fmt.Sprint(what)

	if cur := os.Getenv("VERIF_CURRENT"); cur != "" {
		_ = os.WriteFile(cur, []byte(c.st.Test+"\n"+s+"\n"), 0o600)
	}

	if !nontrivial {
		return
	}

	c.st.NonTrivial++
	h := fnv.New64a()
	_, _ = h.Write([]byte(c.st.Test + s))
	c.st.hashes[h.Sum64()] = struct{}{}

	if k := c.st.NonTrivial; (k == 3 || k == 30 || k == 300) && len(c.st.Samples) < 3 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}

		c.st.Samples = append(c.st.Samples, s)
	} else if k == 1 {
		c.st.Samples = append(c.st.Samples, s)
	}
}

// Class counts a case in a named class, so that the distribution of what is
// generated can be read from the evidence.
func (c *C) Class(on bool, name string) {
	if on {
		c.st.Classes[name]++
	}
}

func (s *stats) write() {
	dir := os.Getenv("VERIF_STATS")
	if dir == "" {
		if testing.Verbose() {
			fmt.Printf("%s: %d evaluations %d non-trivial (%d distinct) %v\n",
				s.Test, s.Evaluations, s.NonTrivial, len(s.hashes), s.Classes)
		}

		return
	}

	base := filepath.Join(dir, strings.ReplaceAll(s.Test, "/", "_"))

	b, _ := json.Marshal(s)
	_ = os.WriteFile(base+".json", b, 0o600)

	hs := make([]uint64, 0, len(s.hashes))
	for h := range s.hashes {
		hs = append(hs, h)
	}

	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })

	out := make([]byte, 0, len(hs)*8)
	for _, h := range hs {
		out = binary.LittleEndian.AppendUint64(out, h)
	}

	_ = os.WriteFile(base+".hashes", out, 0o600)
}

// Main runs the tests of a package, with the library's messages in English.
func Main(m *testing.M) {
	if err := li18ngo.Use(func(o *li18ngo.UseOptions) {
		o.From.Sources = li18ngo.TranslationFiles{
			locale.SourceID: li18ngo.TranslationSource{Name: "agenor"},
		}
	}); err != nil {
		panic(err)
	}

	os.Exit(m.Run())
}

// Upto draws a number from a range, which now and then reaches a lot further.
func Upto(t *rapid.T, label string, lo, hi, far int) int {
	if rapid.IntRange(0, 24).Draw(t, label+" far") == 24 {
		hi = far
	}

	return rapid.IntRange(lo, hi).Draw(t, label)
}
