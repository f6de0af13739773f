package kit

import (
	"fmt"
	"math"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/snivilised/agenor/enums"
	"pgregory.net/rapid"
)

// Subs are the subscriptions.
var Subs = []enums.Subscription{
	enums.SubscribeFiles,
	enums.SubscribeDirectories,
	enums.SubscribeDirectoriesWithFiles,
	enums.SubscribeUniversal,
}

// Roots are the tree paths used for relative and absolute file systems.
var (
	RelRoots = []string{"root", "a/root", "Music Box/x.y/root", "."}
	AbsRoots = []string{"/root", "/srv/data/root", "/mnt/My Files/root", "/ünï/日本/root", "/"}
)

// GenBase draws a tree and the plain navigation settings.
func GenBase(t *rapid.T, g TreeGen) *Case {
	c := &Case{}
	c.Abs = rapid.Bool().Draw(t, "abs")
	g.Bytes = g.Bytes && c.Abs // a path of a relative file system has to be valid utf-8
	c.Root = g.Gen(t, "tree")

	if c.Abs {
		c.Tree = rapid.SampledFrom(AbsRoots).Draw(t, "root")
	} else {
		c.Tree = rapid.SampledFrom(RelRoots).Draw(t, "root")
	}

	c.Root.Name = filepath.Base(c.Tree)
	if c.Tree == "." || c.Tree == "/" {
		c.Root.Dir = true
	}

	c.Sub = rapid.SampledFrom(Subs).Draw(t, "sub")
	c.FilesFirst = rapid.IntRange(0, 3).Draw(t, "filesfirst") == 0
	c.CaseSens = rapid.IntRange(0, 3).Draw(t, "casesens") == 0
	c.CaseBy = c.CaseSens && rapid.Bool().Draw(t, "caseby")
	c.TrimSep = rapid.IntRange(0, 3).Draw(t, "trimsep") == 0
	c.ReverseFS = rapid.IntRange(0, 3).Draw(t, "reversefs") == 0

	if rapid.IntRange(0, 5).Draw(t, "spelt") == 0 {
		c.Spelling = rapid.SampledFrom(Spellings).Draw(t, "spelling")
	}

	return c
}

// Spellings of a tree.
var Spellings = []string{"slash", "slashes", "dot", "lead", "double", "up"}

// Spelt is the tree as given by the client, which needs not be clean.
func (c *Case) Spelt() string {
	switch c.Spelling {
	case "slash":
		return c.Tree + "/"
	case "slashes":
		return c.Tree + "//"
	case "dot":
		return c.Tree + "/."
	case "lead":
		if c.Abs {
			return "/." + c.Tree
		}

		return "./" + c.Tree
	case "double":
		return strings.ReplaceAll(c.Tree, "/", "//")
	case "up":
		return c.Tree + "/elsewhere/.."
	}

	return c.Tree
}

// Large are quantities that go wrong when taken for a narrower type.
var Large = []uint{
	127, 128, 255, 256, 257, 1 << 15, 1 << 16, 1<<16 + 1, math.MaxInt32, math.MaxInt32 + 1,
	math.MaxUint32, math.MaxUint32 + 2, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64 - 1, math.MaxUint64,
}

// GenDepth draws a depth limit.
func GenDepth(t *rapid.T, c *Case) {
	switch rapid.IntRange(0, 4).Draw(t, "limitkind") {
	case 4:
		// as good as none
		c.Depth = rapid.SampledFrom(Large).Draw(t, "large")

		if h := c.Root.Height(); h > 8 && rapid.Bool().Draw(t, "within") {
			c.Depth = uint(rapid.IntRange(8, h+1).Draw(t, "depth"))
		}
	case 0:
		c.NoRecurse = true
	case 1:
		c.Depth = uint(rapid.IntRange(1, 3).Draw(t, "depth"))
	case 2:
		c.Depth = uint(rapid.IntRange(1, 8).Draw(t, "depth"))
	case 3:
		c.Depth = uint(rapid.IntRange(1, 4).Draw(t, "depth"))
		c.NoRecurse = rapid.Bool().Draw(t, "both")
	}
}

// Paths of the tree selected by keep.
func (c *Case) Paths(keep func(e *Entry) bool) []string {
	var r []string

	c.Root.Walk(c.Tree, func(p string, _ int, e *Entry) {
		if e.Name != ".DS_Store" && (keep == nil || keep(e)) {
			r = append(r, p)
		}
	})

	return r
}

// Names of entries in the tree.
func (c *Case) Names() []string {
	var r []string

	c.Root.Walk(c.Tree, func(p string, _ int, e *Entry) {
		r = append(r, filepath.Base(p))
	})

	return r
}

// EscapeGlob makes a glob that matches just the name.
func EscapeGlob(s string) string {
	r := strings.NewReplacer("\\", "\\\\", "*", "\\*", "?", "\\?", "[", "\\[")
	return r.Replace(s)
}

// GenGlob draws a glob aimed at the names present.
func GenGlob(t *rapid.T, names []string) string {
	switch rapid.IntRange(0, 9).Draw(t, "globkind") {
	case 0:
		return "*"
	case 1:
		return rapid.SampledFrom([]string{"*.flac", "*.txt", "*.*", "*o*", "a*", "[a-c]*", "?", "??", "*e", "[!a]*", "C*", "*.TXT", "[A-Z]*"}).Draw(t, "glob")
	case 2, 3, 4:
		return EscapeGlob(rapid.SampledFrom(names).Draw(t, "name"))
	case 5, 6:
		n := []rune(rapid.SampledFrom(names).Draw(t, "name"))
		k := rapid.IntRange(1, len(n)).Draw(t, "cut")

		return EscapeGlob(string(n[:k])) + "*"
	case 7:
		n := []rune(rapid.SampledFrom(names).Draw(t, "name"))
		k := rapid.IntRange(0, len(n)-1).Draw(t, "cut")

		return "*" + EscapeGlob(string(n[k:]))
	case 8:
		ext := filepath.Ext(rapid.SampledFrom(names).Draw(t, "name"))
		return "*" + EscapeGlob(ext)
	}

	return "nothing-matches-this"
}

// GenRegex draws a regular expression aimed at the names present.
func GenRegex(t *rapid.T, names []string) string {
	switch rapid.IntRange(0, 6).Draw(t, "rexkind") {
	case 0:
		return "."
	case 1:
		return rapid.SampledFrom([]string{"^a", "flac$", "^[A-Z]", "(?i)^c", "o", "[0-9]+", "^.{1,3}$", "\\.txt$", "^$", "a|b"}).Draw(t, "rex")
	case 2, 3:
		return "^" + regexp.QuoteMeta(rapid.SampledFrom(names).Draw(t, "name")) + "$"
	case 4:
		n := []rune(rapid.SampledFrom(names).Draw(t, "name"))
		return "^" + regexp.QuoteMeta(string(n[:rapid.IntRange(1, len(n)).Draw(t, "cut")]))
	case 5:
		n := []rune(rapid.SampledFrom(names).Draw(t, "name"))
		return regexp.QuoteMeta(string(n[rapid.IntRange(0, len(n)-1).Draw(t, "cut"):])) + "$"
	}

	return "(?i)" + regexp.QuoteMeta(rapid.SampledFrom(names).Draw(t, "name"))
}

// Scopes are the interesting filter scopes.
var Scopes = []enums.FilterScope{
	enums.ScopeUndefined,
	enums.ScopeAll,
	enums.ScopeFile,
	enums.ScopeDirectory,
	enums.ScopeTree,
	enums.ScopeTop,
	enums.ScopeLeaf,
	enums.ScopeIntermediate,
	enums.ScopeFile | enums.ScopeDirectory,
	enums.ScopeTop | enums.ScopeFile,
	enums.ScopeTree | enums.ScopeTop,
}

// GenScope draws any scope.
func GenScope(t *rapid.T) enums.FilterScope {
	if rapid.IntRange(0, 3).Draw(t, "mixed") > 0 {
		return rapid.SampledFrom(Scopes).Draw(t, "scope")
	}

	var scope enums.FilterScope

	for _, s := range Scopes[2:8] {
		if rapid.Bool().Draw(t, "in") {
			scope |= s
		}
	}

	return scope
}

// GenSimpleFilter draws a glob, regex or custom filter.
func GenSimpleFilter(t *rapid.T, names []string, kinds ...string) *FilterSpec {
	f := &FilterSpec{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}

	if f.Kind == "regex" {
		f.Pattern = GenRegex(t, names)
	} else {
		f.Pattern = GenGlob(t, names)
	}

	f.Desc = fmt.Sprintf("%s %s", f.Kind, f.Pattern)
	f.Scope = GenScope(t)
	f.Negate = rapid.IntRange(0, 2).Draw(t, "negate") == 0
	f.IfNA = rapid.IntRange(0, 2).Draw(t, "ifna")

	return f
}

// GenGlobEx draws an extended glob aimed at the names present.
func GenGlobEx(t *rapid.T, names []string) *FilterSpec {
	f := &FilterSpec{Kind: "globex"}
	word := func(label string) string {
		n := rapid.SampledFrom(names).Draw(t, label)
		if strings.ContainsAny(n, "|/,!.") || n == "" || strings.TrimSpace(n) != n {
			return "a"
		}

		return EscapeGlob(n)
	}
	dir := "*"

	switch rapid.IntRange(0, 7).Draw(t, "dirkind") {
	case 0, 1:
		dir = word("dir")
	case 2:
		dir = rapid.SampledFrom([]string{"C*", "c*", "[a-m]*", "?", "*e*", "A*", "r*", "*t"}).Draw(t, "dirglob")
	case 3:
		n := []rune(word("dir"))
		dir = strings.TrimSuffix(string(n[:rapid.IntRange(1, len(n)).Draw(t, "cut")]), "\\") + "*"
	}

	switch rapid.IntRange(0, 5).Draw(t, "exclkind") {
	case 0:
		dir += "/" + word("excl")
	case 1:
		dir += "/" + rapid.SampledFrom([]string{"c*", "C*", "[A-M]*", "*a", "r??t"}).Draw(t, "exclglob")
	}

	var list []string

	for i := rapid.IntRange(1, 4).Draw(t, "nsuffixes"); i > 0; i-- {
		base := rapid.SampledFrom([]string{"", "*", "*", "*", "c*", "C*", "*o*", "a", "?", "Cover", "*.tar", "[a-c]*"}).Draw(t, "base")
		if rapid.IntRange(0, 5).Draw(t, "baseword") == 0 {
			base = word("base")
		}

		neg := rapid.SampledFrom([]string{"", "", "!"}).Draw(t, "not")
		ext := rapid.SampledFrom([]string{"*", "flac", "FLAC", "txt", "TXT", "jpg", "gz", "f*", "t?t", "go", "Flac"}).Draw(t, "ext")
		list = append(list, rapid.SampledFrom([]string{"", "", " "}).Draw(t, "pad")+base+"."+neg+ext)
	}

	if rapid.IntRange(0, 5).Draw(t, "empty") == 0 {
		list = append(list, rapid.SampledFrom([]string{"", "!"}).Draw(t, "emptyitem"))
	}

	f.Pattern = dir + "|" + strings.Join(list, ",")
	f.Desc = "globex " + f.Pattern
	f.Scope = rapid.SampledFrom(Scopes).Draw(t, "scope") // of no consequence
	f.Negate = rapid.IntRange(0, 3).Draw(t, "negate") == 0
	f.IfNA = rapid.IntRange(0, 2).Draw(t, "ifna")

	return f
}

// GenPoly draws a poly filter, one part of which may be a client defined one.
func GenPoly(t *rapid.T, names []string, custom bool) *FilterSpec {
	f := &FilterSpec{Kind: "poly", Desc: "poly"}
	kinds := []string{"glob", "glob", "regex"}

	if rapid.IntRange(0, 5).Draw(t, "globexfile") == 0 {
		f.File = GenGlobEx(t, names)
	} else {
		f.File = GenSimpleFilter(t, names, kinds...)
	}

	f.Dir = GenSimpleFilter(t, names, kinds...)

	if custom && rapid.IntRange(0, 5).Draw(t, "custompart") == 0 {
		if part := GenSimpleFilter(t, names, "custom"); rapid.Bool().Draw(t, "filepart") {
			f.File = part
		} else {
			f.Dir = part
		}
	}

	f.IfNA = rapid.IntRange(0, 2).Draw(t, "ifna")

	return f
}

// GenFilter draws any node filter.
func GenFilter(t *rapid.T, names []string, custom bool) *FilterSpec {
	switch rapid.IntRange(0, 9).Draw(t, "filterkind") {
	case 0:
		return GenGlobEx(t, names)
	case 1:
		return GenPoly(t, names, custom)
	case 2:
		if custom {
			return GenSimpleFilter(t, names, "custom")
		}
	}

	return GenSimpleFilter(t, names, "glob", "regex")
}
