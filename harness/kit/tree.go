// Package kit holds the machinery shared by every property check: generated
// directory trees, an in-memory file system with fault injection, a recorder of
// what a traversal did, and an independent reference model of what it should
// have done.
package kit

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Entry is one file system item of a generated tree.
type Entry struct {
	Name string   `json:"n"`
	Dir  bool     `json:"d,omitempty"`
	Size int      `json:"s,omitempty"`
	Kids []*Entry `json:"k,omitempty"`
}

// Find returns the entry at the relative path (slash separated), "" or "." is e.
func (e *Entry) Find(rel string) *Entry {
	if rel == "" || rel == "." {
		return e
	}

	cur := e

	for _, part := range strings.Split(rel, "/") {
		var next *Entry

		for _, k := range cur.Kids {
			if k.Name == part {
				next = k
				break
			}
		}

		if next == nil {
			return nil
		}

		cur = next
	}

	return cur
}

// Count returns number of entries, including e.
func (e *Entry) Count() (files, dirs int) {
	if e.Dir {
		dirs++
	} else {
		files++
	}

	for _, k := range e.Kids {
		f, d := k.Count()
		files += f
		dirs += d
	}

	return
}

// Height is the number of levels beneath e.
func (e *Entry) Height() int {
	h := 0

	if e == nil {
		return h
	}

	for _, k := range e.Kids {
		if kh := k.Height() + 1; kh > h {
			h = kh
		}
	}

	return h
}

// Walk calls fn for every entry (pre-order, storage order) with its path.
func (e *Entry) Walk(path string, fn func(path string, depth int, e *Entry)) {
	e.walk(path, 0, fn)
}

func (e *Entry) walk(path string, depth int, fn func(path string, depth int, e *Entry)) {
	fn(path, depth, e)

	for _, k := range e.Kids {
		k.walk(filepath.Join(path, k.Name), depth+1, fn)
	}
}

func (e *Entry) String() string {
	var sb strings.Builder
	e.render(&sb)

	return sb.String()
}

func (e *Entry) render(sb *strings.Builder) {
	sb.WriteString(e.Name)

	if e.Dir {
		sb.WriteString("{")

		for i, k := range e.Kids {
			if i > 0 {
				sb.WriteString(" ")
			}

			k.render(sb)
		}

		sb.WriteString("}")
	}
}

// TreeGen controls tree generation.
type TreeGen struct {
	MaxDepth  int
	MaxKids   int
	MaxNodes  int
	DSStore   bool // sprinkle .DS_Store files
	RootFile  bool // allow the root to be a file
	AsciiOnly bool
	MinKids   int  // min kids of the root
	Bytes     bool // names that are not text, which can't be saved
}

// DefaultTree is the general purpose shape.
var DefaultTree = TreeGen{MaxDepth: 5, MaxKids: 6, MaxNodes: 40, DSStore: true, RootFile: false}

// repeats is how many of the draws of a name repeat that of a directory above.
const repeats = 6

var (
	stems = []string{
		"a", "b", "c", "B", "A", "Z", "zz", "aa", "ab", "Ab", "aB", "10", "2", "1", "_x", "-y",
		"College", "college-2", "Night Drive", "night", "cover", "Cover", "infex", "x.y", ".hid", "..r",
		"a b", "a!b", "[q]", "st*r", "q?", "a+b", "(p)", "x^", "$d", "a,b", "a|b", "~t", "%41", "back\\s",
		" lead", "trail ", "dot.", "new\nline", "tab\t", "a:b", "k=v", "\"q\"", "{x}", "it's", "#1", "<x>", "@a&b;", "%s%d",
		"DS_Store", ".DS_Storex", "a.DS_Store", "Thumbs", "a..b", "...", "x.txt", strings.Repeat("long", 40),
	}
	uniStems = []string{"é", "日本", "Ünï", "ñ-a", "🎵", "ζ"}
	exts     = []string{"", "", ".txt", ".TXT", ".flac", ".Flac", ".jpg", ".tar.gz", ".go", ".f"}
	dirExts  = []string{"", "", "", "", ".d", ".flac"}
)

// genName draws one name not yet used in the directory (case-insensitively).
func genName(t *rapid.T, dir bool, used map[string]bool, g TreeGen, over []string) string {
	n := rapid.IntRange(0, len(stems)+len(uniStems)+repeats-1).Draw(t, "stem")

	var stem string

	if n >= len(stems)+len(uniStems) {
		// the name of a directory it is in, or one that extends it
		stem = rapid.SampledFrom(over).Draw(t, "over")

		if key := strings.ToLower(stem); n%3 > 0 && !used[key] {
			used[key] = true

			return stem
		}
	} else if n < len(stems) {
		stem = stems[n]
	} else if g.Bytes && n%6 == 0 {
		stem = "\xffa"
	} else if g.AsciiOnly {
		stem = stems[n-len(stems)]
	} else {
		stem = uniStems[n-len(stems)]
	}

	var ext string
	if dir {
		ext = dirExts[rapid.IntRange(0, len(dirExts)-1).Draw(t, "dext")]
	} else {
		ext = exts[rapid.IntRange(0, len(exts)-1).Draw(t, "ext")]
	}

	name := stem + ext
	for i := 0; used[strings.ToLower(name)] || name == "." || name == ".." || name == ".DS_Store"; i++ {
		name = stem + string(rune('a'+i%26)) + strings.Repeat("_", i/26) + ext
	}

	used[strings.ToLower(name)] = true

	return name
}

// Gen draws a tree. Names within one directory are unique, though some
// differ by case only.
func (g TreeGen) Gen(t *rapid.T, label string) *Entry {
	budget := g.MaxNodes
	root := &Entry{Name: "root", Dir: true}

	if g.RootFile && rapid.IntRange(0, 19).Draw(t, label+"-rootfile") == 0 {
		root.Dir = false
		root.Size = 3

		return root
	}

	g.fill(t, root, 0, &budget, []string{"root"})

	if g.MaxNodes >= 20 {
		inflate(t, root)
	}

	return root
}

// inflate makes a few of the trees a lot wider or deeper, beyond what is worth
// drawing item by item. A few of those reach beyond the range of 8 bits.
func inflate(t *rapid.T, root *Entry) {
	switch rapid.IntRange(0, 79).Draw(t, "inflate") {
	case 78:
		dirs := []*Entry{}
		root.Walk("", func(_ string, _ int, e *Entry) {
			if e.Dir {
				dirs = append(dirs, e)
			}
		})

		dir := rapid.SampledFrom(dirs).Draw(t, "wide")
		each := rapid.IntRange(1, 5).Draw(t, "every")

		for i := range Upto(t, "width", 20, 150, 1200) {
			dir.Kids = append(dir.Kids, &Entry{
				Name: fmt.Sprintf("w%04d%s", i, exts[i%len(exts)]), Dir: i%each == 0, Size: i,
			})
		}

		sort.Slice(dir.Kids, func(i, j int) bool { return dir.Kids[i].Name < dir.Kids[j].Name })
	case 79:
		kids := root.Kids
		cur := root
		beside := rapid.IntRange(1, 9).Draw(t, "beside")

		for i := range Upto(t, "height", 6, 60, 280) {
			cur.Kids = []*Entry{{Name: "v", Dir: true}}
			if i%beside == 0 {
				cur.Kids = append([]*Entry{{Name: "u.txt", Size: i}}, append(cur.Kids, &Entry{Name: "w"})...)
				cur = cur.Kids[1]
			} else {
				cur = cur.Kids[0]
			}
		}

		cur.Kids = kids
	}
}

// swapCase makes the letters in lower case upper, and the other way round.
func swapCase(name string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 'a' + 'A'
		case r >= 'A' && r <= 'Z':
			return r - 'A' + 'a'
		}

		return r
	}, name)
}

// copies of a directory's content.
func copies(kids []*Entry) []*Entry {
	var result []*Entry

	for _, k := range kids {
		c := *k
		c.Kids = copies(k.Kids)
		result = append(result, &c)
	}

	return result
}

func (g TreeGen) fill(t *rapid.T, dir *Entry, depth int, budget *int, over []string) {
	lo := 0
	if depth == 0 {
		lo = g.MinKids
	}

	n := rapid.IntRange(lo, g.MaxKids).Draw(t, "kids")
	used := map[string]bool{}

	for i := 0; i < n && *budget > 0; i++ {
		*budget--

		isDir := depth < g.MaxDepth && rapid.IntRange(0, 9).Draw(t, "isdir") < 5
		k := &Entry{Dir: isDir, Name: genName(t, isDir, used, g, over)}

		if !isDir {
			k.Size = rapid.IntRange(0, 9).Draw(t, "size")
		}

		dir.Kids = append(dir.Kids, k)

		if isDir {
			g.fill(t, k, depth+1, budget, append(over[:len(over):len(over)], k.Name))
		}
	}

	// names that differ by case only
	if len(dir.Kids) > 0 && rapid.IntRange(0, 9).Draw(t, "twin") == 0 {
		of := rapid.SampledFrom(dir.Kids).Draw(t, "of")

		if name := swapCase(of.Name); dir.Find(name) == nil && name != ".DS_Store" && utf8.ValidString(name) {
			twin := &Entry{Name: name, Dir: of.Dir != (rapid.IntRange(0, 4).Draw(t, "other kind") == 0), Size: len(dir.Kids)}
			if twin.Dir {
				twin.Kids = copies(of.Kids)
			}

			dir.Kids = append(dir.Kids, twin)
		}
	}

	if g.DSStore && rapid.IntRange(0, 7).Draw(t, "ds") == 0 {
		dir.Kids = append(dir.Kids, &Entry{Name: ".DS_Store"})
	}

	sort.Slice(dir.Kids, func(i, j int) bool { return dir.Kids[i].Name < dir.Kids[j].Name })
}
