package kit

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	nef "github.com/snivilised/nefilim"
)

// VFS is an in-memory traversal file system; relative (paths are valid io/fs
// paths) or absolute (paths start with a slash). Faults can be injected by path.
type VFS struct {
	mu      sync.Mutex
	Abs     bool
	nodes   map[string]*vnode // by cleaned path
	StatErr map[string]error  // Stat(path) fails
	ReadErr map[string]error  // ReadDir(path) fails
	InfoErr map[string]error  // DirEntry.Info() of path fails
	// ReadPartial: ReadDir returns this many entries together with the error.
	ReadPartial  map[string]int
	MkdirErr     error
	WriteErr     error
	ReadFileErr  error
	Reads        []string // ReadDir calls, in order
	Stats        []string
	Writes       []string // WriteFile calls
	Mkdirs       []string
	WrittenBytes map[string][]byte
	// Shuffle, when set, permutes the entries ReadDir returns.
	Reverse bool
}

type vnode struct {
	path string
	name string
	dir  bool
	data []byte
	size int
	kids map[string]*vnode
}

var vfsTime = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

func (n *vnode) Name() string               { return n.name }
func (n *vnode) IsDir() bool                { return n.dir }
func (n *vnode) Sys() any                   { return nil }
func (n *vnode) ModTime() time.Time         { return vfsTime }
func (n *vnode) Type() fs.FileMode          { return n.Mode().Type() }
func (n *vnode) Info() (fs.FileInfo, error) { return n, nil }
func (n *vnode) Mode() fs.FileMode {
	if n.dir {
		return fs.ModeDir | 0o755
	}

	return 0o644
}

func (n *vnode) Size() int64 {
	if n.data != nil {
		return int64(len(n.data))
	}

	return int64(n.size)
}

type ventry struct {
	*vnode
	err error
}

func (e *ventry) Info() (fs.FileInfo, error) {
	if e.err != nil {
		return nil, e.err
	}

	return e.vnode, nil
}

// NewVFS makes an empty file system.
func NewVFS(abs bool) *VFS {
	v := &VFS{
		Abs:          abs,
		nodes:        map[string]*vnode{},
		StatErr:      map[string]error{},
		ReadErr:      map[string]error{},
		InfoErr:      map[string]error{},
		ReadPartial:  map[string]int{},
		WrittenBytes: map[string][]byte{},
	}

	top := v.top()
	v.nodes[top] = &vnode{path: top, name: top, dir: true, kids: map[string]*vnode{}}

	return v
}

func (v *VFS) top() string {
	if v.Abs {
		return "/"
	}

	return "."
}

func (v *VFS) key(path string) (string, error) {
	if v.Abs {
		if !strings.HasPrefix(path, "/") {
			return "", fs.ErrInvalid
		}

		return filepath.Clean(path), nil
	}

	if !fs.ValidPath(path) {
		return "", fs.ErrInvalid
	}

	return path, nil
}

// Put installs a generated tree at path.
func (v *VFS) Put(path string, e *Entry) {
	v.mkdirAll(filepath.Dir(path))
	e.Walk(path, func(p string, _ int, e *Entry) {
		if _, exists := v.nodes[p]; exists {
			return
		}

		n := &vnode{path: p, name: filepath.Base(p), dir: e.Dir, size: e.Size}
		if e.Dir {
			n.kids = map[string]*vnode{}
		}

		v.nodes[p] = n

		if parent, ok := v.nodes[filepath.Dir(p)]; ok && parent != n {
			parent.kids[n.name] = n
		}
	})
}

func (v *VFS) mkdirAll(path string) {
	if _, ok := v.nodes[path]; ok || path == "" {
		return
	}

	v.mkdirAll(filepath.Dir(path))
	n := &vnode{path: path, name: filepath.Base(path), dir: true, kids: map[string]*vnode{}}
	v.nodes[path] = n
	v.nodes[filepath.Dir(path)].kids[n.name] = n
}

func (v *VFS) get(op, path string) (*vnode, error) {
	k, err := v.key(path)
	if err != nil {
		return nil, &fs.PathError{Op: op, Path: path, Err: err}
	}

	n, ok := v.nodes[k]
	if !ok {
		return nil, &fs.PathError{Op: op, Path: path, Err: fs.ErrNotExist}
	}

	return n, nil
}

func (v *VFS) Calc() nef.PathCalc {
	if v.Abs {
		return &nef.AbsoluteCalc{}
	}

	return &nef.RelativeCalc{}
}

func (v *VFS) IsRelative() bool { return !v.Abs }

func (v *VFS) Stat(path string) (fs.FileInfo, error) {
	v.mu.Lock()
	defer v.mu.Unlock()

	v.Stats = append(v.Stats, path)

	if err, ok := v.StatErr[path]; ok {
		return nil, err
	}

	n, err := v.get("stat", path)
	if err != nil {
		return nil, err
	}

	return n, nil
}

func (v *VFS) ReadDir(path string) ([]fs.DirEntry, error) {
	v.mu.Lock()
	defer v.mu.Unlock()

	v.Reads = append(v.Reads, path)

	limit := -1

	if err, ok := v.ReadErr[path]; ok {
		if p, partial := v.ReadPartial[path]; partial {
			limit = p
		} else {
			return nil, err
		}
	}

	n, err := v.get("readdir", path)
	if err != nil {
		return nil, err
	}

	if !n.dir {
		return nil, &fs.PathError{Op: "readdir", Path: path, Err: errors.New("not a directory")}
	}

	names := make([]string, 0, len(n.kids))
	for k := range n.kids {
		names = append(names, k)
	}

	sort.Strings(names)

	if v.Reverse {
		for i, j := 0, len(names)-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
		}
	}

	result := make([]fs.DirEntry, 0, len(names))

	for i, k := range names {
		if limit >= 0 && i >= limit {
			break
		}

		kid := n.kids[k]
		result = append(result, &ventry{vnode: kid, err: v.InfoErr[kid.path]})
	}

	if limit >= 0 {
		return result, v.ReadErr[path]
	}

	return result, nil
}

func (v *VFS) FileExists(path string) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	n, err := v.get("stat", path)

	return err == nil && !n.dir
}

func (v *VFS) DirectoryExists(path string) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	n, err := v.get("stat", path)

	return err == nil && n.dir
}

func (v *VFS) ReadFile(path string) ([]byte, error) {
	v.mu.Lock()
	defer v.mu.Unlock()

	if v.ReadFileErr != nil {
		return nil, v.ReadFileErr
	}

	n, err := v.get("read", path)
	if err != nil {
		return nil, err
	}

	return append([]byte{}, n.data...), nil
}

func (v *VFS) MakeDir(path string, perm os.FileMode) error { return v.MakeDirAll(path, perm) }

func (v *VFS) MakeDirAll(path string, _ os.FileMode) error {
	v.mu.Lock()
	defer v.mu.Unlock()

	v.Mkdirs = append(v.Mkdirs, path)

	if v.MkdirErr != nil {
		return v.MkdirErr
	}

	k := filepath.Clean(path)
	v.mkdirAll(k)

	return nil
}

func (v *VFS) Ensure(as nef.PathAs) (string, error) {
	return as.Default, v.MakeDirAll(as.Name, as.Perm)
}

func (v *VFS) WriteFile(path string, data []byte, _ os.FileMode) error {
	v.mu.Lock()
	defer v.mu.Unlock()

	v.Writes = append(v.Writes, path)

	if v.WriteErr != nil {
		return v.WriteErr
	}

	k := filepath.Clean(path)
	parent, ok := v.nodes[filepath.Dir(k)]

	if !ok {
		return &fs.PathError{Op: "write", Path: path, Err: fs.ErrNotExist}
	}

	n := &vnode{path: k, name: filepath.Base(k), data: append([]byte{}, data...)}
	v.nodes[k] = n
	parent.kids[n.name] = n
	v.WrittenBytes[path] = n.data

	return nil
}

func (v *VFS) Create(path string) (fs.File, error) {
	if err := v.WriteFile(path, []byte{}, 0o644); err != nil {
		return nil, err
	}

	return v.Open(path)
}

func (v *VFS) Open(path string) (fs.File, error) {
	v.mu.Lock()
	defer v.mu.Unlock()

	n, err := v.get("open", path)
	if err != nil {
		return nil, err
	}

	return &vfile{n: n}, nil
}

type vfile struct {
	n   *vnode
	off int
}

func (f *vfile) Stat() (fs.FileInfo, error) { return f.n, nil }
func (f *vfile) Close() error               { return nil }
func (f *vfile) Read(b []byte) (int, error) {
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}

	n := copy(b, f.n.data[f.off:])
	f.off += n

	return n, nil
}
