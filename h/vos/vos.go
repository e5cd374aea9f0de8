// Package vos replaces package os in the instrumented copy of antcache.
//
// Operations on files below the root of the active control pass through to the
// real (scratch) file system. On the way they are yield points, they are
// recorded, they may be made to fail, and files get their modification times
// from time.Now(), which is virtual in a testing/synctest bubble. All other
// operations are left alone.
package vos

import (
	"errors"
	"io"
	real "os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/yields/ant/zverif/zsched"
)

// Fault makes one operation fail.
type Fault struct {
	Err   error
	Short int  // bytes that a read or write transfers before it fails
	After bool // the operation takes effect nevertheless
}

// Op is an operation that took effect.
type Op struct {
	I    int // number of the operation
	Kind string
	Name string // relative to the root
	To   string
	Ino  int
	Off  int64
	Data []byte
	T    time.Time
}

// Ctl controls the operations below Root.
type Ctl struct {
	Root   string
	Record bool
	Fault  func(i int, kind, name string) *Fault
	// Delay is the time that an operation takes.
	Delay func(kind, name string) time.Duration

	mu   sync.Mutex
	n    int
	next int
	inos map[string]int
	log  []Op
	open map[*File]string
	// Kinds lists the kinds of the operations.
	kinds []string
	init  map[int][]byte
	names map[string]int
}

var cur atomic.Pointer[Ctl]

// Start activates c.
func Start(c *Ctl) {
	c.inos = map[string]int{}
	c.open = map[*File]string{}
	c.init = map[int][]byte{}
	c.names = map[string]int{}
	if es, err := real.ReadDir(c.Root); err == nil {
		for _, e := range es {
			c.next++
			c.inos[e.Name()] = c.next
			if c.Record && e.Type().IsRegular() {
				b, _ := real.ReadFile(filepath.Join(c.Root, e.Name()))
				c.init[c.next] = b
				c.names[e.Name()] = c.next
			}
		}
	}
	cur.Store(c)
}

// Stop ends the control.
func Stop() { cur.Store(nil) }

// Ops returns the number of operations so far.
func (c *Ctl) Ops() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}

// Log returns the operations that took effect.
func (c *Ctl) Log() []Op {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.log[:len(c.log):len(c.log)]
}

// Len is the length of the log.
func (c *Ctl) Len() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.log)
}

// Kinds returns the kinds of all operations.
func (c *Ctl) Kinds() []string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.kinds
}

// OpenFiles returns the names of the files that are open.
func (c *Ctl) OpenFiles() (names []string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, n := range c.open {
		names = append(names, n)
	}
	return
}

// of returns the control in charge of path and the relative name.
func of(path string) (*Ctl, string) {
	c := cur.Load()
	if c == nil {
		return nil, ""
	}
	p := filepath.Clean(path)
	if p == c.Root {
		return c, "."
	}
	if strings.HasPrefix(p, c.Root+"/") {
		return c, p[len(c.Root)+1:]
	}
	return nil, ""
}

// do runs an operation.
func (c *Ctl) do(kind, name string, f func(*Fault) error) error {
	zsched.P()
	if c.Delay != nil {
		if d := c.Delay(kind, name); d > 0 {
			time.Sleep(d)
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	i := c.n
	c.n++
	c.kinds = append(c.kinds, kind)
	var ft *Fault
	if c.Fault != nil {
		ft = c.Fault(i, kind, name)
	}
	return f(ft)
}

func (c *Ctl) add(o Op) {
	if c.Record {
		o.I = c.n - 1
		o.T = time.Now()
		c.log = append(c.log, o)
	}
}

func (c *Ctl) ino(name string) int {
	if i, ok := c.inos[name]; ok {
		return i
	}
	c.next++
	c.inos[name] = c.next
	return c.next
}

func perr(op, path string, err error) error { return &real.PathError{Op: op, Path: path, Err: err} }

// plain runs an operation that changes nothing.
func plain[T any](kind, path string, f func() (T, error)) (v T, err error) {
	c, name := of(path)
	if c == nil {
		return f()
	}
	err = c.do(kind, name, func(ft *Fault) error {
		if ft != nil {
			return perr(kind, path, ft.Err)
		}
		v, err = f()
		return err
	})
	return
}

// change runs an operation that changes the directory.
func change(kind, path string, f func() error, rec func(c *Ctl, name string)) error {
	c, name := of(path)
	if c == nil {
		return f()
	}
	return c.do(kind, name, func(ft *Fault) error {
		if ft != nil && !ft.After {
			return perr(kind, path, ft.Err)
		}
		if err := f(); err != nil {
			return err
		}
		rec(c, name)
		if ft != nil {
			return perr(kind, path, ft.Err)
		}
		return nil
	})
}

// File wraps a file.
type File struct {
	*real.File
	c    *Ctl
	rel  string
	ino  int
	dir  bool
	flag int
}

// NewFile mirrors os.NewFile.
func NewFile(fd uintptr, name string) *File {
	f := real.NewFile(fd, name)
	if f == nil {
		return nil
	}
	return &File{File: f}
}

// Pipe mirrors os.Pipe.
func Pipe() (r, w *File, err error) {
	a, b, err := real.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{File: a}, &File{File: b}, nil
}

func wrap(f *real.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{File: f}, nil
}

// Open mirrors os.Open.
func Open(path string) (*File, error) { return OpenFile(path, real.O_RDONLY, 0) }

// Create mirrors os.Create.
func Create(path string) (*File, error) {
	return OpenFile(path, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}

// OpenFile mirrors os.OpenFile.
func OpenFile(path string, flag int, perm real.FileMode) (ret *File, err error) {
	c, name := of(path)
	if c == nil {
		return wrap(real.OpenFile(path, flag, perm))
	}
	kind := "open"
	if flag&real.O_CREATE != 0 {
		kind = "create"
	}
	err = c.do(kind, name, func(ft *Fault) error {
		if ft != nil {
			return perr("open", path, ft.Err)
		}
		_, serr := real.Lstat(path)
		f, err := real.OpenFile(path, flag, perm)
		if err != nil {
			return err
		}
		ret = c.file(f, name, flag, serr != nil)
		if serr == nil && flag&real.O_TRUNC != 0 {
			c.add(Op{Kind: "trunc", Name: name, Ino: ret.ino})
		}
		return nil
	})
	return
}

// file registers an open file.
func (c *Ctl) file(f *real.File, name string, flag int, created bool) *File {
	ret := &File{File: f, c: c, rel: name, flag: flag}
	if st, err := f.Stat(); err == nil {
		ret.dir = st.IsDir()
	}
	if created {
		delete(c.inos, name)
	}
	ret.ino = c.ino(name)
	if created {
		c.add(Op{Kind: "create", Name: name, Ino: ret.ino})
		ret.touch()
	}
	c.open[ret] = name
	return ret
}

// touch sets the modification time to the virtual time.
func (f *File) touch() {
	now := time.Now().UnixNano()
	ts := syscall.NsecToTimespec(now)
	if syscall.UtimesNano("/proc/self/fd/"+strconv.Itoa(int(f.Fd())), []syscall.Timespec{ts, ts}) == nil {
		return
	}
	tv := syscall.NsecToTimeval(now)
	syscall.Futimes(int(f.Fd()), []syscall.Timeval{tv, tv})
}

// CreateTemp mirrors os.CreateTemp.
func CreateTemp(dir, pattern string) (ret *File, err error) {
	d := dir
	if d == "" {
		d = real.TempDir()
	}
	c, name := of(d)
	if c == nil {
		return wrap(real.CreateTemp(dir, pattern))
	}
	err = c.do("create", name, func(ft *Fault) error {
		if ft != nil {
			return perr("open", filepath.Join(d, pattern), ft.Err)
		}
		f, err := real.CreateTemp(dir, pattern)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(c.Root, f.Name())
		ret = c.file(f, rel, real.O_RDWR, true)
		return nil
	})
	return
}

// MkdirTemp mirrors os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	return plain("mkdir", dir, func() (string, error) { return real.MkdirTemp(dir, pattern) })
}

// Mkdir mirrors os.Mkdir.
func Mkdir(path string, perm real.FileMode) error {
	_, err := plain("mkdir", path, func() (int, error) { return 0, real.Mkdir(path, perm) })
	return err
}

// MkdirAll mirrors os.MkdirAll.
func MkdirAll(path string, perm real.FileMode) error {
	_, err := plain("mkdir", path, func() (int, error) { return 0, real.MkdirAll(path, perm) })
	return err
}

// Chtimes mirrors os.Chtimes.
func Chtimes(path string, a, m time.Time) error {
	_, err := plain("chtimes", path, func() (int, error) { return 0, real.Chtimes(path, a, m) })
	return err
}

// Symlink mirrors os.Symlink.
func Symlink(old, path string) error {
	_, err := plain("symlink", path, func() (int, error) { return 0, real.Symlink(old, path) })
	return err
}

// Stat mirrors os.Stat.
func Stat(path string) (real.FileInfo, error) {
	return plain("stat", path, func() (real.FileInfo, error) { return real.Stat(path) })
}

// Lstat mirrors os.Lstat.
func Lstat(path string) (real.FileInfo, error) {
	return plain("stat", path, func() (real.FileInfo, error) { return real.Lstat(path) })
}

// ReadDir mirrors os.ReadDir.
func ReadDir(path string) ([]real.DirEntry, error) {
	return plain("readdir", path, func() ([]real.DirEntry, error) { return real.ReadDir(path) })
}

// ReadFile mirrors os.ReadFile.
func ReadFile(path string) ([]byte, error) {
	c, _ := of(path)
	if c == nil {
		return real.ReadFile(path)
	}
	f, err := Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b []byte
	err = c.do("read", f.rel, func(ft *Fault) (err error) {
		b, err = io.ReadAll(f.File)
		if ft != nil {
			b = b[:min(len(b), ft.Short)]
			return perr("read", path, ft.Err)
		}
		return err
	})
	if b == nil {
		b = []byte{}
	}
	return b, err
}

// WriteFile mirrors os.WriteFile.
func WriteFile(path string, data []byte, perm real.FileMode) error {
	f, err := OpenFile(path, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Remove mirrors os.Remove.
func Remove(path string) error {
	return change("remove", path, func() error { return real.Remove(path) }, func(c *Ctl, name string) {
		c.add(Op{Kind: "remove", Name: name, Ino: c.inos[name]})
		delete(c.inos, name)
	})
}

// RemoveAll mirrors os.RemoveAll.
func RemoveAll(path string) error {
	return change("remove", path, func() error { return real.RemoveAll(path) }, func(c *Ctl, name string) {
		c.add(Op{Kind: "remove", Name: name, Ino: c.inos[name]})
		delete(c.inos, name)
	})
}

// Rename mirrors os.Rename.
func Rename(from, to string) error {
	if c, _ := of(from); c == nil {
		if c, name := of(to); c != nil {
			// moved in from elsewhere.
			return c.do("rename", name, func(ft *Fault) error {
				if ft != nil {
					return &real.LinkError{Op: "rename", Old: from, New: to, Err: ft.Err}
				}
				b, _ := real.ReadFile(from)
				if err := real.Rename(from, to); err != nil {
					return err
				}
				delete(c.inos, name)
				i := c.ino(name)
				c.add(Op{Kind: "create", Name: name, Ino: i})
				c.add(Op{Kind: "write", Name: name, Ino: i, Data: b})
				return nil
			})
		}
	}
	return change("rename", from, func() error { return real.Rename(from, to) }, func(c *Ctl, name string) {
		i := c.ino(name)
		delete(c.inos, name)
		o := Op{Kind: "rename", Name: name, Ino: i}
		if c2, n2 := of(to); c2 == c {
			c.inos[n2] = i
			o.To = n2
		} else {
			o.Kind = "remove"
		}
		c.add(o)
	})
}

// Link mirrors os.Link.
func Link(from, to string) error {
	return change("link", from, func() error { return real.Link(from, to) }, func(c *Ctl, name string) {
		if c2, n2 := of(to); c2 == c {
			i := c.ino(name)
			c.inos[n2] = i
			c.add(Op{Kind: "link", Name: name, To: n2, Ino: i})
		}
	})
}

// Truncate mirrors os.Truncate.
func Truncate(path string, n int64) error {
	return change("trunc", path, func() error { return real.Truncate(path, n) }, func(c *Ctl, name string) {
		c.add(Op{Kind: "trunc", Name: name, Ino: c.ino(name), Off: n})
	})
}

// Truncate mirrors (*os.File).Truncate.
func (f *File) Truncate(n int64) error {
	if f.c == nil {
		return f.File.Truncate(n)
	}
	return f.c.do("trunc", f.rel, func(ft *Fault) error {
		if ft != nil {
			return perr("truncate", f.Name(), ft.Err)
		}
		if err := f.File.Truncate(n); err != nil {
			return err
		}
		f.touch()
		f.c.add(Op{Kind: "trunc", Name: f.rel, Ino: f.ino, Off: n})
		return nil
	})
}

func (f *File) write(p []byte, at int64) (n int, err error) {
	err = f.c.do("write", f.rel, func(ft *Fault) error {
		q := p
		if ft != nil && !ft.After {
			q = p[:min(len(p), ft.Short)]
		}
		var err error
		off := at
		if at >= 0 {
			if len(q) > 0 {
				n, err = f.File.WriteAt(q, at)
			}
		} else {
			if len(q) > 0 || ft == nil {
				n, err = f.File.Write(q)
			}
			end, serr := f.File.Seek(0, io.SeekCurrent)
			if serr != nil {
				end = int64(n)
			}
			off = end - int64(n)
		}
		if n > 0 {
			f.c.add(Op{Kind: "write", Name: f.rel, Ino: f.ino, Off: off, Data: append([]byte(nil), q[:n]...)})
			if f.flag&(real.O_SYNC|syscall.O_DSYNC) != 0 {
				f.c.add(Op{Kind: "sync", Name: f.rel, Ino: f.ino})
			}
		}
		if err == nil {
			f.touch()
		}
		if ft != nil && err == nil {
			err = perr("write", f.Name(), ft.Err)
		}
		return err
	})
	return
}

// Write mirrors (*os.File).Write.
func (f *File) Write(p []byte) (int, error) {
	if f.c == nil {
		return f.File.Write(p)
	}
	return f.write(p, -1)
}

// WriteAt mirrors (*os.File).WriteAt.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.c == nil {
		return f.File.WriteAt(p, off)
	}
	return f.write(p, off)
}

// WriteString mirrors (*os.File).WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyWriter struct{ io.Writer }

// ReadFrom mirrors (*os.File).ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }

type onlyReader struct{ io.Reader }

// WriteTo mirrors (*os.File).WriteTo.
func (f *File) WriteTo(w io.Writer) (int64, error) { return io.Copy(w, onlyReader{f}) }

func (f *File) read(g func([]byte) (int, error), p []byte) (n int, err error) {
	if f.c == nil {
		return g(p)
	}
	err = f.c.do("read", f.rel, func(ft *Fault) (err error) {
		if ft != nil {
			if q := p[:min(len(p), ft.Short)]; len(q) > 0 {
				n, _ = g(q)
			}
			return perr("read", f.Name(), ft.Err)
		}
		n, err = g(p)
		return err
	})
	return
}

// Read mirrors (*os.File).Read.
func (f *File) Read(p []byte) (int, error) { return f.read(f.File.Read, p) }

// ReadAt mirrors (*os.File).ReadAt.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	return f.read(func(q []byte) (int, error) { return f.File.ReadAt(q, off) }, p)
}

// Sync mirrors (*os.File).Sync; nothing is really synced.
func (f *File) Sync() error {
	if f.c == nil {
		return f.File.Sync()
	}
	kind := "sync"
	if f.dir {
		kind = "syncdir"
	}
	return f.c.do(kind, f.rel, func(ft *Fault) error {
		if ft != nil {
			return perr("sync", f.Name(), ft.Err)
		}
		if _, err := f.File.Stat(); err != nil {
			return perr("sync", f.Name(), errors.Unwrap(err))
		}
		f.c.add(Op{Kind: kind, Name: f.rel, Ino: f.ino})
		return nil
	})
}

// Close mirrors (*os.File).Close.
func (f *File) Close() error {
	if f == nil {
		return real.ErrInvalid
	}
	if f.c == nil {
		return f.File.Close()
	}
	return f.c.do("close", f.rel, func(ft *Fault) error {
		delete(f.c.open, f)
		err := f.File.Close()
		if ft != nil && err == nil {
			err = perr("close", f.Name(), ft.Err)
		}
		return err
	})
}

// Stat mirrors (*os.File).Stat.
func (f *File) Stat() (st real.FileInfo, err error) {
	if f.c == nil {
		return f.File.Stat()
	}
	err = f.c.do("fstat", f.rel, func(ft *Fault) (err error) {
		if ft != nil {
			return perr("stat", f.Name(), ft.Err)
		}
		st, err = f.File.Stat()
		return err
	})
	return
}

func dirop[T any](f *File, g func(int) ([]T, error), n int) (l []T, err error) {
	if f.c == nil {
		return g(n)
	}
	err = f.c.do("readdir", f.rel, func(ft *Fault) (err error) {
		if ft != nil {
			if ft.Short > 0 && n > 0 {
				l, _ = g(min(n, ft.Short))
			}
			return perr("readdirent", f.Name(), ft.Err)
		}
		l, err = g(n)
		return err
	})
	return
}

// Readdirnames mirrors (*os.File).Readdirnames.
func (f *File) Readdirnames(n int) ([]string, error) { return dirop(f, f.File.Readdirnames, n) }

// Readdir mirrors (*os.File).Readdir.
func (f *File) Readdir(n int) ([]real.FileInfo, error) { return dirop(f, f.File.Readdir, n) }

// ReadDir mirrors (*os.File).ReadDir.
func (f *File) ReadDir(n int) ([]real.DirEntry, error) { return dirop(f, f.File.ReadDir, n) }

// SameFile and the like take FileInfo values, which are the real ones.
