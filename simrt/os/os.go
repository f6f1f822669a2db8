package os

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	real "os"
	"path"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt/rt"
)

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = real.LinkError
	SyscallError = real.SyscallError
	Signal       = real.Signal
)

const (
	O_RDONLY = real.O_RDONLY
	O_WRONLY = real.O_WRONLY
	O_RDWR   = real.O_RDWR
	O_APPEND = real.O_APPEND
	O_CREATE = real.O_CREATE
	O_EXCL   = real.O_EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = real.O_TRUNC

	ModeDir       = fs.ModeDir
	ModeAppend    = fs.ModeAppend
	ModeExclusive = fs.ModeExclusive
	ModeTemporary = fs.ModeTemporary
	ModeSymlink   = fs.ModeSymlink
	ModeDevice    = fs.ModeDevice
	ModeNamedPipe = fs.ModeNamedPipe
	ModeSocket    = fs.ModeSocket
	ModeIrregular = fs.ModeIrregular
	ModeType      = fs.ModeType
	ModePerm      = fs.ModePerm

	PathSeparator     = real.PathSeparator
	PathListSeparator = real.PathListSeparator
	DevNull           = real.DevNull
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = real.ErrNoDeadline
	ErrDeadlineExceeded = real.ErrDeadlineExceeded
	ErrProcessDone      = real.ErrProcessDone

	Interrupt = real.Interrupt
	Kill      = real.Kill

	Stdin  = &File{name: "/dev/stdin", std: true}
	Stdout = &File{name: "/dev/stdout", std: true}
	Stderr = &File{name: "/dev/stderr", std: true}
	Args   = []string{"sim"}

	env = map[string]string{}
)

func IsExist(err error) bool                    { return real.IsExist(err) }
func IsNotExist(err error) bool                 { return real.IsNotExist(err) }
func IsPermission(err error) bool               { return real.IsPermission(err) }
func IsTimeout(err error) bool                  { return real.IsTimeout(err) }
func IsPathSeparator(c uint8) bool              { return c == '/' }
func NewSyscallError(s string, err error) error { return real.NewSyscallError(s, err) }

func Getenv(k string) string                        { return env[k] }
func LookupEnv(k string) (string, bool)             { v, ok := env[k]; return v, ok }
func Setenv(k, v string) error                      { env[k] = v; return nil }
func Unsetenv(k string) error                       { delete(env, k); return nil }
func Environ() []string                             { return nil }
func ExpandEnv(s string) string                     { return real.Expand(s, Getenv) }
func Expand(s string, f func(string) string) string { return real.Expand(s, f) }
func UserHomeDir() (string, error)                  { return "/home/sim", nil }
func UserCacheDir() (string, error)                 { return "/home/sim/.cache", nil }
func UserConfigDir() (string, error)                { return "/home/sim/.config", nil }
func TempDir() string                               { return "/tmp" }
func Getpid() int                                   { return 4000 + rt.Proc() }
func Getppid() int                                  { return 1 }
func Getuid() int                                   { return 1000 }
func Geteuid() int                                  { return 1000 }
func Getegid() int                                  { return 1000 }
func Getgroups() ([]int, error)                     { return []int{1000}, nil }
func Executable() (string, error)                   { return "/usr/bin/gomorphy", nil }
func Clearenv()                                     { env = map[string]string{} }
func Getgid() int                                   { return 1000 }
func Getpagesize() int                              { return 4096 }
func Hostname() (string, error)                     { return "sim", nil }
func Exit(code int)                                 { rt.Exit(code); panic("os.Exit") }

// sys is the common part of every simulated system call: scheduling, time, faults.
// It returns the fault to apply ("" for none). "dead" means the process is gone.
func sys(op, where string, kinds ...string) string {
	if rt.Dying() {
		return "dead"
	}
	rt.Y(0)
	rt.Advance(sim.SyscallNS)
	sim.Ops++
	f := rt.Fire(op, where, kinds...)
	if f == "crash" {
		switch rt.Choose(3) {
		case 0:
			rt.Crash("before " + op + " " + where)
		case 1:
			return "crash-after"
		default:
			return "crash-part"
		}
	}
	return f
}

func after(f, op, where string) {
	if f == "crash-after" || f == "crash-part" {
		rt.Crash(f + " " + op + " " + where)
	}
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func errno(f string) syscall.Errno {
	switch f {
	case "dead":
		return syscall.EIO
	case "disk-full":
		return syscall.ENOSPC
	case "no-permission":
		return syscall.EACCES
	case "too-many-files":
		return syscall.EMFILE
	}
	return syscall.EIO
}

func bad(f string) bool { return f != "" && f != "crash-after" && f != "crash-part" }

func Getwd() (string, error) {
	f := sys("getwd", sim.cwd, "getwd-error")
	if bad(f) {
		return "", NewSyscallError("getwd", syscall.ENOENT)
	}
	after(f, "getwd", "")
	return sim.cwd, nil
}

func Chdir(p string) error {
	i, e := sim.walk(sim.abs(p))
	if e == 0 && !i.dir {
		e = syscall.ENOTDIR
	}
	if e != 0 {
		return perr("chdir", p, e)
	}
	sim.cwd = sim.abs(p)
	return nil
}

func statOp(op, p string) (FileInfo, error) {
	f := sys("stat", p, "stat-error", "no-permission")
	if bad(f) {
		return nil, perr(op, p, errno(f))
	}
	i, _, e := sim.find(sim.abs(p), op == "stat")
	if p == "" {
		e = syscall.ENOENT
	}
	after(f, "stat", p)
	if e != 0 {
		return nil, perr(op, p, e)
	}
	return i.info(path.Base(sim.abs(p))), nil
}

func Stat(p string) (FileInfo, error)  { return statOp("stat", p) }
func Lstat(p string) (FileInfo, error) { return statOp("lstat", p) }
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.id == y.id
}

func Mkdir(p string, mode FileMode) error {
	f := sys("mkdir", p, "mkdir-error", "disk-full", "no-permission")
	if bad(f) {
		return perr("mkdir", p, errno(f))
	}
	d, name, e := sim.parent(sim.abs(p))
	if e == 0 && (d.ents[name] != nil || sim.abs(p) == "/") {
		e = syscall.EEXIST
	}
	if e == 0 && d.denies(0o200) {
		e = syscall.EACCES
	}
	if e != 0 {
		after(f, "mkdir", p)
		return perr("mkdir", p, e)
	}
	sim.link(d, name, newInode(true, mode))
	after(f, "mkdir", p)
	return nil
}

func MkdirAll(p string, mode FileMode) error {
	fi, err := Stat(p)
	if err == nil {
		if fi.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	if par := path.Dir(p); par != p && par != "." && par != "/" {
		if err = MkdirAll(par, mode); err != nil {
			return err
		}
	}
	if err = Mkdir(p, mode); err != nil {
		fi, err1 := Lstat(p)
		if err1 == nil && fi.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(p string) error {
	f := sys("remove", p, "remove-error", "no-permission")
	if bad(f) {
		return perr("remove", p, errno(f))
	}
	d, name, e := sim.parent(sim.abs(p))
	if e == 0 {
		if i := d.ents[name]; i == nil {
			e = syscall.ENOENT
		} else if i.dir && len(i.ents) > 0 {
			e = syscall.ENOTEMPTY
		} else if d.denies(0o200) {
			e = syscall.EACCES
		}
	}
	if e != 0 {
		after(f, "remove", p)
		return perr("remove", p, e)
	}
	sim.used -= len(d.ents[name].data)
	sim.unlink(d, name)
	after(f, "remove", p)
	return nil
}

func RemoveAll(p string) error {
	if i, _, e := sim.find(sim.abs(p), false); e == 0 && i.dir {
		names := make([]string, 0, len(i.ents))
		for n := range i.ents {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if err := RemoveAll(p + "/" + n); err != nil {
				return err
			}
		}
	}
	if err := Remove(p); err != nil && !errors.Is(err, ErrNotExist) {
		return err
	}
	return nil
}

func Rename(from, to string) error {
	f := sys("rename", to, "rename-error", "no-permission", "disk-full")
	if bad(f) {
		return &LinkError{Op: "rename", Old: from, New: to, Err: errno(f)}
	}
	d1, n1, e := sim.parent(sim.abs(from))
	var d2 *inode
	var n2 string
	if e == 0 {
		d2, n2, e = sim.parent(sim.abs(to))
	}
	if e == 0 {
		i, o := d1.ents[n1], d2.ents[n2]
		switch {
		case i == nil:
			e = syscall.ENOENT
		case sim.device(from) != sim.device(to):
			e = syscall.EXDEV
		case o != nil && o.dir && !i.dir:
			e = syscall.EISDIR
		case o != nil && !o.dir && i.dir:
			e = syscall.ENOTDIR
		case o != nil && o.dir && len(o.ents) > 0:
			e = syscall.ENOTEMPTY
		case o == i:
		case d1.denies(0o200) || d2.denies(0o200):
			e = syscall.EACCES
		default:
			if o != nil {
				sim.used -= len(o.data)
			}
			delete(d1.ents, n1)
			d2.ents[n2] = i
			sim.log(metaOp{ents: []entChange{{d1, n1, nil}, {d2, n2, i}}})
			sim.changed()
		}
	}
	after(f, "rename", to)
	if e != 0 {
		return &LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func Link(from, to string) error {
	f := sys("link", to, "rename-error")
	if bad(f) {
		return &LinkError{Op: "link", Old: from, New: to, Err: errno(f)}
	}
	i, _, e := sim.find(sim.abs(from), false)
	var d *inode
	var n string
	if e == 0 {
		d, n, e = sim.parent(sim.abs(to))
	}
	if e == 0 && d.ents[n] != nil {
		e = syscall.EEXIST
	}
	if e == 0 && sim.device(from) != sim.device(to) {
		e = syscall.EXDEV
	}
	if e != 0 {
		return &LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	sim.link(d, n, i)
	after(f, "link", to)
	return nil
}

func Symlink(from, to string) error {
	f := sys("symlink", to, "create-error", "no-permission", "disk-full")
	if bad(f) {
		return &LinkError{Op: "symlink", Old: from, New: to, Err: errno(f)}
	}
	d, n, e := sim.parent(sim.abs(to))
	switch {
	case e != 0:
	case d.ents[n] != nil:
		e = syscall.EEXIST
	case from == "":
		e = syscall.ENOENT
	case d.denies(0o200):
		e = syscall.EACCES
	}
	if e != 0 {
		return &LinkError{Op: "symlink", Old: from, New: to, Err: e}
	}
	i := newInode(false, 0o777)
	i.mode, i.link = 0o777, from
	sim.link(d, n, i)
	after(f, "symlink", to)
	return nil
}

func Readlink(p string) (string, error) {
	f := sys("readlink", p, "stat-error", "no-permission")
	if bad(f) {
		return "", perr("readlink", p, errno(f))
	}
	i, _, e := sim.find(sim.abs(p), false)
	if e == 0 && i.link == "" {
		e = syscall.EINVAL
	}
	if e != 0 {
		return "", perr("readlink", p, e)
	}
	return i.link, nil
}

func Chtimes(p string, at, mt time.Time) error {
	f := sys("chtimes", p, "chtimes-error", "no-permission")
	if bad(f) {
		return perr("chtimes", p, errno(f))
	}
	i, e := sim.walk(sim.abs(p))
	if e == 0 && !mt.IsZero() {
		sim.stamp(i, mt.UnixNano())
		sim.changed()
	}
	after(f, "chtimes", p)
	if e != 0 {
		return perr("chtimes", p, e)
	}
	return nil
}

func Chmod(p string, m FileMode) error {
	f := sys("chmod", p, "chmod-error")
	if bad(f) {
		return perr("chmod", p, errno(f))
	}
	i, e := sim.walk(sim.abs(p))
	if e != 0 {
		return perr("chmod", p, e)
	}
	i.mode = m & fs.ModePerm
	after(f, "chmod", p)
	return nil
}

func Chown(p string, u, g int) error  { return nil }
func Lchown(p string, u, g int) error { return nil }

func Truncate(p string, n int64) error {
	f := sys("truncate", p, "truncate-error")
	if bad(f) {
		return perr("truncate", p, errno(f))
	}
	i, e := sim.walk(sim.abs(p))
	if e == 0 && i.denies(0o200) {
		e = syscall.EACCES
	}
	if e != 0 {
		return perr("truncate", p, e)
	}
	sim.truncate(i, int(n))
	after(f, "truncate", p)
	return nil
}

// File is an open simulated file.
type File struct {
	name   string
	ino    *inode
	pos    int
	flag   int
	closed bool
	std    bool
	ents   []DirEntry
	listed bool
}

func Open(p string) (*File, error)   { return OpenFile(p, O_RDONLY, 0) }
func Create(p string) (*File, error) { return OpenFile(p, O_RDWR|O_CREATE|O_TRUNC, 0o666) }

func OpenFile(p string, flag int, mode FileMode) (*File, error) {
	op, kinds := "open", []string{"open-error", "no-permission", "too-many-files"}
	if flag&O_CREATE != 0 {
		op, kinds = "create", []string{"create-error", "no-permission", "too-many-files", "disk-full"}
	}
	f := sys(op, p, kinds...)
	if bad(f) {
		return nil, perr("open", p, errno(f))
	}
	ap := sim.abs(p)
	excl := flag&O_CREATE != 0 && flag&O_EXCL != 0
	i, at, e := sim.find(ap, !excl)
	switch {
	case p == "":
		e = syscall.ENOENT
	case e == syscall.ENOENT && at == "":
	case e == syscall.ENOENT && flag&O_CREATE != 0:
		var d *inode
		var name string
		if d, name, e = sim.parent(at); e == 0 && d.denies(0o200) {
			e = syscall.EACCES
		} else if e == 0 {
			i = newInode(false, mode&fs.ModePerm)
			sim.link(d, name, i)
		}
	case e != 0:
	case excl:
		e = syscall.EEXIST
	case i.dir && flag&(O_WRONLY|O_RDWR) != 0:
		e = syscall.EISDIR
	case flag&O_WRONLY == 0 && i.denies(0o400), flag&(O_WRONLY|O_RDWR) != 0 && i.denies(0o200):
		e = syscall.EACCES
	case flag&O_TRUNC != 0 && len(i.data) > 0:
		sim.truncate(i, 0)
	}
	after(f, op, p)
	if e != 0 {
		return nil, perr("open", p, e)
	}
	file := &File{name: p, ino: i, flag: flag}
	sim.open = append(sim.open, file)
	return file, nil
}

// HarnessOpen lists the files opened and not closed since the last HarnessForget.
func HarnessOpen() (names []string) {
	for _, f := range sim.open {
		names = append(names, f.name)
	}
	return names
}

// HarnessForget closes all files for their processes have ended.
func HarnessForget() { sim.open = nil }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if k := strings.LastIndex(pattern, "*"); k >= 0 {
		pre, suf = pattern[:k], pattern[k+1:]
	}
	for try := 0; ; try++ {
		sim.temp++
		f, err := OpenFile(dir+"/"+pre+strconv.Itoa(100000+sim.temp)+suf, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if err != nil && IsExist(err) && try < 1000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	sim.temp++
	n := dir + "/" + strings.Replace(pattern, "*", "", 1) + strconv.Itoa(100000+sim.temp)
	return n, Mkdir(n, 0o700)
}

func ReadFile(p string) ([]byte, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(p string, d []byte, m FileMode) error {
	f, err := OpenFile(p, O_WRONLY|O_CREATE|O_TRUNC, m)
	if err != nil {
		return err
	}
	_, err = f.Write(d)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(p string) ([]DirEntry, error) {
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.ReadDir(-1)
}

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return ^uintptr(0) }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.ino.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	s := sys("read", f.name, "read-error", "short-read")
	if bad(s) && s != "short-read" {
		return 0, perr("read", f.name, errno(s))
	}
	after(s, "read", f.name)
	if len(p) == 0 {
		return 0, nil
	}
	if f.pos >= len(f.ino.data) {
		return 0, io.EOF
	}
	if s == "short-read" && len(p) > 1 {
		p = p[:1+rt.Choose(len(p)-1)]
	}
	if m := sim.MaxRead; m > 0 && len(p) > m {
		p = p[:m]
	}
	n := copy(p, f.ino.data[f.pos:])
	f.pos += n
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	s := sys("read", f.name, "read-error")
	if bad(s) {
		return 0, perr("read", f.name, errno(s))
	}
	after(s, "read", f.name)
	if int(off) >= len(f.ino.data) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		if rt.Terminal != nil && !rt.Dying() {
			rt.Terminal(string(p))
		}
		return len(p), nil
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	s := sys("write", f.name, "write-error", "short-write", "disk-full")
	if f.flag&O_APPEND != 0 {
		f.pos = len(f.ino.data)
	}
	n := len(p)
	var e error
	switch {
	case s == "write-error" || s == "dead":
		return 0, perr("write", f.name, syscall.EIO)
	case s == "disk-full":
		sim.FullDisk = true
		n, e = rt.Choose(len(p)+1), syscall.ENOSPC
		if n == len(p) && n > 0 {
			n--
		}
	case s == "short-write":
		n = 0
		if len(p) > 0 {
			n = rt.Choose(len(p))
		}
		e = syscall.EIO
	case s == "crash-part" && len(p) > 0:
		n = rt.Choose(len(p))
	case sim.FullDisk && f.pos+len(p) > len(f.ino.data):
		n, e = 0, syscall.ENOSPC
	case sim.Quota > 0 && sim.used+len(p) > sim.Quota && f.pos+len(p) > len(f.ino.data):
		if n = sim.Quota - sim.used; n < 0 {
			n = 0
		}
		e = syscall.ENOSPC
		rt.Note("quota-full", f.name)
	}
	if n > 0 {
		sim.write(f.ino, f.pos, p[:n])
		f.pos += n
	}
	after(s, "write", f.name)
	if e != nil {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	old := f.pos
	f.pos = int(off)
	n, err := f.Write(p)
	f.pos = old
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	s := sys("sync", f.name, "sync-error")
	if bad(s) {
		return perr("sync", f.name, errno(s))
	}
	if s != "crash-part" {
		sim.syncInode(f.ino)
	}
	after(s, "sync", f.name)
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, ErrClosed)
	}
	f.closed = true
	if f.std {
		return nil
	}
	for i, o := range sim.open {
		if o == f {
			sim.open = append(sim.open[:i:i], sim.open[i+1:]...)
			break
		}
	}
	var kinds []string
	if f.flag&(O_WRONLY|O_RDWR) != 0 {
		kinds = []string{"close-error", "close-lost-data"}
	} else {
		kinds = []string{"close-error"}
	}
	s := sys("close", f.name, kinds...)
	switch s {
	case "dead":
		return perr("close", f.name, syscall.EIO)
	case "close-error":
		return perr("close", f.name, syscall.EIO)
	case "close-lost-data":
		// delayed write-back failed: the unsynced tail never reached the store
		if len(f.ino.pend) > 0 {
			d := append([]byte(nil), f.ino.durable...)
			n := rt.Choose(len(f.ino.pend))
			for _, w := range f.ino.pend[:n] {
				d = applyWr(d, w)
			}
			if w := f.ino.pend[n]; !w.trunc && len(w.data) > 0 {
				w.data = w.data[:rt.Choose(len(w.data))]
				if len(w.data) > 0 {
					d = applyWr(d, w)
				}
			}
			f.ino.data, f.ino.durable, f.ino.pend = d, append([]byte(nil), d...), nil
			f.ino.ver++
			sim.changed()
		}
		return perr("close", f.name, syscall.EIO)
	}
	after(s, "close", f.name)
	return nil
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	s := sys("stat", f.name, "stat-error")
	if bad(s) {
		return nil, perr("stat", f.name, errno(s))
	}
	after(s, "stat", f.name)
	return f.ino.info(path.Base(f.name)), nil
}

func (f *File) Truncate(n int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	s := sys("truncate", f.name, "truncate-error")
	if bad(s) {
		return perr("truncate", f.name, errno(s))
	}
	sim.truncate(f.ino, int(n))
	after(s, "truncate", f.name)
	return nil
}

func (f *File) Chmod(m FileMode) error      { f.ino.mode = m & fs.ModePerm; return nil }
func (f *File) Chown(u, g int) error        { return nil }
func (f *File) SetDeadline(time.Time) error { return ErrNoDeadline }

type dirEntry struct{ fi FileInfo }

func (d dirEntry) Name() string            { return d.fi.Name() }
func (d dirEntry) IsDir() bool             { return d.fi.IsDir() }
func (d dirEntry) Type() FileMode          { return d.fi.Mode().Type() }
func (d dirEntry) Info() (FileInfo, error) { return d.fi, nil }
func (d dirEntry) String() string          { return fmt.Sprint(d.fi.Name()) }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if err := f.check("readdir"); err != nil {
		return nil, err
	}
	if !f.ino.dir {
		return nil, perr("readdirent", f.name, syscall.ENOTDIR)
	}
	if !f.listed {
		f.listed = true
		var names []string
		for k := range f.ino.ents {
			names = append(names, k)
		}
		sort.Strings(names)
		for _, k := range names {
			f.ents = append(f.ents, dirEntry{f.ino.ents[k].info(k)})
		}
	}
	if n <= 0 || n > len(f.ents) {
		if n > 0 && len(f.ents) == 0 {
			return nil, io.EOF
		}
		n = len(f.ents)
	}
	res := f.ents[:n]
	f.ents = f.ents[n:]
	return res, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var res []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		res = append(res, i)
	}
	return res, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var res []string
	for _, e := range es {
		res = append(res, e.Name())
	}
	return res, err
}

// DirFS is provided for completeness.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(n string) (fs.File, error) { return Open(string(d) + "/" + n) }
