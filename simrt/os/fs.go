// Package os replaces the standard package in simulated code: files live in a
// simulated file system with volatile and durable state.
package os

import (
	"fmt"
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/simrt/rt"
)

type inode struct {
	id    int
	dir   bool
	mode  fs.FileMode
	data  []byte
	mtime int64
	link  string // target of a symbolic link
	ents  map[string]*inode

	// durable view
	durable []byte
	dmtime  int64
	dents   map[string]*inode
	pend    []wr // data changes not yet forced to the disk, in order
	ver     int
}

// wr is a pending data change: a write at off, or a truncation (data nil).
type wr struct {
	off   int
	data  []byte
	trunc bool
}

type entChange struct {
	dir  *inode
	name string
	ino  *inode // nil: removed
}

// metaOp is one journaled, atomic metadata operation.
type metaOp struct {
	ents  []entChange
	ino   *inode // modification time change
	mtime int64
}

type fileSystem struct {
	root    *inode
	all     []*inode
	journal []metaOp
	cwd     string
	used    int
	temp    int
	changes int
	open    []*File // opened and not yet closed

	// run configuration
	Quota     int // 0: unlimited
	MaxRead   int // longest read served at once, 0: unlimited
	Page      int // write-back granularity
	SyscallNS int64
	OnChange  func() // after every visible change
	Ops       int
	FullDisk  bool
}

var sim *fileSystem

func newInode(dir bool, mode fs.FileMode) *inode {
	i := &inode{id: len(sim.all), dir: dir, mode: mode & fs.ModePerm &^ 0o022, mtime: rt.LocalNS()}
	i.dmtime = i.mtime
	if dir {
		i.ents = map[string]*inode{}
		i.dents = map[string]*inode{}
	}
	sim.all = append(sim.all, i)
	return i
}

// Reset makes a new empty file system with a working directory.
func Reset(cwd string) {
	sim = &fileSystem{cwd: cwd, Page: 4096, SyscallNS: 20000}
	sim.root = newInode(true, 0o755)
	HarnessMkdirAll(cwd)
	env = map[string]string{"HOME": "/home/sim"}
	HarnessMkdirAll("/home/sim")
	HarnessMkdirAll("/tmp")
}

// Conf gives the harness access to the run configuration.
func Conf() *fileSystem { return sim }

func (s *fileSystem) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = s.cwd + "/" + p
	}
	return path.Clean(p)
}

func (s *fileSystem) walk(p string) (*inode, syscall.Errno) {
	i, _, e := s.find(p, true)
	return i, e
}

// find looks a path up, following symbolic links (one in the last place only if asked to), and tells
// where it ended: the path with no link in it, of the last element even if it is not there.
func (s *fileSystem) find(p string, last bool) (*inode, string, syscall.Errno) {
	todo := strings.Split(strings.TrimPrefix(p, "/"), "/")
	i, at := s.root, "/"
	trail := []*inode{s.root}
	for links := 0; len(todo) > 0; {
		el := todo[0]
		todo = todo[1:]
		if el == "" || el == "." {
			continue
		}
		if !i.dir {
			return nil, at, syscall.ENOTDIR
		}
		if i.denies(0o100) {
			return nil, at, syscall.EACCES
		}
		if el == ".." { // of a link's target
			if len(trail) > 1 {
				trail = trail[:len(trail)-1]
			}
			i, at = trail[len(trail)-1], path.Dir(at)
			continue
		}
		n, ok := i.ents[el]
		if !ok {
			for _, rest := range todo {
				if rest != "" {
					return nil, "", syscall.ENOENT
				}
			}
			return nil, path.Join(at, el), syscall.ENOENT
		}
		if n.link != "" && (last || len(todo) > 0) {
			if links++; links > 40 {
				return nil, at, syscall.ELOOP
			}
			if strings.HasPrefix(n.link, "/") {
				i, at, trail = s.root, "/", []*inode{s.root}
			}
			todo = append(strings.Split(n.link, "/"), todo...)
			continue
		}
		i, at = n, path.Join(at, el)
		trail = append(trail, i)
	}
	return i, at, 0
}

// Resolve gives an existing path without symbolic links in it.
func Resolve(p string) string {
	_, at, _ := sim.find(sim.abs(p), true)
	if !strings.HasPrefix(p, "/") && strings.HasPrefix(at, sim.cwd+"/") {
		at = at[len(sim.cwd)+1:]
	}
	return at
}

// device tells the file systems apart: that of temporary files is one of its own.
func (s *fileSystem) device(p string) string {
	_, at, e := s.find(path.Dir(s.abs(p)), true)
	if e == 0 && (at == "/tmp" || strings.HasPrefix(at, "/tmp/")) {
		return "/tmp"
	}
	return "/"
}

// denies tells that the code under test, an ordinary user who owns everything, may not do this.
func (i *inode) denies(right fs.FileMode) bool { return i.mode&right == 0 && rt.InTask() }

func (s *fileSystem) parent(p string) (*inode, string, syscall.Errno) {
	d, e := s.walk(path.Dir(p))
	if e != 0 {
		return nil, "", e
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	if d.denies(0o100) {
		return nil, "", syscall.EACCES
	}
	return d, path.Base(p), 0
}

func (s *fileSystem) log(op metaOp) {
	// successive time stamps of one file collapse
	if n := len(s.journal); n > 0 && op.ents == nil && s.journal[n-1].ents == nil && s.journal[n-1].ino == op.ino {
		s.journal[n-1].mtime = op.mtime
		return
	}
	s.journal = append(s.journal, op)
}

func (s *fileSystem) link(d *inode, name string, i *inode) {
	d.ents[name] = i
	s.log(metaOp{ents: []entChange{{d, name, i}}})
	s.changed()
}

func (s *fileSystem) unlink(d *inode, name string) {
	delete(d.ents, name)
	s.log(metaOp{ents: []entChange{{d, name, nil}}})
	s.changed()
}

func (s *fileSystem) stamp(i *inode, t int64) {
	i.mtime = t
	s.log(metaOp{ino: i, mtime: t})
}

func (s *fileSystem) changed() {
	s.changes++
	if s.OnChange != nil {
		rt.Quiet(s.OnChange)
	}
}

func (s *fileSystem) write(i *inode, off int, p []byte) {
	if end := off + len(p); end > len(i.data) {
		s.used += end - len(i.data)
		nd := i.data
		for cap(nd) < end {
			nd = append(nd[:cap(nd)], 0)
		}
		old := len(i.data)
		nd = nd[:end]
		for k := old; k < off; k++ {
			nd[k] = 0
		}
		i.data = nd
	}
	copy(i.data[off:], p)
	i.ver++
	// coalesce sequential writes into pages
	for len(p) > 0 {
		room := s.Page - off%s.Page
		n := len(p)
		if n > room {
			n = room
		}
		if k := len(i.pend); k > 0 && !i.pend[k-1].trunc && i.pend[k-1].off+len(i.pend[k-1].data) == off && off%s.Page != 0 {
			i.pend[k-1].data = append(i.pend[k-1].data, p[:n]...)
		} else {
			i.pend = append(i.pend, wr{off: off, data: append([]byte(nil), p[:n]...)})
		}
		off += n
		p = p[n:]
	}
	s.stamp(i, rt.LocalNS())
	s.changed()
}

func (s *fileSystem) truncate(i *inode, n int) {
	if n < len(i.data) {
		s.used -= len(i.data) - n
		i.data = i.data[:n:n]
	} else {
		s.used += n - len(i.data)
		i.data = append(i.data, make([]byte, n-len(i.data))...)
	}
	i.ver++
	i.pend = append(i.pend, wr{off: n, trunc: true})
	s.stamp(i, rt.LocalNS())
	s.changed()
}

func applyWr(d []byte, w wr) []byte {
	if w.trunc {
		if w.off <= len(d) {
			return d[:w.off]
		}
		return append(d, make([]byte, w.off-len(d))...)
	}
	if need := w.off + len(w.data); need > len(d) {
		d = append(d, make([]byte, need-len(d))...)
	}
	copy(d[w.off:], w.data)
	return d
}

func (s *fileSystem) syncInode(i *inode) {
	if i.dir {
		for _, op := range s.journal {
			applyMeta(op)
		}
		s.journal = nil
		return
	}
	i.durable = append([]byte(nil), i.data...)
	i.pend = nil
}

func applyMeta(op metaOp) {
	for _, c := range op.ents {
		if c.ino == nil {
			delete(c.dir.dents, c.name)
		} else {
			c.dir.dents[c.name] = c.ino
		}
	}
	if op.ino != nil {
		op.ino.dmtime = op.mtime
	}
}

// PowerLoss discards what was not durable, in a way the simulator decides:
// a prefix of the unsynced metadata operations survives, and of each file's
// unsynced data all, nothing, a torn prefix, or an arbitrary part.
func PowerLoss() {
	s := sim
	keep := len(s.journal) - rt.Choose(len(s.journal)+1)
	lost := len(s.journal) - keep
	for _, op := range s.journal[:keep] {
		applyMeta(op)
	}
	s.journal = nil
	for _, i := range s.all {
		if i.dir {
			continue
		}
		d := append([]byte(nil), i.durable...)
		if len(i.pend) > 0 && i.linked(s) {
			switch rt.Weighted(3, 2, 2, 2) {
			case 0:
				for _, w := range i.pend {
					d = applyWr(d, w)
				}
			case 1:
				rt.Note("lost-data", fmt.Sprintf("file #%d", i.id))
				lost++
			case 2: // torn prefix
				n := rt.Choose(len(i.pend))
				for _, w := range i.pend[:n] {
					d = applyWr(d, w)
				}
				w := i.pend[n]
				if !w.trunc && len(w.data) > 0 {
					w.data = w.data[:rt.Choose(len(w.data))]
					if len(w.data) > 0 {
						d = applyWr(d, w)
					}
				}
				rt.Note("torn-data", fmt.Sprintf("file #%d", i.id))
				lost++
			case 3: // a window is missing
				a := rt.Choose(len(i.pend))
				b := a + 1 + rt.Choose(len(i.pend)-a)
				for k, w := range i.pend {
					if k < a || k >= b {
						d = applyWr(d, w)
					}
				}
				rt.Note("reordered-data", fmt.Sprintf("file #%d", i.id))
				lost++
			}
		} else if len(i.pend) > 0 {
			d = nil
		}
		i.pend = nil
		i.durable = d
		i.data = append([]byte(nil), d...)
		i.mtime = i.dmtime
		i.ver++
	}
	for _, i := range s.all {
		if i.dir {
			i.ents = map[string]*inode{}
			for n, c := range i.dents {
				i.ents[n] = c
			}
		}
	}
	s.used = 0
	for _, i := range s.all {
		s.used += len(i.data)
	}
	s.FullDisk = false
	rt.Note("power-loss", fmt.Sprintf("%d changes lost", lost))
	s.changed()
}

func (i *inode) linked(s *fileSystem) bool {
	for _, d := range s.all {
		for _, c := range d.dents {
			if c == i {
				return true
			}
		}
	}
	return false
}

// MakeDurable forces everything to the disk (test set-up).
func MakeDurable() {
	for _, op := range sim.journal {
		applyMeta(op)
	}
	sim.journal = nil
	for _, i := range sim.all {
		i.durable = append([]byte(nil), i.data...)
		i.pend = nil
	}
}

// Harness access, without faults, costs or scheduling.

func HarnessMkdirAll(p string) {
	p = sim.abs(p)
	if p == "/" {
		return
	}
	i, at, e := sim.find(p, true)
	if e == 0 && i.dir {
		return
	}
	if e == syscall.ENOENT && at == "" {
		HarnessMkdirAll(path.Dir(p))
		i, at, e = sim.find(p, true)
	}
	if e != syscall.ENOENT {
		return
	}
	d, name, e := sim.parent(at)
	if e == 0 && d.dir {
		n := newInode(true, 0o755)
		d.ents[name], d.dents[name] = n, n
	}
}

func HarnessPut(p string, data []byte, mtimeNS int64) {
	p = sim.abs(p)
	HarnessMkdirAll(path.Dir(p))
	d, name, _ := sim.parent(p)
	n := newInode(false, 0o644)
	n.data = append([]byte(nil), data...)
	n.durable = append([]byte(nil), data...)
	n.mtime, n.dmtime = mtimeNS, mtimeNS
	d.ents[name] = n
	d.dents[name] = n
	sim.used += len(data)
}

// HarnessGet returns a file's current contents.
func HarnessGet(p string) ([]byte, bool) {
	i, e := sim.walk(sim.abs(p))
	if e != 0 || i.dir {
		return nil, false
	}
	return i.data, true
}

// HarnessVersion identifies a file's current content cheaply (-1: no such file).
func HarnessVersion(p string) int64 {
	i, e := sim.walk(sim.abs(p))
	if e != 0 || i.dir {
		return -1
	}
	return int64(i.id)<<32 | int64(i.ver)
}

// HarnessIsDir tells whether a directory exists.
func HarnessIsDir(p string) bool {
	i, e := sim.walk(sim.abs(p))
	return e == 0 && i.dir
}

// HarnessSymlink makes a symbolic link, durably.
func HarnessSymlink(target, p string) {
	p = sim.abs(p)
	HarnessMkdirAll(path.Dir(p))
	d, name, _ := sim.parent(p)
	n := newInode(false, 0o777)
	n.mode, n.link = 0o777, target
	d.ents[name], d.dents[name] = n, n
}

// HarnessMove moves a file elsewhere and leaves a symbolic link to it, durably.
func HarnessMove(p, to string) bool {
	MakeDurable()
	d, name, e := sim.parent(sim.abs(p))
	if e != 0 || d.ents[name] == nil || d.ents[name].dir || d.ents[name].link != "" {
		return false
	}
	i := d.ents[name]
	HarnessMkdirAll(path.Dir(to))
	t, n, _ := sim.parent(to)
	t.ents[n], t.dents[n] = i, i
	HarnessSymlink(to, p)
	return true
}

// HarnessRemoveAll removes a tree.
func HarnessRemoveAll(p string) {
	d, name, e := sim.parent(sim.abs(p))
	if e == 0 {
		delete(d.ents, name)
		delete(d.dents, name)
	}
}

// HarnessTree lists every path with its size.
func HarnessTree() []string {
	var res []string
	var rec func(p string, i *inode)
	rec = func(p string, i *inode) {
		names := make([]string, 0, len(i.ents))
		for n := range i.ents {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			c := i.ents[n]
			if c.link != "" {
				res = append(res, p+n+" -> "+c.link)
			} else if c.dir {
				res = append(res, p+n+"/")
				rec(p+n+"/", c)
			} else {
				res = append(res, fmt.Sprintf("%s%s %d %d", p, n, len(c.data), c.mtime))
			}
		}
	}
	rec("/", sim.root)
	return res
}

// HarnessFlip changes stored bytes of a file in place, durably.
func HarnessSet(p string, data []byte) bool {
	i, e := sim.walk(sim.abs(p))
	if e != 0 || i.dir {
		return false
	}
	i.data = append([]byte(nil), data...)
	i.durable = append([]byte(nil), data...)
	i.pend = nil
	i.ver++
	return true
}

type fileInfo struct {
	name  string
	size  int64
	mode  fs.FileMode
	mtime int64
	id    int
}

func (f fileInfo) Name() string       { return f.name }
func (f fileInfo) Size() int64        { return f.size }
func (f fileInfo) Mode() fs.FileMode  { return f.mode }
func (f fileInfo) ModTime() time.Time { return time.Unix(0, f.mtime) }
func (f fileInfo) IsDir() bool        { return f.mode.IsDir() }
func (f fileInfo) Sys() interface{}   { return nil }

func (i *inode) info(name string) fs.FileInfo {
	m := i.mode
	if i.link != "" {
		return fileInfo{name, int64(len(i.link)), fs.ModeSymlink | fs.ModePerm, i.mtime, i.id}
	}
	if i.dir {
		m |= fs.ModeDir
	}
	return fileInfo{name, int64(len(i.data)), m, i.mtime, i.id}
}
