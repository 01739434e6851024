package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"vsimw/simrt"
)

// An in-memory file system behind the system calls, with fault injection and
// crash points. Every call that reaches it has a number; faults and the moment
// of death are given by number.

type node struct {
	ino  uint64
	mode uint32 // permission bits
	kind uint32 // S_IFDIR, S_IFREG, S_IFLNK
	data []byte
	kids map[string]*node

	shared bool // data belongs to a clone, too

	mtime  int64  // nanoseconds since the epoch of the simulation
	ex     *ofile // who holds it locked
	sh     []*ofile
	dirty  int    // the epoch of the disk the content was changed in since the last fsync
	stable []byte // what the platter has
}

// own makes the data writable.
func (n *node) own() {
	if n.shared {
		n.data = append([]byte(nil), n.data...)
		n.shared = false
	}
}

type ofile struct {
	n    *node
	path string
	pos  int64
	flag int
	ents []string // listing of an open directory, fixed at the first getdents
	read bool
}

// Fault makes the system call with number At fail, or behave oddly.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // errno name, "short", "torn" (part is written, then the errno), "vanish", "full" (from here on the disk is full), "denied", "sick" or "readonly" (from here on for this path)
	Err  string `json:"err,omitempty"`
	Part int    `json:"part,omitempty"` // thousandths, for short and torn
	Rep  int    `json:"rep,omitempty"`  // the following calls, too
}

// badPath is a place that stays bad for the rest of the process.
type badPath struct{ kind, p string }

// hits says how a system call on a path ends because of it.
func (b badPath) hits(op, p string) syscall.Errno {
	under := strings.HasPrefix(p, b.p+"/")
	if !under && p != b.p {
		return 0
	}
	switch b.kind {
	case "denied": // no permission to read it
		switch {
		case op == "open" || op == "create" || op == "trunc", under && op != "read" && op != "write" && op != "closew" && op != "close" && op != "fstat":
			return syscall.EACCES
		}
	case "sick": // the medium is bad
		switch op {
		case "open", "read", "getdents", "stat", "fstat":
			return syscall.EIO
		}
	case "readonly":
		switch op {
		case "create", "mkdir", "unlink", "rename", "link", "symlink", "chmod", "trunc":
			return syscall.EROFS
		}
	}
	return 0
}

type call struct {
	op   string
	path string
	mut  bool // changes the file system
	n    int  // bytes
}

const fdBase = 1 << 20

// Descriptors are never used twice: what a dead process left open may still be
// closed by a finalizer later.
var nextFd = fdBase

// disk is what processes share.
type disk struct {
	root    *node
	nextIno uint64

	epoch     int
	journal   []func() // undoes the changes of directories since the epoch began
	committed int      // so many of them are on the platter
}

// settle: everything reached the platter long ago.
func (d *disk) settle() {
	d.epoch++
	d.journal, d.committed = nil, 0
}

func (d *disk) log(undo func()) { d.journal = append(d.journal, undo) }

// touch is called before the content of a file changes.
func (d *disk) touch(n *node) {
	if n.dirty != d.epoch {
		n.dirty = d.epoch
		n.stable = append([]byte(nil), n.data...)
	}
}

// sync: the file is on the platter, and with it the journal so far.
func (d *disk) sync(n *node) {
	n.dirty, n.stable = 0, nil
	d.committed = len(d.journal)
}

// powerLoss leaves what the platter has: a part of the journal, and of the files
// that were not synced whatever had been written back by chance.
func (d *disk) powerLoss(seed uint64) (lost string) {
	r := simrt.NewRand(seed)
	open := len(d.journal) - d.committed
	keep := d.committed + r.N(open+1)
	if r.P(1, 3) {
		keep = d.committed
	} else if r.P(1, 3) {
		keep = len(d.journal)
	}
	lost = fmt.Sprintf("%d of %d directory changes lost", len(d.journal)-keep, len(d.journal))
	for i := len(d.journal) - 1; i >= keep; i-- {
		d.journal[i]()
	}
	var rec func(p string, n *node)
	rec = func(p string, n *node) {
		for _, k := range sortedKeys(n.kids) {
			rec(p+"/"+k, n.kids[k])
		}
		if n.kind != syscall.S_IFREG || n.dirty != d.epoch {
			return
		}
		n.own()
		cut := 0
		if len(n.data) > 0 {
			cut = r.N(len(n.data))
			if r.P(1, 2) {
				cut = cut / 4096 * 4096
			}
		}
		how := ""
		switch r.N(6) {
		case 0:
			how = "complete"
		case 1:
			n.data, how = append([]byte(nil), n.stable...), "former content"
		case 2:
			n.data, how = n.data[:cut:cut], "cut off"
		case 3:
			for i := cut; i < len(n.data); i++ {
				n.data[i] = 0
			}
			how = "zeros"
		default:
			n.data, how = nil, "empty"
		}
		lost += fmt.Sprintf("; %s: %s", p, how)
		n.dirty, n.stable = 0, nil
	}
	rec("", d.root)
	d.settle()
	return lost
}

type simFS struct {
	*disk
	fds     map[int]*ofile
	pid     int
	cwd     string
	calls   []call
	faults  map[int]Fault
	kill    int // number of the call the process dies in (0: lives)
	killAt  int // thousandths of a write that are done before
	dead    bool
	full    bool
	shuffle uint64 // order of directory listings; 0: creation order
	limit   int
	clock   int64
	step    int64

	fired  []string // faults that happened, with operation and role
	vanish []string
	bad    []badPath
	strict map[string]bool // every path that was changed
	strays map[string]bool // changes made outside the allowed places
	allow  func(p string) bool
	hung   bool
	hash   uint64

	m       *member         // set when several processes run together
	created map[string]bool // files made by the running process
	slept   int
}

var eintr = map[string]bool{"open": true, "create": true, "trunc": true, "read": true, "write": true, "getdents": true, "fstat": true, "stat": true, "rename": true, "unlink": true, "ftruncate": true, "fsync": true, "chmod": true, "mkdir": true}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EDQUOT": syscall.EDQUOT, "EACCES": syscall.EACCES, "EMFILE": syscall.EMFILE,
	"ENFILE": syscall.ENFILE, "EINTR": syscall.EINTR, "EROFS": syscall.EROFS, "EPERM": syscall.EPERM, "ENOMEM": syscall.ENOMEM, "ENOENT": syscall.ENOENT,
	"ESTALE": syscall.ESTALE, "ETXTBSY": syscall.ETXTBSY, "EFBIG": syscall.EFBIG, "ELOOP": syscall.ELOOP, "EEXIST": syscall.EEXIST, "ENOLCK": syscall.ENOLCK,
}

func newFS() *simFS {
	f := &simFS{disk: &disk{epoch: 1}, fds: map[int]*ofile{}, cwd: "/", limit: 3000000, step: 1000}
	f.root = f.mk(syscall.S_IFDIR, 0o755)
	return f
}

func (f *simFS) mk(kind, mode uint32) *node {
	f.nextIno++
	n := &node{ino: f.nextIno, kind: kind, mode: mode, mtime: f.clock}
	if kind == syscall.S_IFDIR {
		n.kids = map[string]*node{}
	}
	return n
}

// clone copies the durable state.
func (f *simFS) clone() *simFS {
	g := newFS()
	g.nextIno = f.nextIno
	g.cwd = f.cwd
	var cp func(n *node) *node
	cp = func(n *node) *node {
		m := &node{ino: n.ino, mode: n.mode, kind: n.kind, mtime: n.mtime, data: n.data[:len(n.data):len(n.data)], shared: true}
		n.shared = true
		if n.kids != nil {
			m.kids = map[string]*node{}
			for k, c := range n.kids {
				m.kids[k] = cp(c)
			}
		}
		return m
	}
	g.root = cp(f.root)
	return g
}

// ---- host side access ----

func (f *simFS) hostMkdir(p string) *node {
	n := f.root
	for _, e := range strings.Split(strings.Trim(p, "/"), "/") {
		if e == "" {
			continue
		}
		c := n.kids[e]
		if c == nil {
			c = f.mk(syscall.S_IFDIR, 0o755)
			n.kids[e] = c
		}
		n = c
	}
	return n
}

func (f *simFS) put(p string, data []byte) {
	d := f.hostMkdir(path.Dir(p))
	n := d.kids[path.Base(p)]
	if n == nil {
		n = f.mk(syscall.S_IFREG, 0o644)
		d.kids[path.Base(p)] = n
	}
	n.data = append([]byte{}, data...)
	n.shared = false
	n.mtime = f.clock
}

func (f *simFS) link(p, to string) {
	d := f.hostMkdir(path.Dir(p))
	n := f.mk(syscall.S_IFLNK, 0o777)
	n.data = []byte(to)
	d.kids[path.Base(p)] = n
}

func (f *simFS) rm(p string) {
	d := f.hostMkdir(path.Dir(p))
	delete(d.kids, path.Base(p))
}

func (f *simFS) get(p string) ([]byte, bool) {
	n, _, _, err := f.walk(p, true, 0)
	if err != 0 || n == nil || n.kind != syscall.S_IFREG {
		return nil, false
	}
	return n.data, true
}

// real gives the path with every symbolic link resolved; the last element need not be there.
func (f *simFS) real(p string) string {
	_, _, r, _ := f.walk(p, true, 0)
	if r == "" {
		return p
	}
	return r
}

// snapshot lists every object with mode and content.
func (f *simFS) snapshot() map[string]string {
	out := map[string]string{}
	var rec func(p string, n *node)
	rec = func(p string, n *node) {
		switch n.kind {
		case syscall.S_IFDIR:
			out[p] = fmt.Sprintf("dir %o", n.mode)
			for k, c := range n.kids {
				rec(path.Join(p, k), c)
			}
		case syscall.S_IFLNK:
			out[p] = "link " + string(n.data)
		default:
			out[p] = fmt.Sprintf("file %o %s", n.mode, n.data)
		}
	}
	rec("/", f.root)
	return out
}

func (f *simFS) digest() uint64 {
	s := f.snapshot()
	var ks []string
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	h := fnv.New64a()
	for _, k := range ks {
		io.WriteString(h, k)
		io.WriteString(h, "\x00")
		io.WriteString(h, s[k])
	}
	return h.Sum64()
}

// ---- path walking ----

// abs resolves a path against a directory descriptor.
func (f *simFS) abs(dirfd int, p string) (string, syscall.Errno) {
	if strings.IndexByte(p, 0) >= 0 {
		return "", syscall.EINVAL
	}
	if p == "" {
		return "", syscall.ENOENT
	}
	if p[0] == '/' {
		return p, 0
	}
	base := f.cwd
	if dirfd != _AT_FDCWD {
		o := f.fds[dirfd]
		if o == nil {
			return "", syscall.EBADF
		}
		if o.n.kind != syscall.S_IFDIR {
			return "", syscall.ENOTDIR
		}
		base = o.path
	}
	return base + "/" + p, 0
}

const _AT_FDCWD = -0x64

// walk finds the object a path names, the directory it is (or would be) in and
// its path with every symbolic link resolved.
func (f *simFS) walk(p string, follow bool, depth int) (n *node, dir *node, real string, errno syscall.Errno) {
	if depth > 20 {
		return nil, nil, "", syscall.ELOOP
	}
	parts := strings.Split(p, "/")
	type ent struct {
		n    *node
		name string
	}
	stack := []ent{{f.root, ""}}
	at := func() string {
		s := ""
		for _, e := range stack[1:] {
			s += "/" + e.name
		}
		if s == "" {
			return "/"
		}
		return s
	}
	slash := strings.HasSuffix(p, "/")
	var rest []string
	for _, e := range parts {
		if e != "" && e != "." {
			rest = append(rest, e)
		}
	}
	for i, e := range rest {
		last := i == len(rest)-1
		cur := stack[len(stack)-1].n
		if cur.kind != syscall.S_IFDIR {
			return nil, nil, "", syscall.ENOTDIR
		}
		if e == ".." {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
			continue
		}
		if len(e) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		c := cur.kids[e]
		if c == nil {
			if last {
				if slash {
					return nil, cur, at() + "/" + e, syscall.ENOENT
				}
				return nil, cur, path.Join(at(), e), syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		if c.kind == syscall.S_IFLNK && (!last || follow || slash) {
			to := string(c.data)
			if !strings.HasPrefix(to, "/") {
				to = at() + "/" + to
			}
			if !last {
				to += "/" + strings.Join(rest[i+1:], "/")
			}
			return f.walk(to, follow, depth+1)
		}
		stack = append(stack, ent{c, e})
	}
	top := stack[len(stack)-1]
	if slash && top.n.kind != syscall.S_IFDIR {
		return nil, nil, "", syscall.ENOTDIR
	}
	var d *node
	if len(stack) > 1 {
		d = stack[len(stack)-2].n
	}
	return top.n, d, at(), 0
}

func (f *simFS) find(dirfd int, p string, follow bool) (n, dir *node, real string, errno syscall.Errno) {
	a, e := f.abs(dirfd, p)
	if e != 0 {
		return nil, nil, "", e
	}
	return f.walk(a, follow, 0)
}

// ---- faults ----

// enter accounts for a system call. It returns the error to fail with, if any,
// and how much (thousandths) of a transfer may happen.
func (f *simFS) enter(op, p string, mut bool, n int) (e syscall.Errno, part int) {
	part = -1
	f.clock += f.step
	if f.dead {
		return syscall.EIO, 0
	}
	f.calls = append(f.calls, call{op, p, mut, n})
	k := len(f.calls)
	f.hash = simrt.Mix(f.hash, hstr(op), hstr(p), uint64(n))
	if k > f.limit {
		f.hung, f.dead = true, true
		return syscall.EIO, 0
	}
	if f.kill == k {
		f.dead = true
		f.unlockAll()
		f.fired = append(f.fired, "kill:"+op)
		if op == "write" && n > 0 {
			return syscall.EIO, f.killAt
		}
		return syscall.EIO, 0
	}
	if f.full && (op == "write" || op == "create" || op == "mkdir") {
		f.fired = append(f.fired, "full:"+op)
		return syscall.ENOSPC, 0
	}
	if x, ok := f.faults[k]; ok {
		switch x.Kind {
		case "denied", "sick":
			f.bad = append(f.bad, badPath{x.Kind, p})
		case "readonly":
			f.bad = append(f.bad, badPath{x.Kind, path.Dir(p)})
		}
	}
	for _, b := range f.bad {
		if e := b.hits(op, p); e != 0 {
			f.fired = append(f.fired, b.kind+":"+op)
			return e, 0
		}
	}
	if x, ok := f.faults[k]; ok {
		if _, has := f.faults[k+1]; x.Rep > 0 && !has {
			y := x
			y.At, y.Rep = k+1, x.Rep-1
			f.faults[k+1] = y
		}
		switch x.Kind {
		case "denied", "sick", "readonly":
			return 0, -1
		case "short":
			if n < 2 || op != "read" && op != "write" {
				return 0, -1
			}
			f.fired = append(f.fired, "short:"+op)
			return 0, max(1, x.Part)
		case "torn":
			if op != "write" && (op != "read" || n < 2) {
				return 0, -1
			}
			f.fired = append(f.fired, "torn:"+op)
			return errnos[x.Err], x.Part
		case "full":
			f.full = true
			if op == "write" {
				f.fired = append(f.fired, "full:"+op)
				return syscall.ENOSPC, x.Part
			}
			if op == "create" || op == "mkdir" {
				f.fired = append(f.fired, "full:"+op)
				return syscall.ENOSPC, 0
			}
			return 0, -1
		case "vanish":
			// somebody else removes the file just now
			if n, d, real, er := f.walk(p, true, 0); er == 0 && d != nil && n.kind == syscall.S_IFREG && (op == "open" || op == "stat") {
				delete(d.kids, path.Base(real))
				f.vanish = append(f.vanish, real)
				f.fired = append(f.fired, "vanish:"+op)
			}
			return 0, -1
		default:
			e := errnos[x.Kind]
			if e == syscall.EINTR && !eintr[op] {
				return 0, -1
			}
			f.fired = append(f.fired, x.Kind+":"+op)
			if op == "closew" {
				return e, x.Part
			}
			return e, 0
		}
	}
	return 0, -1
}

// host runs f, which may look at the file system, without system calls being counted.
func (f *simFS) host(fn func()) {
	was := syscall.SimFS
	syscall.SimFS = nil
	defer func() { syscall.SimFS = was }()
	fn()
}

// changed records which place is being changed.
func (f *simFS) changed(real string) {
	if f.dead {
		return
	}
	for d := real; d != "/" && d != "."; d = path.Dir(d) {
		if f.created[d] {
			return
		}
	}
	if f.allow != nil && !f.allow(real) {
		f.strays[real] = true
	}
}

// make records that something that was not there is being made.
func (f *simFS) make(real string) {
	f.changed(real)
	if !f.dead && f.created != nil && !f.strays[real] {
		f.created[real] = true
	}
}

func er(e syscall.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

// ---- system calls ----

func (f *simFS) Owns(fd int) bool { return fd >= fdBase }

func (f *simFS) Openat(dirfd int, p string, flags int, mode uint32) (int, error) {
	f.pre()
	acc := flags & syscall.O_ACCMODE
	n, dir, real, errno := f.find(dirfd, p, flags&syscall.O_NOFOLLOW == 0)
	op := "open"
	mut := false
	if errno == syscall.ENOENT && dir != nil && flags&syscall.O_CREAT != 0 {
		op, mut = "create", true
	} else if errno == 0 && flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY && n.kind == syscall.S_IFREG {
		op, mut = "trunc", true
	}
	name := real
	if name == "" {
		name = p
	}
	if e, _ := f.enter(op, name, mut, 0); e != 0 {
		return -1, e
	}
	if len(f.vanish) > 0 { // it may have gone this very moment
		n, dir, real, errno = f.find(dirfd, p, flags&syscall.O_NOFOLLOW == 0)
	}
	if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 && errno == 0 {
		return -1, syscall.EEXIST
	}
	if errno == syscall.ENOENT && dir != nil && flags&syscall.O_CREAT != 0 {
		if strings.HasSuffix(p, "/") {
			return -1, syscall.EISDIR
		}
		f.make(real)
		n = f.mk(syscall.S_IFREG, mode&0o777&^0o022)
		f.touch(n)
		f.enlist(dir, path.Base(real), n)
		errno = 0
	}
	if errno != 0 {
		return -1, errno
	}
	if n.kind == syscall.S_IFLNK {
		return -1, syscall.ELOOP
	}
	if n.kind == syscall.S_IFDIR && acc != syscall.O_RDONLY {
		return -1, syscall.EISDIR
	}
	if flags&syscall.O_DIRECTORY != 0 && n.kind != syscall.S_IFDIR {
		return -1, syscall.ENOTDIR
	}
	if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
		f.changed(real)
		f.touch(n)
		n.data, n.shared = nil, false
	}
	nextFd++
	f.fds[nextFd] = &ofile{n: n, path: real, flag: flags}
	return nextFd, nil
}

func (f *simFS) Read(fd int, p []byte) (int, error) {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	n, err := f.pread(o, p, o.pos)
	if n > 0 {
		o.pos += int64(n)
	}
	return n, err
}

func (f *simFS) pread(o *ofile, p []byte, off int64) (int, error) {
	left := 0
	if off < int64(len(o.n.data)) {
		left = min(len(o.n.data)-int(off), len(p))
	}
	e, part := f.enter("read", o.path, false, left)
	if e != 0 && part > 0 && left*part/1000 > 0 && !f.dead {
		// the error after part of the data is told by the next call
		f.faults[len(f.calls)+1] = Fault{At: len(f.calls) + 1, Kind: errName(e)}
		e = 0
	}
	if e != 0 {
		return -1, e
	}
	if o.n.kind == syscall.S_IFDIR {
		return -1, syscall.EISDIR
	}
	if part > 0 && left > 1 {
		left = max(1, left*part/1000)
	}
	return copy(p[:left], o.n.data[int(off):]), nil
}

func (f *simFS) Pread(fd int, p []byte, off int64) (int, error) {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	return f.pread(o, p, off)
}

func (f *simFS) Write(fd int, p []byte) (int, error) {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	if o.flag&syscall.O_APPEND != 0 {
		o.pos = int64(len(o.n.data))
	}
	n, err := f.pwrite(o, p, o.pos)
	if n > 0 {
		o.pos += int64(n)
	}
	return n, err
}

func (f *simFS) pwrite(o *ofile, p []byte, off int64) (int, error) {
	was := f.dead
	e, part := f.enter("write", o.path, true, len(p))
	if was {
		return -1, e
	}
	if o.flag&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	n := len(p)
	if part >= 0 {
		n = min(n, n*part/1000)
		if e == 0 && n == 0 && len(p) > 0 {
			n = 1
		}
	}
	if n > 0 {
		f.touch(o.n)
		o.n.own()
		if need := int(off) + n; need > len(o.n.data) {
			o.n.data = append(o.n.data, make([]byte, need-len(o.n.data))...)
		}
		copy(o.n.data[off:], p[:n])
		dead := f.dead
		f.dead = false
		f.changed(o.path)
		f.dead = dead
	}
	if e != 0 && (n == 0 || f.dead) {
		return -1, e
	}
	// an error after part of the data is told by the next call
	if e != 0 {
		f.faults[len(f.calls)+1] = Fault{At: len(f.calls) + 1, Kind: errName(e)}
	}
	return n, nil
}

func errName(e syscall.Errno) string {
	best := "EIO"
	for k, v := range errnos {
		if v == e {
			best = k
		}
	}
	return best
}

func (f *simFS) Pwrite(fd int, p []byte, off int64) (int, error) {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	return f.pwrite(o, p, off)
}

func (f *simFS) Seek(fd int, off int64, whence int) (int64, error) {
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += int64(len(o.n.data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	o.pos = off
	if o.n.kind == syscall.S_IFDIR && off == 0 {
		o.read, o.ents = false, nil
	}
	return off, nil
}

func (f *simFS) Close(fd int) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	o.n.unlock(o)
	delete(f.fds, fd) // whatever close says, the descriptor is gone
	op := "close"
	if o.flag&syscall.O_ACCMODE != syscall.O_RDONLY {
		op = "closew"
	}
	was := f.dead
	e, part := f.enter(op, o.path, false, 0)
	if e != 0 && op == "closew" && !was && !f.dead {
		// the write-back failed: part of the data never got there
		o.n.own()
		n := len(o.n.data) * max(0, part) / 1000
		o.n.data = o.n.data[:n:n]
	}
	return er(e)
}

func (f *simFS) Getdents(fd int, buf []byte) (int, error) {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	if e, _ := f.enter("getdents", o.path, false, 0); e != 0 {
		return -1, e
	}
	if o.n.kind != syscall.S_IFDIR {
		return -1, syscall.ENOTDIR
	}
	if !o.read {
		o.read = true
		o.ents = f.order(o.n)
	}
	n := 0
	for len(o.ents) > 0 {
		name := o.ents[0]
		rec := (19 + len(name) + 1 + 7) &^ 7
		if n+rec > len(buf) {
			break
		}
		c := o.n.kids[name]
		o.ents = o.ents[1:]
		if c == nil {
			continue
		}
		b := buf[n : n+rec]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = c.ino
		*(*int64)(unsafe.Pointer(&b[8])) = 1
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rec)
		switch c.kind {
		case syscall.S_IFDIR:
			b[18] = syscall.DT_DIR
		case syscall.S_IFLNK:
			b[18] = syscall.DT_LNK
		default:
			b[18] = syscall.DT_REG
		}
		copy(b[19:], name)
		n += rec
	}
	return n, nil
}

// order is the order a directory is listed in.
func (f *simFS) order(d *node) []string {
	var out []string
	for k := range d.kids {
		out = append(out, k)
	}
	sort.Strings(out)
	if f.shuffle != 0 {
		r := simrt.NewRand(simrt.Mix(f.shuffle, d.ino))
		for i := len(out) - 1; i > 0; i-- {
			j := r.N(i + 1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (f *simFS) fill(n *node, st *syscall.Stat_t) {
	*st = syscall.Stat_t{Dev: 77, Ino: n.ino, Nlink: 1, Mode: n.kind | n.mode, Size: int64(len(n.data)), Blksize: 4096}
	t := epoch*int64(1e9) + n.mtime
	st.Mtim = syscall.NsecToTimespec(t)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

const epoch = 1_700_000_000

func (f *simFS) Fstat(fd int, st *syscall.Stat_t) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	if e, _ := f.enter("fstat", o.path, false, 0); e != 0 {
		return e
	}
	f.fill(o.n, st)
	return nil
}

func (f *simFS) Fstatat(fd int, p string, st *syscall.Stat_t, flags int) error {
	f.pre()
	if p == "" && flags&0x1000 != 0 { // AT_EMPTY_PATH
		return f.Fstat(fd, st)
	}
	_, _, real, _ := f.find(fd, p, true)
	if real == "" {
		real = p
	}
	if e, _ := f.enter("stat", real, false, 0); e != 0 {
		return e
	}
	n, _, _, e := f.find(fd, p, flags&0x100 == 0) // AT_SYMLINK_NOFOLLOW
	if e != 0 {
		return e
	}
	f.fill(n, st)
	return nil
}

func (f *simFS) Fchmod(fd int, mode uint32) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	if e, _ := f.enter("chmod", o.path, true, 0); e != 0 {
		return e
	}
	f.changed(o.path)
	o.n.mode = mode & 0o7777
	return nil
}

func (f *simFS) Fchmodat(dirfd int, p string, mode uint32) error {
	f.pre()
	n, _, real, er := f.find(dirfd, p, true)
	if e, _ := f.enter("chmod", real, true, 0); e != 0 {
		return e
	}
	if er != 0 {
		return er
	}
	f.changed(real)
	if mode != 0 {
		n.mode = mode & 0o7777
	}
	return nil
}

func (f *simFS) Ftruncate(fd int, length int64) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	if e, _ := f.enter("ftruncate", o.path, true, 0); e != 0 {
		return e
	}
	f.changed(o.path)
	f.touch(o.n)
	o.n.resize(length)
	return nil
}

// touch is called before the content of a file changes.
func (f *simFS) touch(n *node) {
	n.mtime = f.clock
	f.disk.touch(n)
}

// enlist puts a new entry into a directory.
func (f *simFS) enlist(dir *node, name string, n *node) {
	dir.kids[name] = n
	f.log(func() { delete(dir.kids, name) })
}

func (n *node) resize(length int64) {
	n.own()
	if int(length) <= len(n.data) {
		n.data = n.data[:length:length]
		return
	}
	n.data = append(n.data, make([]byte, int(length)-len(n.data))...)
}

func (f *simFS) Truncate(p string, length int64) error {
	f.pre()
	n, _, real, er := f.find(_AT_FDCWD, p, true)
	if e, _ := f.enter("ftruncate", real, true, 0); e != 0 {
		return e
	}
	if er != 0 {
		return er
	}
	if n.kind != syscall.S_IFREG {
		return syscall.EISDIR
	}
	f.changed(real)
	f.touch(n)
	n.resize(length)
	return nil
}

func (f *simFS) Fsync(fd int) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	e, _ := f.enter("fsync", o.path, false, 0)
	if e == 0 {
		f.sync(o.n)
	}
	return er(e)
}

// pre is the moment before a system call: another process may go first.
func (f *simFS) pre() {
	if f.m != nil && !f.dead {
		f.m.before(len(f.calls) + 1)
	}
}

func (n *node) unlock(o *ofile) {
	if n.ex == o {
		n.ex = nil
	}
	for i, x := range n.sh {
		if x == o {
			n.sh = append(n.sh[:i:i], n.sh[i+1:]...)
			break
		}
	}
}

func (f *simFS) unlockAll() {
	for _, o := range f.fds {
		o.n.unlock(o)
	}
}

func (f *simFS) Flock(fd, how int) error {
	f.pre()
	o := f.fds[fd]
	if o == nil {
		return syscall.EBADF
	}
	if e, _ := f.enter("flock", o.path, false, 0); e != 0 {
		return e
	}
	for tries := 0; ; tries++ {
		if how&^syscall.LOCK_NB == syscall.LOCK_UN {
			o.n.unlock(o)
			return nil
		}
		free := o.n.ex == nil || o.n.ex == o
		if how&syscall.LOCK_EX != 0 && free {
			for _, x := range o.n.sh {
				free = free && x == o
			}
		}
		if free {
			o.n.unlock(o)
			if how&syscall.LOCK_EX != 0 {
				o.n.ex = o
			} else {
				o.n.sh = append(o.n.sh, o)
			}
			return nil
		}
		if how&syscall.LOCK_NB != 0 {
			return syscall.EWOULDBLOCK
		}
		if f.m == nil || !f.m.next() || tries > 10000 {
			f.hung, f.dead = true, true
			return syscall.EIO
		}
	}
}

// sleep passes time, which the other processes may use.
func (f *simFS) sleep(ns int64) {
	if ns > 0 {
		f.clock += ns
	}
	f.slept++
	if f.slept > 200000 {
		f.hung, f.dead = true, true
	}
	if f.m != nil && !f.dead {
		f.m.next()
	}
}

func (f *simFS) Fcntl(fd, cmd, arg int) (int, error) {
	o := f.fds[fd]
	if o == nil {
		return -1, syscall.EBADF
	}
	switch cmd {
	case syscall.F_GETFL:
		return o.flag, nil
	case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
		nextFd++
		f.fds[nextFd] = o
		return nextFd, nil
	}
	return 0, nil
}

func (f *simFS) Getcwd(buf []byte) (int, error) {
	if len(buf) < len(f.cwd)+1 {
		return -1, syscall.ERANGE
	}
	n := copy(buf, f.cwd)
	buf[n] = 0
	return n + 1, nil
}

func (f *simFS) Getpid() int { return f.pid }

func (f *simFS) Chdir(p string) error {
	n, _, real, e := f.find(_AT_FDCWD, p, true)
	if e != 0 {
		return e
	}
	if n.kind != syscall.S_IFDIR {
		return syscall.ENOTDIR
	}
	f.cwd = real
	return nil
}

func (f *simFS) Mkdirat(dirfd int, p string, mode uint32) error {
	f.pre()
	_, dir, real, errno := f.find(dirfd, strings.TrimRight(p, "/"), false)
	if e, _ := f.enter("mkdir", real, true, 0); e != 0 {
		return e
	}
	if errno == 0 {
		return syscall.EEXIST
	}
	if errno != syscall.ENOENT || dir == nil {
		return errno
	}
	f.make(real)
	f.enlist(dir, path.Base(real), f.mk(syscall.S_IFDIR, mode&0o777&^0o022))
	return nil
}

func (f *simFS) Renameat(od int, op string, nd int, np string) error {
	f.pre()
	on, odir, oreal, e1 := f.find(od, op, false)
	nn, ndir, nreal, e2 := f.find(nd, np, false)
	if e, _ := f.enter("rename", nreal, true, 0); e != 0 {
		return e
	}
	if e1 != 0 {
		return e1
	}
	if e2 != 0 && (e2 != syscall.ENOENT || ndir == nil) {
		return e2
	}
	if odir == nil || ndir == nil {
		return syscall.EBUSY
	}
	if nn == on {
		return nil
	}
	if nn != nil {
		if nn.kind == syscall.S_IFDIR {
			if on.kind != syscall.S_IFDIR {
				return syscall.EISDIR
			}
			if len(nn.kids) > 0 {
				return syscall.ENOTEMPTY
			}
		} else if on.kind == syscall.S_IFDIR {
			return syscall.ENOTDIR
		}
	}
	f.changed(oreal)
	if nn == nil {
		f.make(nreal)
	} else {
		f.changed(nreal)
	}
	delete(f.created, oreal)
	ob, nb := path.Base(oreal), path.Base(nreal)
	delete(odir.kids, ob)
	ndir.kids[nb] = on
	f.log(func() {
		delete(ndir.kids, nb)
		if nn != nil {
			ndir.kids[nb] = nn
		}
		odir.kids[ob] = on
	})
	for _, o := range f.fds {
		if o.n == on {
			o.path = nreal
		}
	}
	return nil
}

func (f *simFS) Unlinkat(dirfd int, p string, flags int) error {
	f.pre()
	n, dir, real, errno := f.find(dirfd, p, false)
	if e, _ := f.enter("unlink", real, true, 0); e != 0 {
		return e
	}
	if errno != 0 {
		return errno
	}
	if dir == nil {
		return syscall.EBUSY
	}
	if flags&0x200 != 0 { // AT_REMOVEDIR
		if n.kind != syscall.S_IFDIR {
			return syscall.ENOTDIR
		}
		if len(n.kids) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if n.kind == syscall.S_IFDIR {
		return syscall.EISDIR
	}
	f.changed(real)
	delete(f.created, real)
	delete(dir.kids, path.Base(real))
	f.log(func() { dir.kids[path.Base(real)] = n })
	return nil
}

func (f *simFS) Linkat(od int, op string, nd int, np string, flags int) error {
	f.pre()
	on, _, _, e1 := f.find(od, op, false)
	_, ndir, nreal, e2 := f.find(nd, np, false)
	if e, _ := f.enter("link", nreal, true, 0); e != 0 {
		return e
	}
	if e1 != 0 {
		return e1
	}
	if e2 == 0 {
		return syscall.EEXIST
	}
	if e2 != syscall.ENOENT || ndir == nil {
		return e2
	}
	if on.kind == syscall.S_IFDIR {
		return syscall.EPERM
	}
	f.make(nreal)
	f.enlist(ndir, path.Base(nreal), on)
	return nil
}

func (f *simFS) Symlinkat(to string, dirfd int, p string) error {
	f.pre()
	_, dir, real, errno := f.find(dirfd, p, false)
	if e, _ := f.enter("symlink", real, true, 0); e != 0 {
		return e
	}
	if errno == 0 {
		return syscall.EEXIST
	}
	if errno != syscall.ENOENT || dir == nil {
		return errno
	}
	f.make(real)
	n := f.mk(syscall.S_IFLNK, 0o777)
	n.data = []byte(to)
	f.enlist(dir, path.Base(real), n)
	return nil
}

func (f *simFS) Readlinkat(dirfd int, p string, buf []byte) (int, error) {
	f.pre()
	n, _, real, errno := f.find(dirfd, p, false)
	if e, _ := f.enter("stat", real, false, 0); e != 0 {
		return -1, e
	}
	if errno != 0 {
		return -1, errno
	}
	if n.kind != syscall.S_IFLNK {
		return -1, syscall.EINVAL
	}
	return copy(buf, n.data), nil
}

func (f *simFS) Faccessat(dirfd int, p string, mode uint32) error {
	f.pre()
	_, _, real, errno := f.find(dirfd, p, true)
	if e, _ := f.enter("stat", real, false, 0); e != 0 {
		return e
	}
	return er(errno)
}

// now is the simulated clock: it only moves with system calls.
func (f *simFS) now() (int64, int64) {
	f.clock += 17
	return epoch + f.clock/int64(time.Second), f.clock % int64(time.Second)
}

func hstr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
