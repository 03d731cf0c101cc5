package rt

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Disk is the simulated file system: what running processes see (volatile), and what a power loss leaves.
//
// Directory operations reach the platter in order, but at any later time unless forced by a sync; file
// data reaches it at any time unless forced by fsync of that file, so after a power loss an unsynced file
// may hold any of the versions it went through since its last fsync.
type Disk struct {
	files map[string]*inode
	dirs  map[string]bool
	// durable state
	dfiles  map[string]*inode
	pending []metaOp
	nextIno int
	tmp     int

	Ops      int
	Opens    int
	Fault    func(op DiskOp) DiskFault
	Counts   map[string]int
	OpenFDs  int
	OnChange func(path string)
}

type inode struct {
	id       int
	data     []byte
	versions [][]byte // since the last fsync, oldest (the synced one) first
	mode     fs.FileMode
	mtime    time.Time
}
type metaOp struct {
	kind string // link, unlink, rename
	a, b string
	ino  *inode
}

// DiskOp is one operation as seen by the fault hook.
type DiskOp struct {
	N    int
	Kind string // open, create, write, read, sync, close, rename, remove, stat, truncate, ...
	Path string
	Len  int
}

// DiskFault is what happens to it.
type DiskFault struct {
	Err   error
	Short int // with Err on write: bytes that still reach the file
	Delay time.Duration
	Crash string // "", "proc", "power"; happens before the operation, with Short bytes of a write applied
	Done  func() // called after the crash
}

func NewDisk() *Disk {
	return &Disk{files: map[string]*inode{}, dirs: map[string]bool{"/": true, "/data": true, "/tmp": true, ".": true}, dfiles: map[string]*inode{}, Counts: map[string]int{}}
}

func (d *Disk) norm(p string) string {
	p = filepath.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = filepath.Join("/data", p)
	}
	return p
}

func errno(kind, path string, e error) error { return &fs.PathError{Op: kind, Path: path, Err: e} }

func (d *Disk) op(kind, path string, n int) DiskFault {
	s := S
	if s.cur != nil && s.cur.killed {
		return DiskFault{Err: errno(kind, path, syscall.EIO)}
	}
	if s.cur == nil {
		return DiskFault{}
	}
	s.point()
	d.Ops++
	d.Counts[kind]++
	if d.Fault == nil {
		return DiskFault{}
	}
	f := d.Fault(DiskOp{d.Ops, kind, path, n})
	if f.Delay > 0 {
		t := s.cur
		s.after(int64(f.Delay), t.Lib, func() { s.ready(t) })
		s.block(t, "slow disk")
		gone(t)
	}
	return f
}

func (d *Disk) crash(f DiskFault) {
	S.CrashSelf(func() {
		if f.Crash == "power" {
			d.PowerLoss(S.mixDisk())
		}
		if f.Done != nil {
			f.Done()
		}
	})
}

func (s *Sim) mixDisk() *Rand { return NewRand(s.cfg.Seed ^ uint64(s.Disk.Ops)*0x9e37) }

func (d *Disk) change(p string) {
	if d.OnChange != nil {
		d.OnChange(p)
	}
}

func (i *inode) set(data []byte) {
	i.data = data
	i.versions = append(i.versions, append([]byte(nil), data...))
	i.mtime = Now()
}
func (i *inode) sync() { i.versions = [][]byte{append([]byte(nil), i.data...)} }

func (d *Disk) applyMeta(m metaOp) {
	switch m.kind {
	case "link":
		d.dfiles[m.a] = m.ino
	case "unlink":
		delete(d.dfiles, m.a)
	case "rename":
		if i, ok := d.dfiles[m.a]; ok {
			d.dfiles[m.b] = i
			delete(d.dfiles, m.a)
		} else {
			d.dfiles[m.b] = m.ino
		}
	}
}
func (d *Disk) flushMeta() {
	for _, m := range d.pending {
		d.applyMeta(m)
	}
	d.pending = nil
}
func (d *Disk) flushMetaUpTo(i *inode) {
	last := -1
	for k, m := range d.pending {
		if m.ino == i && m.kind == "link" {
			last = k
			break
		}
	}
	for k := 0; k <= last; k++ {
		d.applyMeta(d.pending[k])
	}
	d.pending = append([]metaOp(nil), d.pending[last+1:]...)
}

// PowerLoss drops what had not reached the platter.
func (d *Disk) PowerLoss(r *Rand) {
	k := r.Intn(len(d.pending) + 1)
	for i := 0; i < k; i++ {
		d.applyMeta(d.pending[i])
	}
	d.pending = nil
	paths := make([]string, 0, len(d.dfiles))
	for p := range d.dfiles {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		i := d.dfiles[p]
		if len(i.versions) > 0 {
			k := r.Intn(len(i.versions))
			v := append([]byte(nil), i.versions[k]...)
			if k > 0 && len(v) > 0 { // written, but not synced: only part of it may have reached the platter
				switch r.Intn(4) {
				case 0:
					v = v[:r.Intn(len(v))]
				case 1:
					for j := r.Intn(len(v)); j < len(v); j++ {
						v[j] = 0
					}
				}
			}
			i.data = v
		}
		i.sync()
	}
	d.files = map[string]*inode{}
	for p, i := range d.dfiles {
		d.files[p] = i
	}
}

// Settle lets everything written so far reach the platter, as it does by itself after a while (harness).
func (d *Disk) Settle() {
	d.flushMeta()
	for _, i := range d.files {
		i.sync()
	}
}

// Put places a durable file (harness).
func (d *Disk) Put(path string, data []byte) {
	path = d.norm(path)
	d.nextIno++
	i := &inode{id: d.nextIno, mode: 0644, data: append([]byte(nil), data...)}
	i.sync()
	d.files[path] = i
	d.dfiles[path] = i
}

// Peek reads a file as a process would see it (harness).
func (d *Disk) Peek(path string) ([]byte, bool) {
	i, ok := d.files[d.norm(path)]
	if !ok {
		return nil, false
	}
	return append([]byte(nil), i.data...), true
}

// Paths lists the files (harness).
func (d *Disk) Paths() []string {
	var r []string
	for p := range d.files {
		r = append(r, p)
	}
	sort.Strings(r)
	return r
}

// Delete removes a file (harness).
func (d *Disk) Delete(path string) {
	delete(d.files, d.norm(path))
	delete(d.dfiles, d.norm(path))
}

// File is os.File.
type File struct {
	d      *Disk
	ino    *inode
	path   string
	name   string
	off    int64
	flag   int
	closed bool
	dir    bool
	std    bool
}

// Stdout and Stderr swallow what is written.
var (
	Stdout = &File{std: true, name: "/dev/stdout"}
	Stderr = &File{std: true, name: "/dev/stderr"}
	Stdin  = &File{std: true, name: "/dev/stdin"}
)

func OsOpen(name string) (*File, error) { return OsOpenFile(name, os.O_RDONLY, 0) }
func OsCreate(name string) (*File, error) {
	return OsOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func OsOpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	s := S
	if s == nil {
		return nil, errno("open", name, syscall.EIO)
	}
	d := s.Disk
	p := d.norm(name)
	kind := "open"
	if flag&os.O_CREATE != 0 {
		kind = "create"
	}
	f := d.op(kind, p, 0)
	if f.Crash != "" {
		d.crash(f)
	}
	if f.Err != nil {
		return nil, errno("open", name, f.Err)
	}
	if name == "" {
		return nil, errno("open", name, syscall.ENOENT)
	}
	if d.dirs[p] {
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, errno("open", name, syscall.EISDIR)
		}
		d.OpenFDs++
		return &File{d: d, path: p, name: name, dir: true}, nil
	}
	if !d.dirs[filepath.Dir(p)] {
		return nil, errno("open", name, syscall.ENOENT)
	}
	i := d.files[p]
	if i == nil {
		if flag&os.O_CREATE == 0 {
			return nil, errno("open", name, syscall.ENOENT)
		}
		d.nextIno++
		i = &inode{id: d.nextIno, mode: perm, mtime: Now(), versions: [][]byte{{}}}
		d.files[p] = i
		d.pending = append(d.pending, metaOp{"link", p, "", i})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, errno("open", name, syscall.EEXIST)
		}
		if flag&os.O_TRUNC != 0 && len(i.data) > 0 {
			i.set(nil)
			d.change(p)
		}
	}
	d.OpenFDs++
	return &File{d: d, ino: i, path: p, name: name, flag: flag}, nil
}

func (f *File) check(kind string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return errno(kind, f.name, os.ErrClosed)
	}
	return nil
}
func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	if f.dir {
		return 0, errno("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, errno("read", f.name, syscall.EBADF)
	}
	x := f.d.op("read", f.path, len(p))
	if x.Crash != "" {
		f.d.crash(x)
	}
	if x.Err != nil {
		return 0, errno("read", f.name, x.Err)
	}
	if f.off >= int64(len(f.ino.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[f.off:])
	f.off += int64(n)
	return n, nil
}
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	x := f.d.op("read", f.path, len(p))
	if x.Err != nil {
		return 0, errno("read", f.name, x.Err)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) put(p []byte, off int64) {
	data := append([]byte(nil), f.ino.data...)
	if int64(len(data)) < off {
		data = append(data, make([]byte, off-int64(len(data)))...)
	}
	data = append(data[:off], append(append([]byte(nil), p...), tail(data, off+int64(len(p)))...)...)
	f.ino.set(data)
	f.d.change(f.path)
}
func tail(d []byte, off int64) []byte {
	if off >= int64(len(d)) {
		return nil
	}
	return append([]byte(nil), d[off:]...)
}
func (f *File) write(p []byte, off int64, adv bool) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.std {
		if f == Stdout && S != nil && S.Out != nil {
			S.Out(p)
		}
		return len(p), nil
	}
	if f.dir || f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, errno("write", f.name, syscall.EBADF)
	}
	x := f.d.op("write", f.path, len(p))
	if adv {
		off = f.off
		if f.flag&os.O_APPEND != 0 {
			off = int64(len(f.ino.data))
		}
	}
	n := len(p)
	if x.Crash != "" || x.Err != nil {
		n = x.Short
		if n > len(p) {
			n = len(p)
		}
		if n < 0 {
			n = 0
		}
	}
	if n > 0 {
		f.put(p[:n], off)
		if adv {
			f.off = off + int64(n)
		}
	}
	if x.Crash != "" {
		f.d.crash(x)
	}
	if x.Err != nil {
		return n, errno("write", f.name, x.Err)
	}
	return n, nil
}
func (f *File) Write(p []byte) (int, error)              { return f.write(p, 0, true) }
func (f *File) WriteAt(p []byte, off int64) (int, error) { return f.write(p, off, false) }
func (f *File) WriteString(s string) (int, error)        { return f.write([]byte(s), 0, true) }
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, errno("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}
func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	x := f.d.op("sync", f.path, 0)
	if x.Crash != "" {
		f.d.crash(x)
	}
	if x.Err != nil {
		return errno("sync", f.name, x.Err)
	}
	if f.dir {
		f.d.flushMeta()
		return nil
	}
	f.ino.sync()
	f.d.flushMetaUpTo(f.ino)
	return nil
}
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std {
		return nil
	}
	if f.closed {
		return errno("close", f.name, os.ErrClosed)
	}
	x := f.d.op("close", f.path, 0)
	if x.Crash != "" {
		f.d.crash(x)
	}
	f.closed = true
	f.d.OpenFDs--
	if x.Err != nil {
		return errno("close", f.name, x.Err)
	}
	return nil
}
func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	x := f.d.op("truncate", f.path, 0)
	if x.Crash != "" {
		f.d.crash(x)
	}
	if x.Err != nil {
		return errno("truncate", f.name, x.Err)
	}
	data := append([]byte(nil), f.ino.data...)
	if int64(len(data)) >= size {
		data = data[:size]
	} else {
		data = append(data, make([]byte, size-int64(len(data)))...)
	}
	f.ino.set(data)
	f.d.change(f.path)
	return nil
}
func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	if f.ino != nil {
		f.ino.mode = m
	}
	return nil
}
func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	if f.dir {
		return finfo{name: filepath.Base(f.path), dir: true}, nil
	}
	return finfo{name: filepath.Base(f.path), size: int64(len(f.ino.data)), mode: f.ino.mode, mt: f.ino.mtime}, nil
}

type finfo struct {
	name string
	size int64
	mode fs.FileMode
	mt   time.Time
	dir  bool
}

func (i finfo) Name() string { return i.name }
func (i finfo) Size() int64  { return i.size }
func (i finfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0755
	}
	return i.mode
}
func (i finfo) ModTime() time.Time         { return i.mt }
func (i finfo) IsDir() bool                { return i.dir }
func (i finfo) Sys() any                   { return nil }
func (i finfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i finfo) Info() (fs.FileInfo, error) { return i, nil }

func OsStat(name string) (fs.FileInfo, error) {
	d := S.Disk
	p := d.norm(name)
	x := d.op("stat", p, 0)
	if x.Err != nil {
		return nil, errno("stat", name, x.Err)
	}
	if d.dirs[p] {
		return finfo{name: filepath.Base(p), dir: true}, nil
	}
	i := d.files[p]
	if i == nil {
		return nil, errno("stat", name, syscall.ENOENT)
	}
	return finfo{name: filepath.Base(p), size: int64(len(i.data)), mode: i.mode, mt: i.mtime}, nil
}
func OsLstat(name string) (fs.FileInfo, error) { return OsStat(name) }

func OsRename(from, to string) error {
	d := S.Disk
	a, b := d.norm(from), d.norm(to)
	x := d.op("rename", b, 0)
	if x.Crash != "" {
		d.crash(x)
	}
	link := func(e error) error { return &os.LinkError{Op: "rename", Old: from, New: to, Err: e} }
	if x.Err != nil {
		return link(x.Err)
	}
	i := d.files[a]
	if i == nil {
		return link(syscall.ENOENT)
	}
	if d.dirs[b] {
		return link(syscall.EEXIST)
	}
	if !d.dirs[filepath.Dir(b)] {
		return link(syscall.ENOENT)
	}
	if a == b {
		return nil
	}
	d.files[b] = i
	delete(d.files, a)
	d.pending = append(d.pending, metaOp{"rename", a, b, i})
	d.change(b)
	return nil
}
func OsRemove(name string) error {
	d := S.Disk
	p := d.norm(name)
	x := d.op("remove", p, 0)
	if x.Crash != "" {
		d.crash(x)
	}
	if x.Err != nil {
		return errno("remove", name, x.Err)
	}
	i := d.files[p]
	if i == nil {
		return errno("remove", name, syscall.ENOENT)
	}
	delete(d.files, p)
	d.pending = append(d.pending, metaOp{"unlink", p, "", i})
	d.change(p)
	return nil
}
func OsRemoveAll(name string) error {
	err := OsRemove(name)
	if errors.Is(err, fs.ErrNotExist) {
		return nil
	}
	return err
}
func OsLink(from, to string) error {
	d := S.Disk
	a, b := d.norm(from), d.norm(to)
	x := d.op("link", b, 0)
	if x.Crash != "" {
		d.crash(x)
	}
	link := func(e error) error { return &os.LinkError{Op: "link", Old: from, New: to, Err: e} }
	if x.Err != nil {
		return link(x.Err)
	}
	i := d.files[a]
	if i == nil {
		return link(syscall.ENOENT)
	}
	if d.files[b] != nil {
		return link(syscall.EEXIST)
	}
	d.files[b] = i
	d.pending = append(d.pending, metaOp{"link", b, "", i})
	d.change(b)
	return nil
}
func OsMkdirAll(name string, perm fs.FileMode) error {
	d := S.Disk
	for p := d.norm(name); p != "/"; p = filepath.Dir(p) {
		d.dirs[p] = true
	}
	return nil
}
func OsMkdir(name string, perm fs.FileMode) error {
	d := S.Disk
	p := d.norm(name)
	if d.dirs[p] || d.files[p] != nil {
		return errno("mkdir", name, syscall.EEXIST)
	}
	d.dirs[p] = true
	return nil
}
func OsChmod(name string, m fs.FileMode) error {
	i := S.Disk.files[S.Disk.norm(name)]
	if i == nil {
		return errno("chmod", name, syscall.ENOENT)
	}
	i.mode = m
	return nil
}
func OsTruncate(name string, size int64) error {
	f, err := OsOpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func OsReadFile(name string) ([]byte, error) {
	f, err := OsOpen(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func OsWriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func OsTempDir() string { return "/tmp" }
func OsCreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	d := S.Disk
	for {
		d.tmp++
		f, err := OsOpenFile(filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, d.tmp, suf)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return f, err
	}
}
func OsReadDir(name string) ([]fs.DirEntry, error) {
	d := S.Disk
	p := d.norm(name)
	x := d.op("readdir", p, 0)
	if x.Err != nil {
		return nil, errno("open", name, x.Err)
	}
	var r []fs.DirEntry
	for _, q := range d.Paths() {
		if filepath.Dir(q) == p {
			i := d.files[q]
			r = append(r, finfo{name: filepath.Base(q), size: int64(len(i.data)), mode: i.mode, mt: i.mtime})
		}
	}
	return r, nil
}

// OsExit is os.Exit.
func OsExit(code int) {
	s := S
	if s == nil || s.cur == nil {
		os.Exit(code)
	}
	if s.cur.killed {
		return
	}
	if s.ExitHook != nil {
		s.CrashSelf(func() { s.ExitHook(code) })
		return
	}
	s.finish("crash", fmt.Sprintf("process exits with status %d", code), s.Dump())
	s.park(s.cur)
}

// LogFatal is log.Fatal and friends.
func LogFatal(a ...any)            { OsExit(1) }
func LogFatalf(f string, a ...any) { OsExit(1) }

// The standard output of the process, and its command line.
func FmtPrintf(f string, a ...any) (int, error) { return Stdout.Write([]byte(fmt.Sprintf(f, a...))) }
func FmtPrintln(a ...any) (int, error)          { return Stdout.Write([]byte(fmt.Sprintln(a...))) }
func FmtPrint(a ...any) (int, error)            { return Stdout.Write([]byte(fmt.Sprint(a...))) }

// OsArgs is os.Args, Flags is flag.CommandLine.
var OsArgs = []string{"program"}
var Flags = flag.NewFlagSet("program", flag.ContinueOnError)

// SetArgs sets the command line of the next program run.
func SetArgs(a ...string) {
	OsArgs = append([]string{"program"}, a...)
	Flags = flag.NewFlagSet("program", flag.ContinueOnError)
	Flags.SetOutput(io.Discard)
}

func FlagStringVar(p *string, name, value, usage string)     { Flags.StringVar(p, name, value, usage) }
func FlagBoolVar(p *bool, name string, value bool, u string) { Flags.BoolVar(p, name, value, u) }
func FlagIntVar(p *int, name string, value int, u string)    { Flags.IntVar(p, name, value, u) }
func FlagDurationVar(p *time.Duration, name string, value time.Duration, u string) {
	Flags.DurationVar(p, name, value, u)
}
func FlagString(name, value, usage string) *string     { return Flags.String(name, value, usage) }
func FlagBool(name string, value bool, u string) *bool { return Flags.Bool(name, value, u) }
func FlagInt(name string, value int, u string) *int    { return Flags.Int(name, value, u) }
func FlagDuration(name string, value time.Duration, u string) *time.Duration {
	return Flags.Duration(name, value, u)
}
func FlagArgs() []string   { return Flags.Args() }
func FlagArg(i int) string { return Flags.Arg(i) }
func FlagNArg() int        { return Flags.NArg() }
func FlagParsed() bool     { return Flags.Parsed() }

var FlagUsage = func() {}

func FlagPrintDefaults() {}
func FlagParse() {
	if Flags.Parse(OsArgs[1:]) != nil {
		OsExit(2)
	}
}

// Programs are the main functions of the commands of the tree under test.
var Programs = map[string]func(){}

// Program registers one.
func Program(name string, main func()) { Programs[name] = main }
