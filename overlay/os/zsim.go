// Simulated file system under the real os API (added by overlay).  Every path
// below /simfs lives here, in memory; all others are the operating system's.

package os

import (
	"io"
	"slices"
	"syscall"
	"time"
)

const simRoot = "/simfs"

// SimFSOp is one call that reaches the file system.
type SimFSOp struct {
	Op   string // open create mkdir read write sync close stat rename remove readdir truncate
	Path string
	Len  int // bytes of a write
}

// SimFSVerdict is what happens to it.
type SimFSVerdict struct {
	Err   error
	N     int    // with Err, bytes of a write that still arrive
	Split int    // without Err: bytes that arrive before Pause is called
	Pause func() // called between the two parts of a split write
}

// SimFSHook is asked about every operation (nil: all succeed).
var SimFSHook func(SimFSOp) SimFSVerdict

// SimFSExit is called by Exit instead of ending the process.
var SimFSExit func(code int)

type simInode struct {
	data  []byte
	dir   bool
	mtime int64
	ino   uint64
}

type simDent struct {
	path string
	ino  *simInode
}

var simDents []simDent
var simInoSeq uint64

func simPathOK(p string) bool {
	return len(p) >= len(simRoot) && p[:len(simRoot)] == simRoot && (len(p) == len(simRoot) || p[len(simRoot)] == '/')
}

// simClean is filepath.Clean for the paths that occur.
func simClean(p string) string {
	var parts []string
	for i := 0; i < len(p); {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		switch s := p[i:j]; s {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, s)
		}
		i = j
	}
	r := ""
	for _, s := range parts {
		r += "/" + s
	}
	return r
}

func simParent(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

func simBase(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

func simLookup(p string) *simInode {
	for i := range simDents {
		if simDents[i].path == p {
			return simDents[i].ino
		}
	}
	if p == simRoot {
		return simMake(p, true)
	}
	return nil
}

func simTick() int64 { return time.Now().UnixNano() }

func simMake(p string, dir bool) *simInode {
	simInoSeq++
	n := &simInode{dir: dir, mtime: simTick(), ino: simInoSeq}
	simDents = append(simDents, simDent{p, n})
	return n
}

func simUnlink(p string) {
	for i := range simDents {
		if simDents[i].path == p {
			simDents = append(simDents[:i:i], simDents[i+1:]...)
			return
		}
	}
}

func simAsk(op, path string, n int) SimFSVerdict {
	if SimFSHook == nil {
		return SimFSVerdict{}
	}
	return SimFSHook(SimFSOp{op, path, n})
}

// SimFSFiles returns a copy of the regular files: names and contents.
func SimFSFiles() (names []string, data [][]byte) {
	var ds []simDent
	for _, d := range simDents {
		if !d.ino.dir {
			ds = append(ds, d)
		}
	}
	slices.SortFunc(ds, simDentCmp)
	for _, d := range ds {
		names = append(names, d.path)
		data = append(data, append([]byte(nil), d.ino.data...))
	}
	return
}

// SimFSPut makes a file.
func SimFSPut(path string, b []byte) {
	n := simLookup(path)
	if n == nil {
		n = simMake(path, false)
	}
	n.data = append([]byte(nil), b...)
}

type simHandle struct {
	ino    *simInode
	path   string
	off    int64
	app    bool
	rd, wr bool
	closed bool
	listed bool
}

func simOpen(name string, flag int, perm FileMode) (*File, error) {
	p := simClean(name)
	op := "open"
	if flag&O_CREATE != 0 && simLookup(p) == nil {
		op = "create"
	}
	fail := func(e error) (*File, error) { return nil, &PathError{Op: "open", Path: name, Err: e} }
	if v := simAsk(op, p, 0); v.Err != nil {
		return fail(v.Err)
	}
	n := simLookup(p)
	acc := flag & (O_RDONLY | O_WRONLY | O_RDWR)
	switch {
	case n == nil && flag&O_CREATE == 0:
		return fail(syscall.ENOENT)
	case n == nil:
		d := simLookup(simParent(p))
		if d == nil || !d.dir {
			return fail(syscall.ENOENT)
		}
		n = simMake(p, false)
	case flag&O_CREATE != 0 && flag&O_EXCL != 0:
		return fail(syscall.EEXIST)
	case n.dir && acc != O_RDONLY:
		return fail(syscall.EISDIR)
	case flag&O_TRUNC != 0:
		n.data, n.mtime = nil, simTick()
	}
	h := &simHandle{ino: n, path: p, app: flag&O_APPEND != 0, rd: acc != O_WRONLY, wr: acc != O_RDONLY}
	return &File{&file{name: name, sim: h, appendMode: h.app}}, nil
}

func (h *simHandle) close() error {
	if h.closed {
		return ErrClosed
	}
	h.closed = true
	return simAsk("close", h.path, 0).Err
}

func (h *simHandle) read(b []byte, at int64, move bool) (int, error) {
	switch {
	case h.closed:
		return 0, ErrClosed
	case !h.rd:
		return 0, syscall.EBADF
	case h.ino.dir:
		return 0, syscall.EISDIR
	case len(b) == 0:
		return 0, nil
	}
	if v := simAsk("read", h.path, len(b)); v.Err != nil {
		return 0, v.Err
	}
	if move {
		at = h.off
	}
	if at >= int64(len(h.ino.data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.data[at:])
	if move {
		h.off += int64(n)
	}
	return n, nil
}

func (h *simHandle) put(b []byte, at int64) {
	d := h.ino.data
	if h.app {
		at = int64(len(d))
	}
	for int64(len(d)) < at {
		d = append(d, 0)
	}
	n := copy(d[at:], b)
	d = append(d, b[n:]...)
	h.ino.data, h.ino.mtime = d, simTick()
}

func (h *simHandle) write(b []byte, at int64, move bool) (int, error) {
	switch {
	case h.closed:
		return 0, ErrClosed
	case !h.wr:
		return 0, syscall.EBADF
	case len(b) == 0:
		return 0, nil
	}
	v := simAsk("write", h.path, len(b))
	if move {
		at = h.off
	}
	if v.Err != nil {
		n := v.N
		if n > len(b) {
			n = len(b)
		}
		h.put(b[:n], at)
		if move {
			h.off += int64(n)
		}
		return n, v.Err
	}
	s := v.Split
	if s <= 0 || s >= len(b) {
		s = 0
	}
	if s > 0 {
		h.put(b[:s], at)
		if v.Pause != nil {
			v.Pause()
		}
	}
	h.put(b[s:], at+int64(s))
	if move {
		h.off += int64(len(b))
	}
	return len(b), nil
}

func (h *simHandle) seek(off int64, whence int) (int64, error) {
	switch {
	case h.closed:
		return 0, ErrClosed
	case whence == 1:
		off += h.off
	case whence == 2:
		off += int64(len(h.ino.data))
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.off = off
	h.listed = false
	return off, nil
}

func (h *simHandle) truncate(n int64) error {
	if h.closed {
		return ErrClosed
	}
	if v := simAsk("truncate", h.path, 0); v.Err != nil {
		return v.Err
	}
	simTrunc(h.ino, n)
	return nil
}

func simTrunc(i *simInode, n int64) {
	d := i.data
	for int64(len(d)) < n {
		d = append(d, 0)
	}
	i.data, i.mtime = d[:n], simTick()
}

func (h *simHandle) sync() error {
	if h.closed {
		return ErrClosed
	}
	return simAsk("sync", h.path, 0).Err
}

func simInfo(p string, n *simInode) *fileStat {
	fs := &fileStat{name: simBase(p), size: int64(len(n.data)), mode: 0o644, modTime: time.Unix(0, n.mtime)}
	if n.dir {
		fs.mode = ModeDir | 0o755
	}
	fs.sys.Ino = n.ino
	fs.sys.Size = fs.size
	return fs
}

func simStat(name string) (FileInfo, error) {
	p := simClean(name)
	if v := simAsk("stat", p, 0); v.Err != nil {
		return nil, &PathError{Op: "stat", Path: name, Err: v.Err}
	}
	n := simLookup(p)
	if n == nil {
		return nil, &PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return simInfo(p, n), nil
}

func simRename(oldname, newname string) error {
	a, b := simClean(oldname), simClean(newname)
	fail := func(e error) error { return &LinkError{"rename", oldname, newname, e} }
	if v := simAsk("rename", a, 0); v.Err != nil {
		return fail(v.Err)
	}
	n := simLookup(a)
	if n == nil {
		return fail(syscall.ENOENT)
	}
	if d := simLookup(simParent(b)); d == nil || !d.dir {
		return fail(syscall.ENOENT)
	}
	if a == b {
		return nil
	}
	simUnlink(b)
	simUnlink(a)
	simDents = append(simDents, simDent{b, n})
	return nil
}

func simRemove(name string) error {
	p := simClean(name)
	fail := func(e error) error { return &PathError{Op: "remove", Path: name, Err: e} }
	if v := simAsk("remove", p, 0); v.Err != nil {
		return fail(v.Err)
	}
	n := simLookup(p)
	if n == nil {
		return fail(syscall.ENOENT)
	}
	if n.dir && len(simList(p)) > 0 {
		return fail(syscall.ENOTEMPTY)
	}
	simUnlink(p)
	return nil
}

func simRemoveAll(name string) error {
	p := simClean(name)
	if v := simAsk("remove", p, 0); v.Err != nil {
		return &PathError{Op: "remove", Path: name, Err: v.Err}
	}
	var keep []simDent
	for _, d := range simDents {
		if d.path != p && !(len(d.path) > len(p) && d.path[:len(p)+1] == p+"/") {
			keep = append(keep, d)
		}
	}
	simDents = keep
	return nil
}

func simMkdir(name string) error {
	p := simClean(name)
	fail := func(e error) error { return &PathError{Op: "mkdir", Path: name, Err: e} }
	if v := simAsk("mkdir", p, 0); v.Err != nil {
		return fail(v.Err)
	}
	if simLookup(p) != nil {
		return fail(syscall.EEXIST)
	}
	if d := simLookup(simParent(p)); d == nil || !d.dir {
		return fail(syscall.ENOENT)
	}
	simMake(p, true)
	return nil
}

func simList(p string) []simDent {
	var out []simDent
	for _, d := range simDents {
		if d.path != p && simParent(d.path) == p {
			out = append(out, d)
		}
	}
	slices.SortFunc(out, simDentCmp)
	return out
}

type simDirEntry struct{ fi *fileStat }

func (d simDirEntry) Name() string               { return d.fi.name }
func (d simDirEntry) IsDir() bool                { return d.fi.IsDir() }
func (d simDirEntry) Type() FileMode             { return d.fi.mode.Type() }
func (d simDirEntry) Info() (FileInfo, error)    { return d.fi, nil }
func (d simDirEntry) String() string             { return d.fi.name }

func (h *simHandle) readdir(n int, mode readdirMode) (names []string, dirents []DirEntry, infos []FileInfo, err error) {
	if h.closed {
		return nil, nil, nil, ErrClosed
	}
	if v := simAsk("readdir", h.path, 0); v.Err != nil {
		return nil, nil, nil, v.Err
	}
	if h.listed {
		if n > 0 {
			err = io.EOF
		}
		return
	}
	h.listed = true
	for _, d := range simList(h.path) {
		fi := simInfo(d.path, d.ino)
		switch mode {
		case readdirName:
			names = append(names, fi.name)
		case readdirDirEntry:
			dirents = append(dirents, simDirEntry{fi})
		default:
			infos = append(infos, fi)
		}
	}
	if n > 0 && len(names)+len(dirents)+len(infos) == 0 {
		err = io.EOF
	}
	return
}

func simDentCmp(a, b simDent) int {
	switch {
	case a.path < b.path:
		return -1
	case a.path > b.path:
		return 1
	}
	return 0
}
