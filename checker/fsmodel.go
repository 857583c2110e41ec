package main

import (
	"fmt"
	"go/types"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

// fsModel: files and directories with constant names and symbolic contents.
// Contents and existence are cells of the state, so they follow its branches.
type fsModel struct {
	w       *world
	paths   []string
	known   map[string]bool
	perm    map[string]int64
	locked  map[string]bool // directories made without the rights to use them
	fds     map[*Obj]*fdesc
	nfd     int
	ops     int
	policy  func(n int, op, path string) *T // result of an operation
	crash   int                             // operation before which the process ends, -1 for none
	crashed *State
	opened  []*fdesc
}

type fdesc struct {
	path string
	flag int64
	obj  *Obj
	off  *Obj
	open *Obj
	pc   *BDD
}

const fsRoot = "/scratch"

func (p *Program) fsOf(w *world) *fsModel {
	m := &fsModel{w: w, known: map[string]bool{}, perm: map[string]int64{}, locked: map[string]bool{}, fds: map[*Obj]*fdesc{}, crash: -1}
	m.install()
	return m
}

func (m *fsModel) cell(kind, p string) *Obj {
	if kind == "file" && !m.known[p] {
		m.known[p] = true
		m.paths = append(m.paths, p)
	}
	return getObj(kind+":"+p, nil)
}

func (m *fsModel) is(st *State, kind, p string) *BDD {
	if kind == "dir" && (p == fsRoot || p == "/") {
		return bddTrue
	}
	v, ok := st.heap[m.cell(kind+"exists", p)]
	if !ok {
		return bddFalse
	}
	v = assume(v, st.pc)
	return m.w.in.decide(truth(v), st)
}

func truth(v *T) *BDD {
	switch v.k {
	case KBool:
		return v.b
	case KIte:
		return bddIte(v.a[0].b, truth(v.a[1]), truth(v.a[2]))
	}
	return bddVar(v)
}

func (m *fsModel) content(st *State, p string) *T {
	if v, ok := st.heap[m.cell("file", p)]; ok {
		return v
	}
	return seqEmpty
}

func (m *fsModel) set(st *State, c *BDD, p string, content *T) {
	e := m.cell("fileexists", p)
	old, ok := st.heap[e]
	if !ok {
		old = mkB(bddFalse)
	}
	st.heap[e] = ite(c, mkB(bddTrue), old)
	st.heap[m.cell("file", p)] = seqIte(c, content, m.content(st, p))
}

func (m *fsModel) unset(st *State, c *BDD, p string) {
	e := m.cell("fileexists", p)
	if old, ok := st.heap[e]; ok {
		st.heap[e] = ite(c, mkB(bddFalse), old)
	}
}

// op: one operation of the file system, which may fail
func (m *fsModel) op(st *State, c *callCtx, name, p string) *T {
	n := m.ops
	m.ops++
	if n == m.crash {
		m.crashed = st.clone()
		st.pc = bddFalse
		return tNil
	}
	m.w.ev(st, c, "fs:"+name+":"+p)
	for d := filepath.Dir(p); d != "/" && d != "."; d = filepath.Dir(d) {
		if m.locked[d] {
			return mkOp("nonnil", mkSym("ioerror"))
		}
	}
	if m.policy != nil {
		if r := m.policy(n, name, p); r != nil {
			return r
		}
	}
	return tNil
}

// write puts bytes at an offset
func overwrite(old, off, data *T) *T {
	if off == seqLen(old) {
		return seqCat(append(append([]*T{}, old.a...), data.a...)...)
	}
	end := add(off, seqLen(data))
	head, ok := seqSlice(old, mkInt(0), off, bddTrue)
	if !ok {
		return nil
	}
	whole := seqCat(append(append([]*T{}, head.a...), data.a...)...)
	longer := le(seqLen(old), end)
	if longer == bddTrue {
		return whole
	}
	tail := sliceOrOpaque(old, end, sub(seqLen(old), end), bddNot(longer))
	return seqIte(longer, whole, seqCat(append(append([]*T{}, whole.a...), tail.a...)...))
}

func (m *fsModel) str(st *State, t *T) (string, bool) {
	s, ok := asConstString(assume(m.w.in.content(st, t), st.pc))
	if !ok {
		m.w.fail("file name not known: %s", cut(t.String(), 100))
	}
	return filepath.Clean(s), ok
}

func (m *fsModel) partial(n int) *T { return seqAtom(mkSym(fmt.Sprint("partialwrite", n))) }

func (m *fsModel) writeFile(in *Interp, st *State, c *callCtx) (*T, bool) {
	p, ok := m.str(st, c.args[0])
	if !ok {
		return nil, false
	}
	data := in.content(st, c.args[1])
	bad := mkOp("nonnil", mkSym("ioerror"))
	err := m.op(st, c, "write", p)
	if st.pc == bddFalse {
		if m.crashed != nil {
			m.set(m.crashed, bddTrue, p, m.partial(m.ops))
		}
		return tNil, true
	}
	dir := m.is(st, "dir", filepath.Dir(p))
	err = ite(dir, err, bad)
	if perm, k := m.perm[p]; k && perm&0200 == 0 {
		err = ite(m.is(st, "file", p), bad, err)
	}
	if _, k := m.perm[p]; !k && len(c.args) > 2 && c.args[2].k == KConst {
		m.perm[p] = c.args[2].i
	}
	good := isNil(err)
	m.set(st, dir, p, seqIte(good, data, m.partial(m.ops)))
	return err, true
}

func (m *fsModel) openFile(in *Interp, st *State, c *callCtx, name *T, flag, perm int64) (*T, bool) {
	p, ok := m.str(st, name)
	if !ok {
		return nil, false
	}
	bad := mkOp("nonnil", mkSym("ioerror"))
	err := m.op(st, c, "open", p)
	if st.pc == bddFalse {
		return mkTuple(tNil, bad), true
	}
	ex := m.is(st, "file", p)
	if flag&0x40 == 0 {
		err = ite(ex, err, mkOp("nonnil", mkSym("notexist")))
	} else {
		err = ite(m.is(st, "dir", filepath.Dir(p)), err, bad)
		if flag&0x80 != 0 {
			err = ite(ex, bad, err)
		}
	}
	if v, k := m.perm[p]; k && (flag&3 == 0 && v&0400 == 0 || flag&3 == 1 && v&0200 == 0) {
		err = ite(ex, bad, err)
	}
	good := isNil(err)
	if flag&0x40 != 0 {
		if _, k := m.perm[p]; !k {
			m.perm[p] = perm
		}
		m.set(st, bddAnd(good, bddNot(ex)), p, seqEmpty)
	}
	if flag&0x200 != 0 {
		m.set(st, good, p, seqEmpty)
	}
	m.nfd++
	d := &fdesc{path: p, flag: flag, obj: getObj(fmt.Sprintf("fd%d:%s", m.nfd, p), derefT(c.sig.Results().At(0).Type())), off: getObj(fmt.Sprintf("fdoff%d:%s", m.nfd, p), nil), open: getObj(fmt.Sprintf("fdopen%d:%s", m.nfd, p), nil)}
	d.pc = bddAnd(st.pc, good)
	m.fds[d.obj] = d
	m.opened = append(m.opened, d)
	st.heap[d.off] = mkInt(0)
	st.heap[d.open] = mkB(good)
	return mkTuple(ite(good, mkPtr(d.obj), tNil), err), true
}

func (m *fsModel) fd(st *State, v *T) *fdesc {
	v = assume(v, st.pc)
	if v.k == KIface {
		v = assume(v.a[0], st.pc)
	}
	if v.k == KPtr {
		return m.fds[v.obj]
	}
	return nil
}

func (m *fsModel) rest(st *State, d *fdesc) *T {
	s := m.content(st, d.path)
	off := assume(st.heap[d.off], st.pc)
	return sliceOrOpaque(s, off, sub(seqLen(s), off), xpc(st.pc))
}

// put writes through a handle; false when the handle does not allow it
func (m *fsModel) put(st *State, d *fdesc, data *T) bool {
	if d.flag&3 == 0 {
		return false
	}
	s := m.content(st, d.path)
	off := assume(st.heap[d.off], st.pc)
	if d.flag&0x400 != 0 {
		off = seqLen(s)
	}
	n := overwrite(s, off, data)
	if n == nil {
		m.w.fail("write not understood")
		return true
	}
	st.heap[m.cell("file", d.path)] = n
	st.heap[d.off] = add(off, seqLen(data))
	return true
}

func (m *fsModel) closed(st *State, d *fdesc) *BDD {
	return bddNot(truth(assume(st.heap[d.open], st.pc)))
}

func (m *fsModel) install() {
	w := m.w
	h := w.in.hooks
	bad := mkOp("nonnil", mkSym("ioerror"))
	h["os.TempDir"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return constString(fsRoot), true }
	mkdir := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		if !ok {
			return nil, false
		}
		err := m.op(st, c, "mkdir", p)
		if st.pc == bddFalse {
			return tNil, true
		}
		for d := p; d != "/" && d != fsRoot; d = filepath.Dir(d) {
			e := m.cell("direxists", d)
			old, ok := st.heap[e]
			if !ok {
				old = mkB(bddFalse)
			}
			if len(c.args) > 1 && c.args[1].k == KConst && c.args[1].i&0700 != 0700 {
				m.locked[d] = true
			}
			st.heap[e] = ite(isNil(err), mkB(bddTrue), old)
		}
		return err, true
	}
	h["os.MkdirAll"] = mkdir
	h["os.WriteFile"], h["io/ioutil.WriteFile"] = m.writeFile, m.writeFile
	h["os.OpenFile"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if c.args[1].k != KConst || c.args[2].k != KConst {
			return nil, false
		}
		return m.openFile(in, st, c, c.args[0], c.args[1].i, c.args[2].i)
	}
	h["os.Open"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		return m.openFile(in, st, c, c.args[0], 0, 0)
	}
	h["os.Create"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		return m.openFile(in, st, c, c.args[0], 0x242, 0666)
	}
	h["os.Remove"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		if !ok {
			return nil, false
		}
		err := m.op(st, c, "remove", p)
		if st.pc == bddFalse {
			return tNil, true
		}
		ex := m.is(st, "file", p)
		err = ite(ex, err, mkOp("nonnil", mkSym("notexist")))
		m.unset(st, isNil(err), p)
		return err, true
	}
	h["os.Rename"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		q, ok2 := m.str(st, c.args[1])
		if !ok || !ok2 {
			return nil, false
		}
		err := m.op(st, c, "rename", p)
		if st.pc == bddFalse {
			return tNil, true
		}
		err = ite(m.is(st, "file", p), err, bad)
		good := isNil(err)
		m.set(st, good, q, m.content(st, p))
		m.unset(st, good, p)
		m.perm[q] = m.perm[p]
		return err, true
	}
	readFile := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		if !ok {
			return nil, false
		}
		err := m.op(st, c, "read", p)
		if st.pc == bddFalse {
			return mkTuple(tNil, bad), true
		}
		err = ite(m.is(st, "file", p), err, mkOp("nonnil", mkSym("notexist")))
		s := m.content(st, p)
		return mkTuple(ite(isNil(err), in.newSeqSlice(c.key(in, "file")+p, s, bytesType, st), tNil), err), true
	}
	h["os.ReadFile"], h["io/ioutil.ReadFile"] = readFile, readFile
	h["os.IsNotExist"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		e := assume(c.args[0], st.pc)
		switch {
		case e.k == KNil:
			return mkB(bddFalse), true
		case e.isOp("nonnil"):
			return mkB(boolBDD(e.a[0].op == "notexist")), true
		case e.isOp("perr"):
			return mkB(bddFalse), true
		}
		return nil, false
	}
	// handles
	h["(*os.File).Close"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		d := m.fd(st, c.args[0])
		if d == nil {
			if assume(c.args[0], st.pc).k == KNil {
				return bad, true
			}
			return nil, false
		}
		was := m.closed(st, d)
		st.heap[d.open] = mkB(bddFalse)
		return ite(was, bad, tNil), true
	}
	h["(*os.File).Write"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		d := m.fd(st, c.args[0])
		if d == nil {
			return nil, false
		}
		data := in.content(st, c.args[1])
		return m.transfer(st, c, d, data, nil), true
	}
	h["(*os.File).Sync"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return m.op(st, c, "sync", ""), true }
	h["(*os.File).Name"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		if d := m.fd(st, c.args[0]); d != nil {
			return constString(d.path), true
		}
		return nil, false
	}
	h["io.Copy"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
		d := m.fd(st, c.args[0])
		var data *T
		var src *fdesc
		if src = m.fd(st, c.args[1]); src != nil {
			data = m.rest(st, src)
		}
		if d == nil || data == nil {
			return nil, false
		}
		return m.transfer(st, c, d, data, src), true
	}
	readAll := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		src := m.fd(st, c.args[0])
		if src == nil {
			return nil, false
		}
		err := m.op(st, c, "read", src.path)
		if st.pc == bddFalse {
			return mkTuple(tNil, bad), true
		}
		err = ite(m.closed(st, src), bad, err)
		data := seqIte(isNil(err), m.rest(st, src), m.partial(m.ops))
		st.heap[src.off] = seqLen(m.content(st, src.path))
		m.nfd++
		return mkTuple(in.newSeqSlice(fmt.Sprint(c.key(in, "data"), m.nfd), data, bytesType, st), err), true
	}
	if _, ok := h["io.ReadAll"]; !ok {
		h["io.ReadAll"], h["io/ioutil.ReadAll"] = readAll, readAll
	}
	// listing
	readDir := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		if !ok {
			return nil, false
		}
		err := m.op(st, c, "walk", p)
		if st.pc == bddFalse {
			return mkTuple(tNil, bad), true
		}
		err = ite(m.is(st, "dir", p), err, mkOp("nonnil", mkSym("notexist")))
		var us []*T
		for _, f := range m.under(p) {
			switch m.is(st, "file", f) {
			case bddTrue:
				us = append(us, unit(infoTerm(f, false)))
			case bddFalse:
			default:
				m.w.fail("contents of a directory not known")
			}
		}
		m.nfd++
		return mkTuple(ite(isNil(err), in.newSeqSlice(fmt.Sprint(c.key(in, "dir"), m.nfd), seqCat(us...), c.sig.Results().At(0).Type(), st), tNil), err), true
	}
	h["os.ReadDir"], h["io/ioutil.ReadDir"] = readDir, readDir
	h["path/filepath.Walk"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return m.walk(in, st, c, false) }
	h["path/filepath.WalkDir"] = func(in *Interp, st *State, c *callCtx) (*T, bool) { return m.walk(in, st, c, true) }
	for _, n := range []string{"io/fs.FileInfo", "io/fs.DirEntry", "os.FileInfo", "os.DirEntry"} {
		h["invoke:("+n+").Name"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			if p, _, ok := infoOf(c.recv); ok {
				return constString(filepath.Base(p)), true
			}
			return nil, false
		}
		h["invoke:("+n+").IsDir"] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			if _, dir, ok := infoOf(c.recv); ok {
				return mkB(boolBDD(dir)), true
			}
			return nil, false
		}
	}
	stat := func(in *Interp, st *State, c *callCtx) (*T, bool) {
		p, ok := m.str(st, c.args[0])
		if !ok {
			return nil, false
		}
		err := m.op(st, c, "stat", p)
		if st.pc == bddFalse {
			return mkTuple(tNil, bad), true
		}
		f, d := m.is(st, "file", p), m.is(st, "dir", p)
		err = ite(bddOr(f, d), err, mkOp("nonnil", mkSym("notexist")))
		return mkTuple(ite(isNil(err), infoTerm(p, d == bddTrue), tNil), err), true
	}
	h["os.Stat"], h["os.Lstat"] = stat, stat
	// pure functions of names
	for n, f := range map[string]interface{}{
		"path/filepath.Ext": filepath.Ext, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean,
		"path/filepath.Join": filepath.Join, "path.Join": path.Join, "path.Ext": path.Ext, "path.Base": path.Base, "path.Dir": path.Dir,
		"path/filepath.Match": filepath.Match, "path.Match": path.Match,
		"strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
		"strings.TrimSuffix": strings.TrimSuffix, "strings.TrimPrefix": strings.TrimPrefix, "strings.Contains": strings.Contains, "strings.Index": strings.Index,
		"strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte, "strings.LastIndexByte": strings.LastIndexByte, "strings.Count": strings.Count,
		"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
		"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.Join": strings.Join,
	} {
		h[n] = m.fold(f)
	}
	h["sort.Slice"] = m.sortSlice
	h["sort.SliceStable"] = m.sortSlice
}

var bytesType = types.NewSlice(types.Typ[types.Byte])

func boolBDD(b bool) *BDD {
	if b {
		return bddTrue
	}
	return bddFalse
}

// transfer writes data, read from src, through d
func (m *fsModel) transfer(st *State, c *callCtx, d *fdesc, data *T, src *fdesc) *T {
	bad := mkOp("nonnil", mkSym("ioerror"))
	err := m.op(st, c, "copy", d.path)
	if st.pc == bddFalse {
		if m.crashed != nil {
			m.put(m.crashed, d, m.partial(m.ops))
		}
		return mkTuple(mkInt(0), bad)
	}
	err = ite(m.closed(st, d), bad, err)
	if src != nil {
		err = ite(m.closed(st, src), bad, err)
		st.heap[src.off] = seqLen(m.content(st, src.path))
	}
	if d.flag&3 == 0 {
		err = bad
	} else {
		m.put(st, d, seqIte(isNil(err), data, m.partial(m.ops)))
	}
	return mkTuple(ite(isNil(err), seqLen(data), mkInt(0)), err)
}

func infoTerm(p string, dir bool) *T {
	k := "file"
	if dir {
		k = "dir"
	}
	return mkOp("nonnil", mkSym("info"+k+":"+p))
}

func infoOf(t *T) (string, bool, bool) {
	if t == nil || !t.isOp("nonnil") {
		return "", false, false
	}
	if s := t.a[0].op; strings.HasPrefix(s, "infofile:") {
		return s[9:], false, true
	} else if strings.HasPrefix(s, "infodir:") {
		return s[8:], true, true
	}
	return "", false, false
}

// under: files below a directory, in order of names
func (m *fsModel) under(root string) []string {
	var files []string
	for _, p := range m.paths {
		if strings.HasPrefix(p, root+"/") {
			files = append(files, p)
		}
	}
	sort.Slice(files, func(i, j int) bool {
		return strings.Replace(files[i], "/", "\x00", -1) < strings.Replace(files[j], "/", "\x00", -1)
	})
	return files
}

// walk calls a function for every file under a directory, in order of names
func (m *fsModel) walk(in *Interp, st *State, c *callCtx, entries bool) (*T, bool) {
	root, ok := m.str(st, c.args[0])
	if !ok {
		return nil, false
	}
	fnv := c.args[1]
	if fnv.k != KFn {
		return nil, false
	}
	var errT types.Type = types.Universe.Lookup("error").Type()
	n := 0
	call := func(s *State, p string, info, err *T) *T {
		n++
		old := c.fr.ctx
		c.fr.ctx = fmt.Sprintf("%s/walk%d", old, n)
		r := in.callStatic(c.fr, s, c.ins, fnv.fn, fnv.a, []*T{constString(p), info, err}, fnv.fn.Signature, errT)
		c.fr.ctx = old
		return r
	}
	err := m.op(st, c, "walk", root)
	if st.pc == bddFalse {
		return tNil, true
	}
	files := m.under(root)
	stop := func(s *State, r *T, next func(*State) *T) *T {
		if s.pc == bddFalse {
			return tNil
		}
		switch d := in.decide(isNil(r), s); d {
		case bddTrue:
			return next(s)
		case bddFalse:
			return r
		default:
			return in.fork(s, d, next, func(*State) *T { return r })
		}
	}
	var visit func(s *State, i int) *T
	visit = func(s *State, i int) *T {
		if i == len(files) {
			return tNil
		}
		next := func(s *State) *T { return visit(s, i+1) }
		one := func(s *State) *T {
			return stop(s, call(s, files[i], infoTerm(files[i], false), tNil), next)
		}
		switch ex := m.is(s, "file", files[i]); ex {
		case bddFalse:
			return next(s)
		case bddTrue:
			return one(s)
		default:
			return in.fork(s, ex, one, next)
		}
	}
	there := func(s *State) *T {
		return stop(s, call(s, root, infoTerm(root, true), tNil), func(s *State) *T { return visit(s, 0) })
	}
	fails := func(s *State) *T { return call(s, root, tNil, err) }
	missing := func(s *State) *T { return call(s, root, tNil, mkOp("nonnil", mkSym("notexist"))) }
	exists := func(s *State) *T {
		switch d := in.decide(isNil(err), s); d {
		case bddTrue:
			return there(s)
		case bddFalse:
			return fails(s)
		default:
			return in.fork(s, d, there, fails)
		}
	}
	switch d := m.is(st, "dir", root); d {
	case bddTrue:
		return exists(st), true
	case bddFalse:
		return missing(st), true
	default:
		return in.fork(st, d, exists, missing), true
	}
}

// fold: a pure function of constant strings
func (m *fsModel) fold(f interface{}) func(in *Interp, st *State, c *callCtx) (*T, bool) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	return func(in *Interp, st *State, c *callCtx) (*T, bool) {
		var args []reflect.Value
		for i, a := range c.args {
			var pt reflect.Type
			if i < ft.NumIn() {
				pt = ft.In(i)
			}
			if pt == nil {
				return nil, false
			}
			switch pt.Kind() {
			case reflect.String:
				s, ok := asConstString(assume(in.content(st, a), st.pc))
				if !ok {
					return nil, false
				}
				args = append(args, reflect.ValueOf(s))
			case reflect.Slice:
				c := assume(in.content(st, a), st.pc)
				if c.k != KSeq {
					return nil, false
				}
				var l []string
				for _, g := range c.a {
					if !g.isOp("unit") {
						return nil, false
					}
					s, ok := asConstString(assume(g.a[0], st.pc))
					if !ok {
						return nil, false
					}
					l = append(l, s)
				}
				args = append(args, reflect.ValueOf(l))
			case reflect.Int, reflect.Uint8:
				a = assume(a, st.pc)
				if a.k != KConst {
					return nil, false
				}
				args = append(args, reflect.ValueOf(a.i).Convert(pt))
			default:
				return nil, false
			}
		}
		var out []reflect.Value
		if ft.IsVariadic() {
			out = fv.CallSlice(args)
		} else {
			out = fv.Call(args)
		}
		var res []*T
		for _, o := range out {
			switch o.Kind() {
			case reflect.String:
				res = append(res, constString(o.String()))
			case reflect.Bool:
				res = append(res, mkB(boolBDD(o.Bool())))
			case reflect.Int:
				res = append(res, mkInt(o.Int()))
			case reflect.Slice:
				var us []*T
				for i := 0; i < o.Len(); i++ {
					us = append(us, unit(constString(o.Index(i).String())))
				}
				m.nfd++
				res = append(res, in.newSeqSlice(fmt.Sprint(c.key(in, "strings"), m.nfd), seqCat(us...), types.NewSlice(types.Typ[types.String]), st))
			case reflect.Interface:
				if !o.IsNil() {
					return nil, false
				}
				res = append(res, tNil)
			}
		}
		if len(res) == 1 {
			return res[0], true
		}
		return mkTuple(res...), true
	}
}

// sortSlice: insertion sort with the given comparison
func (m *fsModel) sortSlice(in *Interp, st *State, c *callCtx) (*T, bool) {
	x := ifaceVal(assume(c.args[0], st.pc))
	x = assume(x, st.pc)
	less := c.args[1]
	if x.k != KSlice || less.k != KFn || x.a[0].k != KPtr || !x.a[1].isInt(0) {
		return nil, false
	}
	s := in.content(st, x)
	if s.k != KSeq {
		return nil, false
	}
	for _, g := range s.a {
		if !g.isOp("unit") {
			return nil, false
		}
	}
	n := len(s.a)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := in.callStatic(c.fr, st, c.ins, less.fn, less.a, []*T{mkInt(int64(j)), mkInt(int64(j - 1))}, less.fn.Signature, types.Typ[types.Bool])
			d := in.decide(truth(r), st)
			if d != bddTrue && d != bddFalse {
				m.w.fail("order not known")
				return nil, false
			}
			if d == bddFalse {
				break
			}
			u := in.content(st, x).a
			v := append([]*T{}, u...)
			v[j], v[j-1] = v[j-1], v[j]
			base := in.load(st, x.a[0], nil)
			st.heap[x.a[0].obj] = seqCat(append(v, base.a[n:]...)...)
		}
	}
	return nil, true
}
