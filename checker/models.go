package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Models of the standard library and third-party functions the analysed code
// relies on.  Each gives the value semantics of the call on terms.

type model func(in *Interp, st *State, c *callCtx) (*T, bool)

var models map[string]model

// rtMode: the assumptions of the round-trip rules hold (strings carry no NUL,
// fit their fixed-size fields)
var rtMode bool
var rtAssumed = map[string]bool{}

func errSym(pkgvar string) *T {
	s := mkSym(pkgvar)
	nonNilSyms[s] = true
	return s
}

func ptrLoad(in *Interp, st *State, p *T) *T { return in.load(st, p, nil) }

// new object holding v
func (in *Interp) newObj(c *callCtx, tag string, typ types.Type, v *T, st *State) *T {
	o := getObj(c.key(in, tag), typ)
	if len(in.loops) > 0 {
		o.loop = in.loops[len(in.loops)-1]
	} else {
		o.loop = nil
	}
	st.heap[o] = v
	return mkPtr(o)
}

func resType(c *callCtx, i int) types.Type { return c.sig.Results().At(i).Type() }

// onPtr applies f to the object behind p, splitting on gated pointers
func (in *Interp) asReader(st *State, p *T) *T {
	v := in.load(st, p, nil)
	if v.k == KStruct && len(v.a) == 2 {
		return v
	}
	// a reader of unknown origin
	s := in.fromAtom(mkOp("rdata", p), types.NewSlice(types.Typ[types.Byte]))
	off := mkOpR(0, true, 0, false, "roff", p)
	atomFacts[off] = []*T{sub(off, s.a[2])}
	v = mkStruct(s, off)
	in.store(st, p, v, nil)
	return v
}

func readerLen(v *T, pc *BDD) *T {
	n := v.a[0].a[2]
	i := v.a[1]
	if proveLe0(sub(i, n), pc) {
		return sub(n, i)
	}
	return minMax("max", sub(n, i), mkInt(0), pc)
}

func (in *Interp) bufContent(st *State, p *T) *T {
	v := in.load(st, p, nil)
	if v.k == KSeq {
		return v
	}
	if v.k == KStruct && len(v.a) == 0 {
		return seqEmpty
	}
	s := seqAtom(v)
	in.store(st, p, s, nil)
	return s
}

func bufWrite(in *Interp, st *State, c *callCtx, p, data *T) {
	in.store(st, p, seqCat(in.bufContent(st, p), data), nil)
}

func init() {
	models = map[string]model{
		"bytes.NewBuffer": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			p := in.newObj(c, "buf", derefT(resType(c, 0)), in.content(st, c.args[0]), st)
			if o := sliceObj(c.args[0]); o != nil {
				p.obj.alias = o
			}
			return p, true
		},
		"(*bytes.Buffer).Write": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			d := in.content(st, c.args[1])
			bufWrite(in, st, c, c.args[0], d)
			return mkTuple(seqLen(d), tNil), true
		},
		"(*bytes.Buffer).WriteString": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			d := in.content(st, c.args[1])
			bufWrite(in, st, c, c.args[0], d)
			return mkTuple(seqLen(d), tNil), true
		},
		"(*bytes.Buffer).WriteByte": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			bufWrite(in, st, c, c.args[0], seqCat(unit(c.args[1])))
			return tNil, true
		},
		"(*bytes.Buffer).Grow": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			in.obligC(c.fr, st, c.ins, "grow", proveNonNeg(c.args[1], xpc(st.pc)), le0(neg(c.args[1])), "Buffer.Grow with a possibly negative count "+c.args[1].String())
			if in.allocHook != nil && in.quiet == 0 {
				in.allocHook(in, st, c.ins, c.args[1])
			}
			return nil, true
		},
		"(*bytes.Buffer).Len": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return seqLen(in.bufContent(st, c.args[0])), true
		},
		"(*bytes.Buffer).String": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return in.bufContent(st, c.args[0]), true
		},
		"(*bytes.Buffer).Reset": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			in.store(st, c.args[0], seqEmpty, nil)
			return nil, true
		},
		"(*bytes.Buffer).Truncate": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := in.bufContent(st, c.args[0])
			n := c.args[1]
			pc := xpc(st.pc)
			in.obligC(c.fr, st, c.ins, "truncate", proveNonNeg(n, pc) && proveLe0(sub(n, seqLen(s)), pc), bddAnd(le0(neg(n)), le(n, seqLen(s))), "Buffer.Truncate("+n.String()+") outside 0..Len")
			in.store(st, c.args[0], sliceOrOpaque(s, mkInt(0), n, pc), nil)
			return nil, true
		},
		"(*bytes.Buffer).Next": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := in.bufContent(st, c.args[0])
			pc := xpc(st.pc)
			in.obligC(c.fr, st, c.ins, "next", proveNonNeg(c.args[1], pc), le0(neg(c.args[1])), "Buffer.Next with a possibly negative count "+c.args[1].String())
			n := minMax("min", c.args[1], seqLen(s), pc)
			head := sliceOrOpaque(s, mkInt(0), n, pc)
			in.store(st, c.args[0], sliceOrOpaque(s, n, sub(seqLen(s), n), pc), nil)
			r := in.newSeqSlice(c.key(in, "next"), head, resType(c, 0), st)
			if c.args[0].k == KPtr {
				r.a[0].obj.alias = c.args[0].obj
			}
			return r, true
		},
		"(*bytes.Buffer).Bytes": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := in.bufContent(st, c.args[0])
			p := c.args[0]
			n := seqLen(s)
			return mkSlice(p, mkInt(0), n, mkOpR(0, true, 0, false, "cap", p)), true
		},
		"bytes.NewReader": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := c.args[0]
			if s.k != KSlice {
				s = in.newSeqSlice(c.key(in, "rd"), in.content(st, s), c.sig.Params().At(0).Type(), st)
			}
			return in.newObj(c, "reader", derefT(resType(c, 0)), mkStruct(s, mkInt(0)), st), true
		},
		"(*bytes.Reader).Len": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.asReader(st, c.args[0])
			return readerLen(v, xpc(st.pc)), true
		},
		"(*bytes.Reader).ReadByte": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.asReader(st, c.args[0])
			s, i := v.a[0], v.a[1]
			eof := in.decide(le0(sub(s.a[2], i)), st)
			e := errSym("io.EOF")
			if eof == bddTrue {
				return mkTuple(mkInt(0), e), true
			}
			cond := bddNot(eof)
			s2 := st.clone()
			s2.pc = bddAnd(st.pc, cond)
			b := in.elemAt(s2, in.load(s2, s.a[0], nil), add(s.a[1], i), types.Typ[types.Byte])
			ni := addc(i, 1)
			if eof != bddFalse {
				ni = ite(cond, ni, i)
				b = ite(cond, b, mkInt(0))
			}
			in.store(st, c.args[0], mkStruct(s, ni), nil)
			return mkTuple(b, ite(eof, e, tNil)), true
		},
		"(*bytes.Reader).Read": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.asReader(st, c.args[0])
			s, i := v.a[0], v.a[1]
			eof := in.decide(le0(sub(s.a[2], i)), st)
			e := errSym("io.EOF")
			do := func(x *State) *T {
				src := mkSlice(s.a[0], add(s.a[1], i), sub(s.a[2], i), sub(s.a[3], i))
				n := in.copySlice(c.fr, x, c.ins, []*T{c.args[1], src})
				in.store(x, c.args[0], mkStruct(s, add(i, n)), nil)
				return mkTuple(n, tNil)
			}
			if eof == bddTrue {
				return mkTuple(mkInt(0), e), true
			}
			if eof == bddFalse {
				return do(st), true
			}
			return in.fork(st, eof, func(x *State) *T { return mkTuple(mkInt(0), e) }, do), true
		},
		"(*bytes.Reader).Seek": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.asReader(st, c.args[0])
			var abs *T
			switch {
			case c.args[2].isInt(0):
				abs = c.args[1]
			case c.args[2].isInt(1):
				abs = add(v.a[1], c.args[1])
			case c.args[2].isInt(2):
				abs = add(v.a[0].a[2], c.args[1])
			default:
				return nil, false
			}
			neg := in.decide(le0(addc(abs, 1)), st)
			ni := ite(neg, v.a[1], abs)
			in.store(st, c.args[0], mkStruct(v.a[0], ni), nil)
			return mkTuple(ite(neg, mkInt(0), abs), ite(neg, mkOp("nonnil", mkSym("seekerr")), tNil)), true
		},
		"bytes.IndexByte": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return indexByte(in.content(st, c.args[0]), c.args[1], xpc(st.pc)), true
		},
		"bytes.Equal": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkB(eqTerm(in.content(st, c.args[0]), in.content(st, c.args[1]))), true
		},
		"io/ioutil.ReadAll": readAll,
		"io.ReadAll":        readAll,
		"golang.org/x/text/transform.NewReader": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("nonnil", mkOp("xform", c.args[0], c.args[1])), true
		},
		"invoke:(golang.org/x/text/encoding.Encoding).NewEncoder": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("nonnil", mkOp("enc", c.recv)), true
		},
		"invoke:(golang.org/x/text/encoding.Encoding).NewDecoder": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("nonnil", mkOp("dec", c.recv)), true
		},
		"(*golang.org/x/text/encoding.Encoder).Bytes":  func(in *Interp, st *State, c *callCtx) (*T, bool) { return xbytes(in, st, c, false) },
		"(*golang.org/x/text/encoding.Decoder).Bytes":  func(in *Interp, st *State, c *callCtx) (*T, bool) { return xbytes(in, st, c, false) },
		"(*golang.org/x/text/encoding.Encoder).String": func(in *Interp, st *State, c *callCtx) (*T, bool) { return xbytes(in, st, c, true) },
		"(*golang.org/x/text/encoding.Decoder).String": func(in *Interp, st *State, c *callCtx) (*T, bool) { return xbytes(in, st, c, true) },
		"errors.New": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("nonnil", mkOp("error", c.args[0])), true
		},
		"fmt.Errorf": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("nonnil", mkOp("error", c.args[0])), true
		},
		"fmt.Sprintf": sprintf,
		"reflect.ValueOf": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("rv", c.args[0]), true
		},
		"(reflect.Value).IsNil": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := c.args[0]
			if v.isOp("rv") {
				return mkB(payloadNil(v.a[0])), true
			}
			return nil, false
		},
		"time.Unix": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			if c.args[0].isOp("unixsec") && c.args[1].isInt(0) {
				return mkOp("sectrunc", c.args[0].a[0]), true
			}
			return mkOp("tunix", c.args...), true
		},
		"(time.Time).Unix": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			t := mkOp("unixsec", c.args[0])
			typeRange(t, -64)
			return t, true
		},
		"(time.Time).Format": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			l, ok := asConstString(c.args[1])
			if !ok {
				return nil, false
			}
			return formatTime(c.args[0], l), true
		},
		"time.ParseInLocation": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			l, ok := asConstString(c.args[0])
			if !ok {
				return nil, false
			}
			op := mkOp("parsetime:"+l, in.content(st, c.args[1]), c.args[2])
			if s := simplifyOp(op); s != nil {
				return mkTuple(s, tNil), true
			}
			return mkTuple(op, mkOp("perr", op)), true
		},
		"(time.Time).Hour":       clock("hour", 23),
		"(time.Time).Minute":     clock("minute", 59),
		"(time.Time).Second":     clock("second", 59),
		"(time.Time).Nanosecond": clock("nanosecond", 999999999),
		"strconv.FormatUint":     formatInt,
		"strconv.FormatInt":      formatInt,
		"strconv.Itoa": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return decimalOf(c.args[0]), true
		},
		"strconv.ParseUint": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := in.content(st, c.args[0])
			if k, ok := asConstString(s); ok && c.args[1].isInt(10) {
				if n, err := strconv.ParseInt(k, 10, 64); err == nil && n >= 0 {
					return mkTuple(mkInt(n), tNil), true
				}
			}
			if v := parseDecimal(s); v != nil && c.args[1].isInt(10) {
				return mkTuple(v, tNil), true
			}
			op := mkOp("parseuint", s, c.args[1], c.args[2])
			op.setRange(0, true, 0, false)
			return mkTuple(op, mkOp("perr", op)), true
		},
		"strconv.Atoi": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			s := in.content(st, c.args[0])
			if v := parseDecimal(s); v != nil {
				return mkTuple(v, tNil), true
			}
			op := mkOp("atoi", s)
			typeRange(op, -64)
			return mkTuple(op, mkOp("perr", op)), true
		},
		"crypto/sha1.New":               hashNew(20),
		"crypto/sha256.New":             hashNew(32),
		"(*crypto/rsa.PublicKey).Size":  rsaSize,
		"(crypto/rsa.PublicKey).Size":   rsaSize,
		"(*crypto/rsa.PrivateKey).Size": rsaSize,
		"invoke:(hash.Hash).Size": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			if c.recv.isOp("nonnil") && strings.HasPrefix(c.recv.a[0].op, "hash:") {
				n := int64(0)
				fmt.Sscan(c.recv.a[0].op[5:], &n)
				return mkInt(n), true
			}
			op := mkOp("hashsize", c.recv)
			op.setRange(1, true, 64, true)
			return op, true
		},
		"math.Abs": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return mkOp("fabs", c.args[0]), true
		},
		"compress/gzip.NewWriter": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return in.newObj(c, "gz", derefT(resType(c, 0)), mkStruct(c.args[0], seqEmpty), st), true
		},
		"(*compress/gzip.Writer).Write": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.load(st, c.args[0], nil)
			d := in.content(st, c.args[1])
			if v.k == KStruct && len(v.a) == 2 {
				in.store(st, c.args[0], mkStruct(v.a[0], seqCat(v.a[1], d)), nil)
			}
			return mkTuple(seqLen(d), tNil), true
		},
		"(*compress/gzip.Writer).Close": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			v := in.load(st, c.args[0], nil)
			if v.k == KStruct && len(v.a) == 2 && v.a[0].k == KIface {
				bufWrite(in, st, c, v.a[0].a[0], seqAtom(mkOp("gzip", v.a[1])))
			}
			return tNil, true
		},
		"compress/gzip.NewReader": func(in *Interp, st *State, c *callCtx) (*T, bool) {
			a := c.args[0]
			if a.k == KIface && typeName(derefSafe(a.typ)) == "bytes.Reader" {
				v := in.asReader(st, a.a[0])
				rest := sliceOrOpaque(in.content(st, v.a[0]), v.a[1], sub(v.a[0].a[2], v.a[1]), xpc(st.pc))
				op := mkOp("gunzip", rest)
				if len(rest.a) == 1 && rest.a[0].isOp("sub") && rest.a[0].a[0].isOp("gzip") && rest.a[0].a[2] == lenOf(rest.a[0].a[0]) {
					op = mkOp("gunzip", rest.a[0].a[0].a[0])
					return mkTuple(in.newObj(c, "gzr", derefT(resType(c, 0)), op, st), tNil), true
				}
				bad := bddNot(isNil(mkOp("perr", op)))
				return mkTuple(ite(bad, tNil, in.newObj(c, "gzr", derefT(resType(c, 0)), op, st)), mkOp("perr", op)), true
			}
			return nil, false
		},
		"(*compress/gzip.Reader).Read":  nilRecv,
		"(*compress/gzip.Reader).Close": nilRecv,
		"(*sync.Mutex).Lock":            evModel("lock"),
		"(*sync.Mutex).Unlock":          evModel("unlock"),
		"(*sync.RWMutex).Lock":          evModel("lock"),
		"(*sync.RWMutex).Unlock":        evModel("unlock"),
		"(*sync.RWMutex).RLock":         evModel("rlock"),
		"(*sync.RWMutex).RUnlock":       evModel("runlock"),
	}
	for _, w := range []struct {
		n string
		b int
	}{{"16", 2}, {"32", 4}, {"64", 8}} {
		w := w
		models["(encoding/binary.bigEndian).PutUint"+w.n] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			putUint(in, st, c, c.args[1], c.args[2], w.b, true)
			return nil, true
		}
		models["(encoding/binary.littleEndian).PutUint"+w.n] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			putUint(in, st, c, c.args[1], c.args[2], w.b, false)
			return nil, true
		}
		models["(encoding/binary.bigEndian).Uint"+w.n] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return getUint(in, st, c, c.args[1], w.b, true), true
		}
		models["(encoding/binary.littleEndian).Uint"+w.n] = func(in *Interp, st *State, c *callCtx) (*T, bool) {
			return getUint(in, st, c, c.args[1], w.b, false), true
		}
	}
}

func derefSafe(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func evModel(name string) model {
	return func(in *Interp, st *State, c *callCtx) (*T, bool) {
		in.event(c.fr, st, c.ins, name, c.args...)
		return nil, true
	}
}

func clock(name string, max int64) model {
	return func(in *Interp, st *State, c *callCtx) (*T, bool) {
		return mkOpR(0, true, max, true, "clock:"+name, c.args[0]), true
	}
}

func payloadNil(v *T) *BDD {
	switch v.k {
	case KIface:
		return isNil(v.a[0])
	case KIte:
		return bddIte(v.a[0].b, payloadNil(v.a[1]), payloadNil(v.a[2]))
	case KNil:
		return bddTrue
	}
	if rtMode {
		rtAssumed["interface values in lists hold non-nil entities"] = true
		return bddFalse
	}
	return bddVar(mkOp("payloadnil", v))
}

func putUint(in *Interp, st *State, c *callCtx, b, v *T, n int, big bool) {
	pc := xpc(st.pc)
	ln := in.sliceLen(b)
	in.obligC(c.fr, st, c.ins, "binary", proveLe0(sub(mkInt(int64(n)), ln), pc), le(mkInt(int64(n)), ln), fmt.Sprintf("needs %d bytes, slice has %s", n, ln))
	for i := 0; i < n; i++ {
		sh := n - 1 - i
		if !big {
			sh = i
		}
		var x *T
		if n <= 4 {
			x = byteAt(v, sh, n*8)
		} else {
			x = in.fromAtom(intern(&T{k: KOp, op: "byte", i: int64(sh), a: []*T{v}}), types.Typ[types.Byte])
		}
		in.store(st, in.sliceElem(st, b, mkInt(int64(i)), types.Typ[types.Byte]), x, types.Typ[types.Byte])
	}
}

func getUint(in *Interp, st *State, c *callCtx, b *T, n int, big bool) *T {
	pc := xpc(st.pc)
	ln := in.sliceLen(b)
	ok := proveLe0(sub(mkInt(int64(n)), ln), pc)
	in.obligC(c.fr, st, c.ins, "binary", ok, le(mkInt(int64(n)), ln), fmt.Sprintf("needs %d bytes, slice has %s", n, ln))
	if !ok {
		st.pc = bddAnd(st.pc, le(mkInt(int64(n)), ln))
	}
	bits := make([]*BDD, n*8)
	for i := 0; i < n; i++ {
		sh := n - 1 - i
		if !big {
			sh = i
		}
		x := in.load(st, in.sliceElem(st, b, mkInt(int64(i)), types.Typ[types.Byte]), types.Typ[types.Byte])
		copy(bits[sh*8:], toBits(x, 8))
	}
	return mkBits(bits)
}

func readAll(in *Interp, st *State, c *callCtx) (*T, bool) {
	r := c.args[0]
	if r.k != KIface {
		return nil, false
	}
	bt := c.sig.Results().At(0).Type()
	src := func(x *T) *T {
		if x.k == KIface && typeName(derefSafe(x.typ)) == "bytes.Reader" {
			v := in.asReader(st, x.a[0])
			d := sliceOrOpaque(in.content(st, v.a[0]), v.a[1], sub(v.a[0].a[2], v.a[1]), xpc(st.pc))
			in.store(st, x.a[0], mkStruct(v.a[0], v.a[0].a[2]), nil)
			return d
		}
		if x.k == KIface && typeName(derefSafe(x.typ)) == "bytes.Buffer" {
			d := in.bufContent(st, x.a[0])
			in.store(st, x.a[0], seqEmpty, nil)
			return d
		}
		return nil
	}
	if d := src(r); d != nil {
		return mkTuple(in.newSeqSlice(c.key(in, "all"), d, bt, st), tNil), true
	}
	if v := r.a[0]; v.isOp("nonnil") && v.a[0].isOp("xform") {
		d := src(v.a[0].a[0])
		if d == nil {
			return nil, false
		}
		out, err := convText(v.a[0].a[1], d)
		if out == nil {
			return nil, false
		}
		return mkTuple(in.newSeqSlice(c.key(in, "all"), out, bt, st), err), true
	}
	if v := r.a[0]; v.k == KPtr {
		if g := in.load(st, v, nil); g.isOp("gunzip") {
			return mkTuple(in.newSeqSlice(c.key(in, "all"), seqAtomOf(g.a[0]), bt, st), mkOp("perr", g)), true
		}
	}
	return nil, false
}

func seqAtomOf(t *T) *T {
	if t.k == KSeq {
		return t
	}
	return seqAtom(t)
}

func xbytes(in *Interp, st *State, c *callCtx, str bool) (*T, bool) {
	out, err := convText(mkIface(types.Typ[types.Int], c.args[0]), in.content(st, c.args[1]))
	if out == nil {
		return nil, false
	}
	if str {
		return mkTuple(out, err), true
	}
	return mkTuple(in.newSeqSlice(c.key(in, "xb"), out, resType(c, 0), st), err), true
}

// convText applies a charset transformer to a byte sequence
func convText(tr, d *T) (*T, *T) {
	if tr.k == KIface {
		tr = tr.a[0]
	}
	if !tr.isOp("nonnil") {
		return nil, nil
	}
	tr = tr.a[0]
	switch {
	case tr.isOp("enc"):
		out := textEnc(tr.a[0], d)
		if len(out.a) == 0 {
			return out, tNil
		}
		return out, mkOp("perr", mkOp("encerr", tr.a[0], d))
	case tr.isOp("dec"):
		out := textDec(tr.a[0], d)
		if len(out.a) == 0 {
			return out, tNil
		}
		if noCharset(out) {
			return out, tNil
		}
		return out, mkOp("perr", mkOp("decerr", tr.a[0], d))
	}
	return nil, nil
}

func noCharset(t *T) bool {
	seen := map[*T]bool{}
	var w func(*T) bool
	w = func(x *T) bool {
		if seen[x] {
			return true
		}
		seen[x] = true
		if x.isOp("tdec") {
			return false
		}
		for _, y := range x.a {
			if !w(y) {
				return false
			}
		}
		return true
	}
	return w(t)
}

func textEnc(cs, d *T) *T {
	if len(d.a) == 0 {
		return d
	}
	if len(d.a) == 1 && d.a[0].isOp("ites") {
		g := d.a[0]
		return seqIte(g.a[0].b, textEnc(cs, g.a[1]), textEnc(cs, g.a[2]))
	}
	return seqAtom(mkOp("tenc", cs, d))
}

func isZeroSeg(s *T) bool {
	if s.isOp("unit") {
		return s.a[0].isInt(0)
	}
	if s.isOp("rep") && len(s.a[2].a) == 1 {
		return isZeroSeg(s.a[2].a[0])
	}
	return false
}

func textDec(cs, d *T) *T {
	if len(d.a) == 0 {
		return d
	}
	n := len(d.a)
	for n > 0 && isZeroSeg(d.a[n-1]) {
		n--
	}
	if n < len(d.a) {
		return seqCat(append([]*T{textDec(cs, seqCat(d.a[:n]...))}, d.a[n:]...)...)
	}
	if len(d.a) == 1 {
		g := d.a[0]
		if g.isOp("ites") {
			return seqIte(g.a[0].b, textDec(cs, g.a[1]), textDec(cs, g.a[2]))
		}
		if g.isOp("sub") && g.a[0].isOp("tenc") && g.a[0].a[0] == cs && g.a[1].isInt(0) {
			if g.a[2] == lenOf(g.a[0]) {
				return seqAtomOf(g.a[0].a[1])
			}
			if rtMode {
				rtAssumed["strings fit the fixed-size fields that carry them"] = true
				return seqAtomOf(g.a[0].a[1])
			}
		}
	}
	return seqAtom(mkOp("tdec", cs, d))
}

// position of byte b in s, or -1
func indexByte(s, b *T, pc *BDD) *T {
	if len(s.a) == 0 {
		return mkInt(-1)
	}
	if len(s.a) == 1 && s.a[0].isOp("ites") {
		g := s.a[0]
		c := g.a[0].b
		return ite(c, indexByte(g.a[1], b, bddAnd(pc, c)), indexByte(g.a[2], b, bddAnd(pc, bddNot(c))))
	}
	for i, g := range s.a {
		if g.isOp("ites") {
			c := g.a[0].b
			alt := func(x *T) *T {
				return seqCat(append(append(append([]*T{}, s.a[:i]...), x.a...), s.a[i+1:]...)...)
			}
			return ite(c, indexByte(alt(g.a[1]), b, bddAnd(pc, c)), indexByte(alt(g.a[2]), b, bddAnd(pc, bddNot(c))))
		}
	}
	if rtMode && b.isInt(0) {
		n := len(s.a)
		for n > 0 && isZeroSeg(s.a[n-1]) {
			n--
		}
		rtAssumed["strings carry no NUL character"] = true
		if n == len(s.a) {
			return mkInt(-1)
		}
		pad := seqLen(seqCat(s.a[n:]...))
		return ite(le0(addc(neg(pad), 1)), seqLen(seqCat(s.a[:n]...)), mkInt(-1))
	}
	op := mkOp("indexbyte", s, b)
	op.setRange(-1, true, 0, false)
	atomFacts[op] = []*T{addc(sub(op, seqLen(s)), 1)}
	return op
}

func formatTime(t *T, layout string) *T {
	digits := true
	for i := 0; i < len(layout); i++ {
		if layout[i] < '0' || layout[i] > '9' {
			digits = false
		}
	}
	op := mkOp("fmttime:"+layout, t)
	if !digits || layout != "20060102150405" && layout != "060102150405" && layout != "20060102" && layout != "150405" {
		return seqAtom(op)
	}
	var segs []*T
	for i := range layout {
		x := mkOp("idx", op, mkInt(int64(i)))
		x.setRange(48, true, 57, true)
		segs = append(segs, unit(x))
	}
	return intern(&T{k: KSeq, a: segs})
}

// the full date and time of t written out again?
func timeDigits(s *T, from int, layout string) *T {
	var t *T
	if len(s.a) != len(layout)-from {
		return nil
	}
	for i, g := range s.a {
		if !g.isOp("unit") || !g.a[0].isOp("idx") {
			return nil
		}
		x := g.a[0]
		if x.a[0].k != KOp || x.a[0].op != "fmttime:"+layout || !x.a[1].isInt(int64(i+from)) {
			return nil
		}
		if t == nil {
			t = x.a[0].a[0]
		} else if t != x.a[0].a[0] {
			return nil
		}
	}
	return t
}

// decimal text parsed back
func parseDecimal(s *T) *T {
	if len(s.a) == 1 && s.a[0].isOp("sub") && s.a[0].a[0].isOp("decimal") && s.a[0].a[1].isInt(0) && s.a[0].a[2] == lenOf(s.a[0].a[0]) {
		return s.a[0].a[0].a[0]
	}
	// all digits of a zero-padded number
	if len(s.a) == 0 {
		return nil
	}
	allc := true
	v := int64(0)
	for _, g := range s.a {
		if !g.isOp("unit") {
			return nil
		}
		if g.a[0].k != KConst || g.a[0].i < '0' || g.a[0].i > '9' {
			allc = false
		} else {
			v = v*10 + g.a[0].i - '0'
		}
	}
	if allc {
		return mkInt(v)
	}
	var x *T
	for len(s.a) > 0 && s.a[0].a[0].isInt('0') {
		s = seqCat(s.a[1:]...)
	}
	n := len(s.a)
	for i, g := range s.a {
		d := addc(g.a[0], -'0')
		if !d.isOp("digit") || d.i != int64(n-1-i) {
			return nil
		}
		if x == nil {
			x = d.a[0]
		} else if x != d.a[0] {
			return nil
		}
	}
	if _, _, hi, hk := rng(x); hk && hi < pow10(n) {
		return x
	}
	return nil
}

func pow10(n int) int64 {
	r := int64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

func mkDigit(x *T, i int) *T {
	t := intern(&T{k: KOp, op: "digit", i: int64(i), a: []*T{x}})
	t.setRange(0, true, 9, true)
	return t
}

// decimalOf: the decimal text of a number
func decimalOf(x *T) *T {
	if x.k == KConst {
		return constString(strconv.FormatInt(x.i, 10))
	}
	if x.k == KIte {
		return ite(x.a[0].b, decimalOf(x.a[1]), decimalOf(x.a[2]))
	}
	s := mkOp("decimal", x)
	if d, ok := fixedLen[s]; ok {
		// a number of exactly d digits
		var us []*T
		for i := d - 1; i >= 0; i-- {
			us = append(us, unit(addc(mkDigit(x, int(i)), '0')))
		}
		return seqCat(us...)
	}
	lenOf(s).setRange(1, true, 20, true)
	return seqAtom(s)
}

// formatInt: strconv.FormatInt and FormatUint
func formatInt(in *Interp, st *State, c *callCtx) (*T, bool) {
	if c.args[1].isInt(10) {
		return decimalOf(c.args[0]), true
	}
	if c.args[0].k == KConst && c.args[1].k == KConst && c.args[1].i >= 2 && c.args[1].i <= 36 {
		return constString(strconv.FormatInt(c.args[0].i, int(c.args[1].i))), true
	}
	return nil, false
}

func hasMethod(t types.Type, names ...string) bool {
	ms := types.NewMethodSet(t)
	for _, n := range names {
		if ms.Lookup(nil, n) != nil {
			return true
		}
	}
	return false
}

// Sprintf of known verbs: numbers in decimal, texts as they are, constants folded
func sprintf(in *Interp, st *State, c *callCtx) (*T, bool) {
	f, ok := asConstString(c.args[0])
	if !ok {
		return nil, false
	}
	args := in.content(st, c.args[1])
	var vals []*T
	for _, g := range args.a {
		if !g.isOp("unit") || g.a[0].k != KIface {
			return nil, false
		}
		vals = append(vals, g.a[0])
	}
	var segs []*T
	vi := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			segs = append(segs, unit(mkInt(int64(f[i]))))
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			segs = append(segs, unit(mkInt('%')))
			i++
			continue
		}
		j := i + 1
		for j < len(f) && (f[j] == '0' || f[j] == '#' || f[j] == '+' || f[j] == '-' || f[j] == ' ') {
			j++
		}
		flags := f[i+1 : j]
		for j < len(f) && f[j] >= '0' && f[j] <= '9' {
			j++
		}
		width := f[i+1+len(flags) : j]
		if j >= len(f) || vi >= len(vals) {
			return nil, false
		}
		v, t := vals[vi].a[0], vals[vi].typ
		verb := f[j]
		vi++
		if t == nil || hasMethod(t, "Format", "GoString") || strings.IndexByte("vsq", verb) >= 0 && hasMethod(t, "Error", "String") {
			return nil, false
		}
		i = j
		if isIntT(t) && strings.IndexByte("dvxXcobq", verb) >= 0 {
			v = assume(v, st.pc)
			switch {
			case v.k == KConst:
				segs = append(segs, constString(fmt.Sprintf("%"+flags+width+string(verb), v.i)).a...)
				continue
			case (verb == 'd' || verb == 'v') && flags == "" && width == "":
				segs = append(segs, decimalOf(v))
				continue
			case verb == 'd' && flags == "0" && len(width) == 1:
				w := int(width[0] - '0')
				lo, lk, hi, hk := rng(v)
				if !lk || !hk || lo < 0 || hi >= pow10(w) {
					return nil, false
				}
				for k := w - 1; k >= 0; k-- {
					segs = append(segs, unit(addc(mkDigit(v, k), '0')))
				}
				continue
			}
			return nil, false
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String && (verb == 's' || verb == 'v') && flags == "" && width == "" {
			segs = append(segs, in.content(st, v))
			continue
		}
		return nil, false
	}
	if vi != len(vals) {
		return nil, false
	}
	return seqCat(segs...), true
}

// ---------------------------------------------------------------- algebraic rules

const dec = "call:(github.com/shopspring/decimal.Decimal)."

func simplifyOp(t *T) *T {
	if t.k != KOp {
		return nil
	}
	// gated arguments of unary-like pure operations distribute
	switch t.op {
	case "tenc":
		if t.a[1].k == KSeq && len(t.a[1].a) == 0 {
			return seqEmpty
		}
	case "tdec":
		if t.a[1].k == KSeq {
			r := textDec(t.a[0], t.a[1])
			if !(len(r.a) == 1 && r.a[0].isOp("sub") && r.a[0].a[0] == t) {
				return r
			}
		}
	case "indexbyte":
		if t.a[0].k == KSeq {
			r := indexByte(t.a[0], t.a[1], bddTrue)
			if r != t {
				return r
			}
		}
	case "xorfold":
		if t.a[0].k == KSeq && !(len(t.a[0].a) == 1 && !t.a[0].a[0].isOp("unit") && !t.a[0].a[0].isOp("ites")) {
			return xorFold(t.a[0], int(t.i))
		}
	case "digit":
		if t.a[0].k == KConst {
			return mkInt(t.a[0].i / pow10(int(t.i)) % 10)
		}
	case "box":
		return nil
	case "fneg":
		return nil
	}
	if strings.HasPrefix(t.op, "parsetime:") {
		layout := t.op[len("parsetime:"):]
		s := t.a[0]
		if s.k == KSeq && layout == "20060102150405" && len(s.a) == 14 {
			if s.a[0] == unit(mkInt('2')) && s.a[1] == unit(mkInt('0')) {
				if x := timeDigits(seqCat(s.a[2:]...), 2, layout); x != nil {
					return mkOp("sectime", stripSec(x))
				}
				if x := timeDigits(seqCat(s.a[2:]...), 0, "060102150405"); x != nil {
					return mkOp("sectime", stripSec(x))
				}
			}
			if x := timeDigits(s, 0, layout); x != nil {
				return mkOp("sectime", stripSec(x))
			}
		}
		if s.k == KSeq && layout == "060102150405" {
			if x := timeDigits(s, 2, "20060102150405"); x != nil {
				return mkOp("sectime", stripSec(x))
			}
			if x := timeDigits(s, 0, layout); x != nil {
				return mkOp("sectime", stripSec(x))
			}
		}
		return nil
	}
	if strings.HasPrefix(t.op, dec) {
		m := t.op[len(dec):]
		// distribute over gates in any decimal argument
		for i, x := range t.a {
			if x.k == KIte {
				a1, a2 := append([]*T(nil), t.a...), append([]*T(nil), t.a...)
				a1[i], a2[i] = x.a[1], x.a[2]
				return ite(x.a[0].b, decOp(t, a1), decOp(t, a2))
			}
		}
		switch m {
		case "Shift":
			if t.a[1].k == KConst && t.a[1].i > 0 && t.a[1].i < 16 {
				return decOp(&T{op: dec + "Mul", typ: t.typ}, []*T{t.a[0], decScale(pow10(int(t.a[1].i)))})
			}
			if t.a[1].k == KConst && t.a[1].i < 0 && t.a[1].i > -16 {
				return decOp(&T{op: dec + "Div", typ: t.typ}, []*T{t.a[0], decScale(pow10(int(-t.a[1].i)))})
			}
		case "Abs":
			if t.a[0].isOp("absgeo") || t.a[0].isOp("neggeo") {
				return mkOp("absgeo", t.a[0].a...)
			}
		case "Mul":
			// a constant factor stands on the right
			if isDecScale(t.a[0]) && !isDecScale(t.a[1]) {
				return decOp(t, []*T{t.a[1], t.a[0]})
			}
			if t.a[0].isOp(dec + "Abs") {
				return decOp(&T{op: dec + "Abs", typ: t.typ}, []*T{decOp(t, []*T{t.a[0].a[0], t.a[1]})})
			}
		case "Div":
			if t.a[0].isOp("call:github.com/shopspring/decimal.NewFromInt") {
				if u := t.a[0].a[0]; u.isOp("micro") && u.a[1] == t.a[1] {
					return mkOp("absgeo", u.a[0], u.a[1])
				}
			}
		case "Sub":
			if t.a[0].k == KSym && t.a[0].op == "github.com/shopspring/decimal.Zero" && t.a[1].isOp("absgeo") {
				return mkOp("neggeo", t.a[1].a...)
			}
		case "Neg":
			if t.a[0].isOp("absgeo") {
				return mkOp("neggeo", t.a[0].a...)
			}
		case "Truncate", "Round":
			if (t.a[0].isOp("absgeo") || t.a[0].isOp("neggeo")) && t.a[1].isInt(6) {
				return t.a[0]
			}
		case "IntPart":
			typeRange(t, -64)
			if t.a[0].isOp(dec + "Abs") {
				return mkOpR(0, true, 0, false, "absint", decOp(t, []*T{t.a[0].a[0]}))
			}
		}
	}
	const mk = "call:github.com/shopspring/decimal."
	if strings.HasPrefix(t.op, mk) {
		switch t.op[len(mk):] {
		case "New":
			if t.a[1].k == KConst && t.a[1].i > -16 && t.a[1].i < 16 {
				n := decOp(&T{op: mk + "NewFromInt", typ: t.typ}, []*T{t.a[0]})
				switch e := t.a[1].i; {
				case e == 0:
					return n
				case t.a[0].k == KConst && e > 0:
					return decScale(t.a[0].i * pow10(int(e)))
				case e > 0:
					return decOp(&T{op: dec + "Mul", typ: t.typ}, []*T{n, decScale(pow10(int(e)))})
				default:
					return decOp(&T{op: dec + "Div", typ: t.typ}, []*T{n, decScale(pow10(int(-e)))})
				}
			}
		case "NewFromInt", "NewFromInt32":
			if t.a[0].k == KConst && t.a[0].i != 0 {
				return decScale(t.a[0].i)
			}
		}
	}
	return nil
}

// decScale is the canonical form of an integral decimal constant
func decScale(n int64) *T {
	return mkOp("call:github.com/shopspring/decimal.NewFromFloat", mkFloat(fmt.Sprint(n)))
}

func isDecScale(t *T) bool {
	return t.isOp("call:github.com/shopspring/decimal.NewFromFloat") && t.a[0].k == KFloat
}

func decOp(t *T, args []*T) *T {
	n := intern(&T{k: KOp, op: t.op, i: t.i, a: args, typ: t.typ})
	n.setRange(t.lo, t.hasLo, t.hi, t.hasHi)
	if s := simplifyOp(n); s != nil {
		return s
	}
	return n
}

func stripSec(t *T) *T {
	for t.isOp("sectrunc") || t.isOp("sectime") {
		t = t.a[0]
	}
	return t
}

// uint32(math.Abs(float64(x.Mul(scale).IntPart()))) is the wire form of a coordinate
func simplifyTrunc(v *T, tw int) *T {
	if v.isOp("fabs") && v.a[0].isOp("float") {
		x := v.a[0].a[0]
		if m := microOf(x); m != nil && tw == 32 {
			m.setRange(0, true, 1<<32-1, true)
			return m
		}
	}
	if v.isOp("float") {
		return v.a[0]
	}
	return nil
}

func microOf(x *T) *T {
	if x.isOp(dec+"IntPart") && x.a[0].isOp(dec+"Mul") {
		m := x.a[0]
		return mkOp("micro", m.a[0], m.a[1])
	}
	return nil
}

// nilRecv: the method dereferences its receiver
func nilRecv(in *Interp, st *State, c *callCtx) (*T, bool) {
	in.nilCheck(c.fr, st, c.ins, c.args[0])
	return nil, false
}

// readCount states the contract of Read-like calls: 0 <= n <= len(p)
func (in *Interp) readCount(st *State, c *callCtx, args []*T, r *T) {
	if r == nil || r.k != KTuple || len(r.a) != 2 {
		return
	}
	bi := -1
	switch {
	case strings.HasSuffix(c.name, ").Read") && c.sig.Params().Len() == 1:
		bi = len(args) - 1
	case c.name == "io.ReadFull" || c.name == "io.ReadAtLeast":
		bi = 1
	}
	if bi < 0 || bi >= len(args) || !isIntT(c.sig.Results().At(0).Type()) {
		return
	}
	n := r.a[0]
	n.setRange(0, true, 0, false)
	atomFacts[n] = append(atomFacts[n], sub(n, in.sliceLen(args[bi])))
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func hashNew(n int) model {
	return func(in *Interp, st *State, c *callCtx) (*T, bool) {
		return mkOp("nonnil", mkOp("hash:"+fmt.Sprint(n), in.ks()...)), true
	}
}

// rsaSize: keys of at least 512 bits are assumed
func rsaSize(in *Interp, st *State, c *callCtx) (*T, bool) {
	in.nilCheck(c.fr, st, c.ins, c.args[0])
	op := mkOp("rsasize", in.pureArg(st, c.args[0]))
	op.setRange(64, true, 1<<16, true)
	return op, true
}
