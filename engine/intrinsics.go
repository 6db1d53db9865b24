package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Trusted contracts of the standard library. Everything registered here is reported as trusted in the evidence.

var posMax = BV(1<<40, 64)

func sub64(a, b *Term) *Term { return Sub(a, b) }
func b64(n uint64) *Term     { return BV(n, 64) }

func tBytes(st *State, e *Engine, s SliceV) *Term { return e.bytesContent(st, s) }

// ---- streams ----
// Every reader/writer is a stream: a rigid array of bytes sdata(ref) with a write position #w and a read
// position #r. Position i of the array is fixed once and for all; writing constrains it.

func sdata(ref *Term) *Term { return App("sdata", sBytes, ref) }

func isStreamType(t types.Type) bool {
	switch typekey(t) {
	case "bytes.Buffer", "bytes.Reader", "strings.Builder", "strings.Reader":
		return true
	}
	return false
}

// streamRef: v is a pointer to a stream object or an interface holding one / an opaque interface
func (e *Engine) streamRef(st *State, v Value) (*Term, bool) {
	if t, ok := v.(*Term); ok && t.sort == sIface {
		dt := e.dynType(st, t)
		if dt != nil {
			if p, ok := under(dt).(*types.Pointer); ok && isStreamType(p.Elem()) {
				return e.scalar(e.unbox(st, t, dt)), false
			}
			return nil, false
		}
		if isICtor(t) == "" && !st.wf[-t.id] {
			st.wf[-t.id] = true
			st.assume(isCtor("iref", t))
		}
		return App("iref_r", sInt, t), true
	}
	return e.scalar(v), false
}

func (e *Engine) spos(st *State, ref *Term) (r, w *Term) {
	r = e.loadLeaf(st, "stream#r", sBV(64), ref, nil)
	w = e.loadLeaf(st, "stream#w", sBV(64), ref, nil)
	if !(r.isConst() && w.isConst()) && !st.flags[fmt.Sprintf("spos:%d:%d", r.id, w.id)] {
		st.flags[fmt.Sprintf("spos:%d:%d", r.id, w.id)] = true
		st.assume(Ule(r, w))
		st.assume(Ule(w, posMax))
	}
	return
}
func (e *Engine) setR(st *State, ref, r *Term) { e.storeLeaf(st, "stream#r", sBV(64), ref, nil, r) }
func (e *Engine) setW(st *State, ref, w *Term) { e.storeLeaf(st, "stream#w", sBV(64), ref, nil, w) }

func (e *Engine) streamTouch(st *State, ref *Term) {
	var keep []exposure
	for _, x := range st.exposed {
		if x.stream == ref {
			h := e.hget(st, "[]uint8", sBytes)
			st.heap["[]uint8"] = Store(h, x.arr, Fresh("stale", sBytes))
			continue
		}
		keep = append(keep, x)
	}
	st.exposed = keep
}

// swrite appends content[off..off+n)
func (e *Engine) swrite(st *State, ref, content, off, n *Term) {
	e.streamTouch(st, ref)
	_, w := e.spos(st, ref)
	d := sdata(ref)
	nw := Add(w, n)
	if n.op == "bv" && n.val <= 64 {
		for i := uint64(0); i < n.val; i++ {
			st.assume(Eq(Select(d, Add(w, b64(i))), Select(content, Add(off, b64(i)))))
		}
	} else {
		j := BVar(sBV(64))
		sel := Select(d, j)
		st.assume(Quant("forall", []*Term{j}, Implies(Ult(Sub(j, w), n), Eq(sel, Select(content, Add(off, Sub(j, w))))), []*Term{sel}))
	}
	st.assume(Ule(n, posMax))
	st.assume(Ule(nw, posMax))
	e.setW(st, ref, nw)
}

// sreadInto copies n bytes at the read position into s and advances
func (e *Engine) sreadInto(st *State, ref *Term, s SliceV, n *Term) {
	r, _ := e.spos(st, ref)
	k := "[]uint8"
	h := e.hget(st, k, sBytes)
	e.hset(st, k, s.arr, Store(h, s.arr, Copy(Select(h, s.arr), s.off, sdata(ref), r, n)))
	e.setR(st, ref, Add(r, n))
}

func umin(a, b *Term) *Term { return Ite(Ult(a, b), a, b) }

func (e *Engine) newErr(st *State, text *Term) *Term {
	r := e.newRef(st)
	x := App("iref", sIface, IntT(9997), r)
	if text != nil {
		st.assume(Eq(App("errtext", sStr, x), text))
	}
	return x
}
func (e *Engine) stdErr(name string) *Term {
	if v, ok := e.errGlob[name]; ok {
		return v
	}
	v := App("iref", sIface, IntT(9998), IntT(int64(900000+len(e.errGlob))))
	e.errGlob[name] = v
	return v
}

func (e *Engine) errFork(st *State, name string) *Term { // an arbitrary non-nil error
	x := Fresh(name, sIface)
	st.assume(isCtor("iref", x))
	st.assume(ILe(IntT(9000), App("iref_tag", sInt, x)))
	return x
}

// sread models Read(p) on any stream. opaque: the implementation is unknown and may split reads.
func (e *Engine) sread(st *State, ref *Term, opaque bool, kind string, p SliceV, k func(st *State, n, err *Term)) {
	r, w := e.spos(st, ref)
	avail := Sub(w, r)
	eof := e.stdErr("io.EOF")
	if !opaque {
		e.branch(st, Eq(avail, b64(0)), func(st *State, b bool) {
			if b {
				if kind == "bytes.Buffer" {
					e.branch(st, Eq(p.len, b64(0)), func(st *State, z bool) {
						if z {
							k(st, b64(0), tINil)
						} else {
							k(st, b64(0), eof)
						}
					})
					return
				}
				k(st, b64(0), eof)
				return
			}
			e.branch(st, Ule(p.len, avail), func(st *State, b bool) {
				n := avail
				if b {
					n = p.len
				}
				e.sreadInto(st, ref, p, n)
				k(st, n, tINil)
			})
		})
		return
	}
	e.branch(st, Eq(p.len, b64(0)), func(st *State, z bool) {
		if z {
			k(st, b64(0), tINil)
			return
		}
		e.branch(st, Eq(avail, b64(0)), func(st *State, z bool) {
			if z {
				er := eof
				if !st.flags["reliable"] {
					er = e.errFork(st, "rerr")
				}
				k(st, b64(0), er)
				return
			}
			n := Fresh("rn", sBV(64))
			st.assume(And(Ule(n, p.len), Ule(n, avail)))
			if st.flags["reliable"] {
				st.assume(Not(Eq(n, b64(0))))
			}
			e.sreadInto(st, ref, p, n)
			if st.flags["noearlyerr"] {
				k(st, n, tINil)
				return
			}
			// an error may accompany the last bytes (reliable) or any read
			c := Fresh("rfail", sBool)
			if st.flags["reliable"] {
				st.assume(Implies(c, Eq(n, avail)))
			}
			e.branch(st, c, func(st *State, b bool) {
				if b {
					er := eof
					if !st.flags["reliable"] {
						er = e.errFork(st, "rerr")
					}
					k(st, n, er)
				} else {
					k(st, n, tINil)
				}
			})
		})
	})
}

// sreadFull: exactly n bytes or an error
func (e *Engine) sreadFull(st *State, ref *Term, opaque bool, n *Term, take func(st *State, n *Term), k func(st *State, n, err *Term)) {
	r, w := e.spos(st, ref)
	avail := Sub(w, r)
	c := Ule(n, avail)
	if opaque && !st.flags["reliable"] {
		ok := Fresh("rok", sBool)
		c = And(c, Or(ok, Eq(n, b64(0))))
	}
	e.branch(st, c, func(st *State, b bool) {
		if b {
			take(st, n)
			k(st, n, tINil)
			return
		}
		m := Fresh("rpart", sBV(64))
		st.assume(And(Ule(m, avail), Ult(m, n)))
		if !opaque || st.flags["reliable"] {
			st.assume(Eq(m, avail))
		}
		take(st, m)
		if opaque && !st.flags["reliable"] {
			k(st, m, e.errFork(st, "rerr"))
			return
		}
		e.branch(st, Eq(m, b64(0)), func(st *State, z bool) {
			if z {
				k(st, m, e.stdErr("io.EOF"))
			} else {
				k(st, m, e.stdErr("io.ErrUnexpectedEOF"))
			}
		})
	})
}

// swriteOp: Write on any stream
func (e *Engine) swriteOp(st *State, ref *Term, opaque bool, content, off, n *Term, k func(st *State, n, err *Term)) {
	if !opaque || st.flags["reliable"] {
		e.swrite(st, ref, content, off, n)
		k(st, n, tINil)
		return
	}
	c := Fresh("wok", sBool)
	e.branch(st, c, func(st *State, b bool) {
		if b {
			e.swrite(st, ref, content, off, n)
			k(st, n, tINil)
			return
		}
		m := Fresh("wpart", sBV(64))
		st.assume(Ule(m, n))
		e.swrite(st, ref, content, off, m)
		k(st, m, e.errFork(st, "werr"))
	})
}

// exposeBytes: a slice of the stream's unread bytes [r, r+n)
func (e *Engine) exposeBytes(st *State, ref, r, n *Term) SliceV {
	a := e.newRef(st)
	h := e.hget(st, "[]uint8", sBytes)
	e.hset(st, "[]uint8", a, Store(h, a, sdata(ref)))
	st.exposed = append(st.exposed, exposure{ref, a})
	return SliceV{a, r, n, n, types.Typ[types.Uint8]}
}

func strContent(s *Term) *Term {
	if s.op == "app" && s.name == "strOf" {
		return nil
	}
	return App("bytesOf", sBytes, s)
}
func strCO(s *Term) (*Term, *Term) {
	if s.op == "app" && s.name == "strOf" {
		return s.args[0], s.args[1]
	}
	return App("bytesOf", sBytes, s), b64(0)
}

func intr(name string, f intrFn) { intrinsics[name] = f }

// ---- formatting ----

func (e *Engine) itoa(st *State, t *Term) *Term {
	if t.sort.bits < 64 {
		t = SExt(t, 64)
	}
	if t.isConst() {
		return StrLit(fmt.Sprint(int64(t.val)))
	}
	s := App("itoa", sStr, t)
	if !t.fv && !st.flags[fmt.Sprintf("itoa:%d", t.id)] {
		st.flags[fmt.Sprintf("itoa:%d", t.id)] = true
		st.assume(Eq(App("atoi", sBV(64), s), t))
		st.assume(And(Ult(b64(0), slen(s)), Ult(slen(s), b64(21))))
		// digits and minus only
		j := BVar(sBV(64))
		sel := Select(App("bytesOf", sBytes, s), j)
		st.assume(Quant("forall", []*Term{j}, Implies(Ult(j, slen(s)), And(Ule(sel, BV('9', 8)), Ule(BV('-', 8), sel), Not(Eq(sel, BV('.', 8))))), []*Term{sel}))
	}
	return s
}

func (e *Engine) fmtArg(st *State, verb byte, x *Term) *Term {
	dt := e.dynType(st, x)
	if dt != nil {
		if b, ok := under(dt).(*types.Basic); ok {
			_, isN := types.Unalias(dt).(*types.Named)
			v := e.unbox(st, x, dt)
			if isString(dt) && (verb == 's' || verb == 'v') && !isN {
				return e.scalar(v)
			}
			if n, sg, ok := intBits(b); ok && (verb == 'd' || verb == 'v') && !(isN && verb == 'v') {
				t := e.scalar(v)
				if n < 64 {
					if sg {
						t = SExt(t, 64)
					} else {
						t = ZExt(t, 64)
					}
				} else if !sg {
					return App("utoa", sStr, t)
				}
				return e.itoa(st, t)
			}
		}
	} else if verb == 's' || verb == 'v' {
		return App("fmt:"+string(verb), sStr, x)
	}
	return App("fmt:"+string(verb), sStr, x)
}

func (e *Engine) sprintf(st *State, f *Term, args []*Term) *Term {
	if f.op != "strlit" {
		return Fresh("fmtd", sStr)
	}
	out := StrLit("")
	s := f.name
	i := 0
	for p := 0; p < len(s); {
		q := strings.IndexByte(s[p:], '%')
		if q < 0 {
			out = strCat(out, StrLit(s[p:]))
			break
		}
		out = strCat(out, StrLit(s[p:p+q]))
		p += q + 1
		if p >= len(s) {
			return Fresh("fmtd", sStr)
		}
		v := s[p]
		p++
		if v == '%' {
			out = strCat(out, StrLit("%"))
			continue
		}
		if strings.IndexByte("svdqxwTtcp", v) < 0 || i >= len(args) {
			return Fresh("fmtd", sStr)
		}
		out = strCat(out, e.fmtArg(st, v, args[i]))
		i++
	}
	if i < len(args) {
		return Fresh("fmtd", sStr)
	}
	return out
}

func tupleErr(st *State, vals ...Value) []Value { return vals }

func goError() types.Type { return types.Universe.Lookup("error").Type() }

func (e *Engine) hooked(st *State, name string) bool {
	_, ok := st.hooks[name]
	return ok
}

func (e *Engine) event(st *State, name string, args []Value, k func(st *State, vals []Value)) {
	if h, ok := st.hooks[name]; ok {
		if len(h.fn.Params) < len(args) {
			args = args[:len(h.fn.Params)]
		}
		e.callFn(st, h, args, func(e *Engine, st *State, vals []Value) { k(st, vals) }, nil)
		return
	}
	k(st, nil)
}

func init() {
	// --- bytes.Buffer / strings.Builder / bytes.Reader ---
	for _, tn := range []string{"bytes.Buffer", "strings.Builder"} {
		tn := tn
		m := func(name string, f intrFn) { intr("(*"+tn+")."+name, f) }
		m("Write", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			s := c.args[1].(SliceV)
			e.swrite(st, ref, e.bytesContent(st, s), s.off, s.len)
			return c.done(e, st, s.len, tINil)
		})
		m("WriteString", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			s := c.args[1].(*Term)
			ct, off := strCO(s)
			e.swrite(st, ref, ct, off, slen(s))
			return c.done(e, st, slen(s), tINil)
		})
		m("WriteByte", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			e.swrite(st, ref, ConstArr(sBytes, c.args[1].(*Term)), b64(0), b64(1))
			return c.done(e, st, tINil)
		})
		m("Len", func(e *Engine, st *State, c *callCtx) bool {
			r, w := e.spos(st, e.scalar(c.args[0]))
			return c.done(e, st, Sub(w, r))
		})
		m("String", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			r, w := e.spos(st, ref)
			return c.done(e, st, strOf(sdata(ref), r, Sub(w, r)))
		})
		m("Reset", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			e.streamTouch(st, ref)
			_, w := e.spos(st, ref)
			e.setR(st, ref, w)
			return c.done(e, st)
		})
		m("Grow", func(e *Engine, st *State, c *callCtx) bool {
			e.panicIf(st, Slt(c.args[1].(*Term), b64(0)), "negative Grow")
			e.event(st, "make", []Value{c.args[1]}, func(st *State, _ []Value) {
				e.streamTouch(st, e.scalar(c.args[0]))
				c.ret(e, st, nil)
			})
			return true
		})
		m("Cap", func(e *Engine, st *State, c *callCtx) bool {
			r, w := e.spos(st, e.scalar(c.args[0]))
			n := Fresh("cap", sBV(64))
			st.assume(And(Ule(Sub(w, r), n), Ule(n, posMax)))
			return c.done(e, st, n)
		})
	}
	bb := func(name string, f intrFn) { intr("(*bytes.Buffer)."+name, f) }
	bb("Bytes", func(e *Engine, st *State, c *callCtx) bool {
		ref := e.scalar(c.args[0])
		r, w := e.spos(st, ref)
		return c.done(e, st, e.exposeBytes(st, ref, r, Sub(w, r)))
	})
	bb("Next", func(e *Engine, st *State, c *callCtx) bool {
		ref := e.scalar(c.args[0])
		r, w := e.spos(st, ref)
		n := c.args[1].(*Term)
		e.panicIf(st, Slt(n, b64(0)), "negative Next")
		e.branch(st, Ule(n, Sub(w, r)), func(st *State, b bool) {
			m := n
			if !b {
				m = Sub(w, r)
			}
			s := e.exposeBytes(st, ref, r, m)
			e.setR(st, ref, Add(r, m))
			c.ret(e, st, []Value{s})
		})
		return true
	})
	bb("Truncate", func(e *Engine, st *State, c *callCtx) bool {
		ref := e.scalar(c.args[0])
		n := c.args[1].(*Term)
		r, w := e.spos(st, ref)
		e.panicIf(st, Not(Ule(n, Sub(w, r))), "Truncate out of range")
		e.branch(st, Eq(n, b64(0)), func(st *State, b bool) {
			if b {
				e.streamTouch(st, ref)
				e.setR(st, ref, w)
				c.ret(e, st, nil)
				return
			}
			e.branch(st, Eq(n, Sub(w, r)), func(st *State, b bool) {
				if !b {
					unsupported("bytes.Buffer.Truncate")
				}
				c.ret(e, st, nil)
			})
		})
		return true
	})
	for _, tn := range []string{"bytes.Buffer", "bytes.Reader", "strings.Reader"} {
		tn := tn
		intr("(*"+tn+").Read", func(e *Engine, st *State, c *callCtx) bool {
			e.sread(st, e.scalar(c.args[0]), false, tn, c.args[1].(SliceV), func(st *State, n, err *Term) { c.ret(e, st, []Value{n, err}) })
			return true
		})
		intr("(*"+tn+").ReadByte", func(e *Engine, st *State, c *callCtx) bool {
			ref := e.scalar(c.args[0])
			r, w := e.spos(st, ref)
			e.branch(st, Eq(r, w), func(st *State, b bool) {
				if b {
					c.ret(e, st, []Value{BV(0, 8), e.stdErr("io.EOF")})
					return
				}
				e.setR(st, ref, Add(r, b64(1)))
				c.ret(e, st, []Value{Select(sdata(ref), r), tINil})
			})
			return true
		})
		if tn != "bytes.Buffer" {
			intr("(*"+tn+").Len", func(e *Engine, st *State, c *callCtx) bool {
				r, w := e.spos(st, e.scalar(c.args[0]))
				return c.done(e, st, Sub(w, r))
			})
		}
	}
	newOver := func(tn string, isStr bool) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			ref := e.newRef(st)
			var ct, off, n *Term
			if isStr {
				s := c.args[0].(*Term)
				ct, off = strCO(s)
				n = slen(s)
			} else {
				s := c.args[0].(SliceV)
				ct, off, n = e.bytesContent(st, s), s.off, s.len
			}
			e.setR(st, ref, b64(0))
			e.setW(st, ref, b64(0))
			e.swrite(st, ref, ct, off, n)
			t := c.fn.Signature.Results().At(0).Type()
			return c.done(e, st, e.wrap(t, ref))
		}
	}
	intr("bytes.NewReader", newOver("bytes.Reader", false))
	intr("bytes.NewBuffer", newOver("bytes.Buffer", false))
	intr("bytes.NewBufferString", newOver("bytes.Buffer", true))
	intr("strings.NewReader", newOver("strings.Reader", true))

	// --- io ---
	withR := func(v Value, e *Engine, st *State, k func(st *State, ref *Term, opaque bool)) {
		t := v.(*Term)
		e.panicIf(st, isCtor("inil", t), "nil reader/writer")
		ref, op := e.streamRef(st, t)
		if ref == nil {
			unsupported("io operation on %s", e.dynType(st, t))
		}
		k(st, ref, op)
	}
	intr("io.ReadFull", func(e *Engine, st *State, c *callCtx) bool {
		withR(c.args[0], e, st, func(st *State, ref *Term, op bool) {
			s := c.args[1].(SliceV)
			e.sreadFull(st, ref, op, s.len, func(st *State, n *Term) { e.sreadInto(st, ref, s, n) }, func(st *State, n, err *Term) { c.ret(e, st, []Value{n, err}) })
		})
		return true
	})
	intr("io.WriteString", func(e *Engine, st *State, c *callCtx) bool {
		withR(c.args[0], e, st, func(st *State, ref *Term, op bool) {
			s := c.args[1].(*Term)
			ct, off := strCO(s)
			e.swriteOp(st, ref, op, ct, off, slen(s), func(st *State, n, err *Term) { c.ret(e, st, []Value{n, err}) })
		})
		return true
	})
	intr("io.CopyN", func(e *Engine, st *State, c *callCtx) bool {
		withR(c.args[0], e, st, func(st *State, dst *Term, dop bool) {
			if dop {
				unsupported("io.CopyN to an unknown writer")
			}
			withR(c.args[1], e, st, func(st *State, ref *Term, op bool) {
				n := c.args[2].(*Term)
				n = Ite(Slt(n, b64(0)), b64(0), n)
				e.sreadFull(st, ref, op, n, func(st *State, n *Term) {
					r, _ := e.spos(st, ref)
					e.setR(st, ref, Add(r, n))
					e.swrite(st, dst, sdata(ref), r, n)
				}, func(st *State, n, err *Term) {
					// CopyN reports io.EOF for any shortage
					if err == e.stdErr("io.ErrUnexpectedEOF") {
						err = e.stdErr("io.EOF")
					}
					c.ret(e, st, []Value{n, err})
				})
			})
		})
		return true
	})
	intr("io.ReadAll", func(e *Engine, st *State, c *callCtx) bool {
		withR(c.args[0], e, st, func(st *State, ref *Term, op bool) {
			r, w := e.spos(st, ref)
			n := Sub(w, r)
			a := e.newRef(st)
			h := e.hget(st, "[]uint8", sBytes)
			e.hset(st, "[]uint8", a, Store(h, a, sdata(ref)))
			e.setR(st, ref, w)
			c.ret(e, st, []Value{SliceV{a, r, n, n, types.Typ[types.Uint8]}, tINil})
		})
		return true
	})
	invokeIntr["Read"] = func(e *Engine, st *State, recv *Term, m *types.Func, args []Value, k func(st *State, fv FuncV, args []Value)) {
		k(st, pseudo("Read", func(e *Engine, st *State, c *callCtx) bool {
			ref, op := e.streamRef(st, recv)
			e.sread(st, ref, op, "", args[0].(SliceV), func(st *State, n, err *Term) { c.ret(e, st, []Value{n, err}) })
			return true
		}), nil)
	}
	invokeIntr["Write"] = func(e *Engine, st *State, recv *Term, m *types.Func, args []Value, k func(st *State, fv FuncV, args []Value)) {
		k(st, pseudo("Write", func(e *Engine, st *State, c *callCtx) bool {
			ref, op := e.streamRef(st, recv)
			s := args[0].(SliceV)
			e.swriteOp(st, ref, op, e.bytesContent(st, s), s.off, s.len, func(st *State, n, err *Term) { c.ret(e, st, []Value{n, err}) })
			return true
		}), nil)
	}
	invokeIntr["Error"] = func(e *Engine, st *State, recv *Term, m *types.Func, args []Value, k func(st *State, fv FuncV, args []Value)) {
		k(st, pseudo("Error", func(e *Engine, st *State, c *callCtx) bool {
			return c.done(e, st, App("errtext", sStr, recv))
		}), nil)
	}
	intr("bytes.Join", func(e *Engine, st *State, c *callCtx) bool {
		s := c.args[0].(SliceV)
		sep := c.args[1].(SliceV)
		if s.len.op != "bv" || sep.len.op != "bv" {
			unsupported("bytes.Join of unknown count")
		}
		a := e.newRef(st)
		ct := ConstArr(sBytes, BV(0, 8))
		n := b64(0)
		put := func(p SliceV) {
			ct = Copy(ct, n, e.bytesContent(st, p), p.off, p.len)
			n = Add(n, p.len)
		}
		bt := types.NewSlice(types.Typ[types.Uint8])
		for i := uint64(0); i < s.len.val; i++ {
			if i > 0 && sep.len.val > 0 {
				put(sep)
			}
			put(e.load(st, PtrV{base: "[]" + typekey(bt), ref: s.arr, idx: Add(s.off, b64(i)), typ: bt}).(SliceV))
		}
		h := e.hget(st, "[]uint8", sBytes)
		e.hset(st, "[]uint8", a, Store(h, a, ct))
		st.assume(Ult(n, posMax))
		return c.done(e, st, SliceV{a, b64(0), n, n, types.Typ[types.Uint8]})
	})

	// --- errors, fmt, log, strconv, strings ---
	intr("errors.New", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.newErr(st, c.args[0].(*Term)))
	})
	intr("fmt.Errorf", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.newErr(st, e.sprintf(st, c.args[0].(*Term), e.variadic(st, c.args[1]))))
	})
	intr("fmt.Sprintf", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, e.sprintf(st, c.args[0].(*Term), e.variadic(st, c.args[1])))
	})
	intr("fmt.Sprint", func(e *Engine, st *State, c *callCtx) bool {
		as := e.variadic(st, c.args[0])
		if len(as) == 1 {
			return c.done(e, st, e.fmtArg(st, 'v', as[0]))
		}
		return c.done(e, st, Fresh("fmtd", sStr))
	})
	nop := func(e *Engine, st *State, c *callCtx) bool {
		rs := c.fn.Signature.Results()
		var vals []Value
		for i := 0; i < rs.Len(); i++ {
			vals = append(vals, e.fresh(st, rs.At(i).Type(), "nop"))
		}
		return c.done(e, st, vals...)
	}
	for _, n := range []string{"log.Printf", "log.Println", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "os/signal.Notify", "os/signal.Stop", "runtime.Gosched", "runtime.GC", "log.SetFlags", "log.SetPrefix"} {
		intr(n, nop)
	}
	exit := func(e *Engine, st *State, c *callCtx) bool {
		if h, ok := st.hooks["exit"]; ok {
			e.callFn(st, h, nil, func(e *Engine, st *State, _ []Value) { st.dead = true }, nil)
			return true
		}
		e.oblige(st, "exit", e.name+": the process is not terminated", tFalse)
		st.dead = true
		return true
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit", "runtime.Goexit"} {
		intr(n, exit)
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		intr(n, func(e *Engine, st *State, c *callCtx) bool {
			e.panicIf(st, tTrue, "log.Panic")
			return true
		})
	}
	intr("strconv.Itoa", func(e *Engine, st *State, c *callCtx) bool { return c.done(e, st, e.itoa(st, c.args[0].(*Term))) })
	intr("strconv.FormatInt", func(e *Engine, st *State, c *callCtx) bool {
		if b := c.args[1].(*Term); b.op == "bv" && b.val == 10 {
			return c.done(e, st, e.itoa(st, c.args[0].(*Term)))
		}
		return c.done(e, st, App("fmtint", sStr, c.args[0].(*Term), c.args[1].(*Term)))
	})
	intr("strings.Split", func(e *Engine, st *State, c *callCtx) bool {
		s, sep := c.args[0].(*Term), c.args[1].(*Term)
		n := App("split_n", sBV(64), s, sep)
		st.assume(And(Ule(b64(1), n), Ule(n, Add(slen(s), b64(1)))))
		st.assume(Implies(Eq(App("strindex", sBV(64), s, sep), b64(^uint64(0))), Eq(n, b64(1))))
		a := e.newRef(st)
		k := "[]string"
		h := e.hget(st, k, sArr(sBV(64), sStr))
		e.hset(st, k, a, Store(h, a, App("split_a", sArr(sBV(64), sStr), s, sep)))
		if sep.op == "strlit" && s.op == "strlit" {
			ps := strings.Split(s.name, sep.name)
			ar := ConstArr(sArr(sBV(64), sStr), StrLit(""))
			for i, p := range ps {
				ar = Store(ar, b64(uint64(i)), StrLit(p))
			}
			st.heap[k] = Store(h, a, ar)
			n = b64(uint64(len(ps)))
		}
		return c.done(e, st, SliceV{a, b64(0), n, n, types.Typ[types.String]})
	})
	strIdx := func(name string) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			s, sep := c.args[0].(*Term), c.args[1].(*Term)
			if sep.sort != sStr {
				sep = App("chr", sStr, ZExt(sep, 64))
			}
			if s.op == "strlit" && sep.op == "strlit" {
				i := strings.Index(s.name, sep.name)
				if name == "strlastindex" {
					i = strings.LastIndex(s.name, sep.name)
				}
				return c.done(e, st, b64(uint64(int64(i))))
			}
			r := App(name, sBV(64), s, sep)
			st.assume(Or(Eq(r, b64(^uint64(0))), Ule(Add(r, slen(sep)), slen(s))))
			st.assume(Sle(b64(^uint64(0)), r))
			st.assume(Or(Eq(r, b64(^uint64(0))), Eq(strSub(s, r, Add(r, slen(sep))), sep)))
			if fl := fmt.Sprintf("%s:%d:%d", name, s.id, sep.id); sep.op == "strlit" && len(sep.name) == 1 && !s.fv && !st.flags[fl] {
				// the byte found is the first (last) one
				st.flags[fl] = true
				j := BVar(sBV(64))
				ch := BV(uint64(sep.name[0]), 8)
				by, off := strCO(s)
				sel := Select(by, Add(off, j))
				in := And(Ult(j, slen(s)), Or(Eq(r, b64(^uint64(0))), Ult(r, j)))
				if name == "strindex" {
					in = And(Ult(j, slen(s)), Ult(j, r))
				}
				st.assume(Quant("forall", []*Term{j}, Implies(in, Not(Eq(sel, ch))), []*Term{sel}))
				st.assume(Or(Eq(r, b64(^uint64(0))), Eq(Select(by, Add(off, r)), ch)))
			}
			return c.done(e, st, r)
		}
	}
	intr("strings.Index", strIdx("strindex"))
	intr("strings.IndexByte", strIdx("strindex"))
	intr("strings.LastIndex", strIdx("strlastindex"))
	intr("strings.LastIndexByte", strIdx("strlastindex"))

	// --- sync ---
	lock := func(mode int64, rw bool) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			n := lockName(p)
			if st.locks[n] != nil {
				e.oblige(st, "guard", e.name+": no lock is taken twice ("+shortFn(p.base)+")", tFalse)
				st.dead = true
				return true
			}
			first := len(st.locks) == 0
			st.locks[n] = IntT(mode)
			if h, ok := st.hooks["volatile"]; ok && first {
				e.callFn(st, h, nil, func(e *Engine, st *State, _ []Value) { c.ret(e, st, nil) }, nil)
				return true
			}
			if h, ok := st.hooks["lock:"+n]; ok {
				e.callFn(st, h, nil, func(e *Engine, st *State, _ []Value) { c.ret(e, st, nil) }, nil)
				return true
			}
			return c.done(e, st)
		}
	}
	unlock := func(mode int64) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			n := lockName(p)
			if h := st.locks[n]; h == nil || int64(h.val) != mode {
				e.oblige(st, "guard", e.name+": no unlock of an unlocked mutex ("+shortFn(p.base)+")", tFalse)
				st.dead = true
				return true
			}
			fin := func(e *Engine, st *State) {
				delete(st.locks, n)
				c.ret(e, st, nil)
			}
			if h, ok := st.hooks["unlock:"+n]; ok {
				e.callFn(st, h, nil, func(e *Engine, st *State, _ []Value) { fin(e, st) }, nil)
				return true
			}
			fin(e, st)
			return true
		}
	}
	intr("(*sync.Mutex).Lock", lock(1, false))
	intr("(*sync.Mutex).Unlock", unlock(1))
	intr("(*sync.RWMutex).Lock", lock(1, true))
	intr("(*sync.RWMutex).Unlock", unlock(1))
	intr("(*sync.RWMutex).RLock", lock(2, true))
	intr("(*sync.RWMutex).RUnlock", unlock(2))
	intr("(*sync.Once).Do", func(e *Engine, st *State, c *callCtx) bool {
		p := c.args[0].(PtrV)
		d := e.loadLeaf(st, p.base+"#done", sBool, p.ref, p.idx)
		e.branch(st, d, func(st *State, b bool) {
			if b {
				c.ret(e, st, nil)
				return
			}
			e.storeLeaf(st, p.base+"#done", sBool, p.ref, p.idx, tTrue)
			e.callFn(st, c.args[1].(FuncV), nil, func(e *Engine, st *State, _ []Value) { c.ret(e, st, nil) }, nil)
		})
		return true
	})
	for _, n := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done"} {
		intr(n, nop)
	}
	intr("(*sync.WaitGroup).Wait", func(e *Engine, st *State, c *callCtx) bool {
		e.event(st, "wait", nil, func(st *State, _ []Value) { c.ret(e, st, nil) })
		return true
	})
	// atomics
	for _, sz := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		sz := sz
		intr("sync/atomic.Add"+sz, func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			e.event(st, "atomic", nil, func(st *State, _ []Value) {
				v := Add(e.load(st, p).(*Term), c.args[1].(*Term))
				e.store(st, p, v)
				c.ret(e, st, []Value{v})
			})
			return true
		})
		intr("sync/atomic.Load"+sz, func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			e.event(st, "atomic", nil, func(st *State, _ []Value) { c.ret(e, st, []Value{e.load(st, p)}) })
			return true
		})
		intr("sync/atomic.Store"+sz, func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			e.event(st, "atomic", nil, func(st *State, _ []Value) { e.store(st, p, c.args[1]); c.ret(e, st, nil) })
			return true
		})
		intr("sync/atomic.CompareAndSwap"+sz, func(e *Engine, st *State, c *callCtx) bool {
			p := c.args[0].(PtrV)
			e.event(st, "atomic", nil, func(st *State, _ []Value) {
				e.branch(st, Eq(e.load(st, p).(*Term), c.args[1].(*Term)), func(st *State, b bool) {
					if b {
						e.store(st, p, c.args[2])
					}
					c.ret(e, st, []Value{BoolT(b)})
				})
			})
			return true
		})
		bits := 64
		if strings.HasSuffix(sz, "32") {
			bits = 32
		}
		am := func(name string, f func(e *Engine, st *State, key string, ref *Term, c *callCtx, k func(st *State, vals ...Value))) {
			intr("(*sync/atomic."+sz+")."+name, func(e *Engine, st *State, c *callCtx) bool {
				p := c.args[0].(PtrV)
				e.event(st, "atomic", nil, func(st *State, _ []Value) {
					f(e, st, p.base+"#v", p.ref, c, func(st *State, vals ...Value) { c.ret(e, st, vals) })
				})
				return true
			})
		}
		am("Add", func(e *Engine, st *State, key string, ref *Term, c *callCtx, k func(st *State, vals ...Value)) {
			v := Add(e.loadLeaf(st, key, sBV(bits), ref, nil), c.args[1].(*Term))
			e.storeLeaf(st, key, sBV(bits), ref, nil, v)
			k(st, v)
		})
		am("Load", func(e *Engine, st *State, key string, ref *Term, c *callCtx, k func(st *State, vals ...Value)) {
			k(st, e.loadLeaf(st, key, sBV(bits), ref, nil))
		})
		am("Store", func(e *Engine, st *State, key string, ref *Term, c *callCtx, k func(st *State, vals ...Value)) {
			e.storeLeaf(st, key, sBV(bits), ref, nil, c.args[1].(*Term))
			k(st)
		})
		am("CompareAndSwap", func(e *Engine, st *State, key string, ref *Term, c *callCtx, k func(st *State, vals ...Value)) {
			e.branch(st, Eq(e.loadLeaf(st, key, sBV(bits), ref, nil), c.args[1].(*Term)), func(st *State, b bool) {
				if b {
					e.storeLeaf(st, key, sBV(bits), ref, nil, c.args[2].(*Term))
				}
				k(st, BoolT(b))
			})
		})
	}

	// --- time ---
	intr("time.Sleep", func(e *Engine, st *State, c *callCtx) bool {
		e.event(st, "sleep", []Value{c.args[0]}, func(st *State, _ []Value) { c.ret(e, st, nil) })
		return true
	})
	intr("time.Now", func(e *Engine, st *State, c *callCtx) bool {
		return c.done(e, st, StructV{typ: c.fn.Signature.Results().At(0).Type()})
	})
	for _, n := range []string{"UnixNano", "Unix", "UnixMilli", "UnixMicro"} {
		intr("(time.Time)."+n, func(e *Engine, st *State, c *callCtx) bool {
			t := Fresh("now", sBV(64))
			st.assume(Slt(b64(0), t))
			return c.done(e, st, t)
		})
	}
	after := func(e *Engine, st *State, c *callCtx) bool {
		ch := e.newRef(st)
		e.storeLeaf(st, "chan#sent", sBV(64), ch, nil, b64(0))
		e.storeLeaf(st, "chan#rcvd", sBV(64), ch, nil, b64(0))
		e.storeLeaf(st, "chan#closed", sBool, ch, nil, tFalse)
		st.assume(Eq(App("timer#d", sBV(64), ch), c.args[0].(*Term)))
		e.event(st, "after", []Value{c.args[0]}, func(st *State, _ []Value) { c.ret(e, st, []Value{ch}) })
		return true
	}
	intr("time.After", after)
	intr("time.AfterFunc", func(e *Engine, st *State, c *callCtx) bool {
		st.spawned = append(st.spawned, spawn{f: c.args[1].(FuncV), delay: c.args[0].(*Term)})
		e.event(st, "after", []Value{c.args[0]}, func(st *State, _ []Value) {
			c.ret(e, st, []Value{e.wrap(c.fn.Signature.Results().At(0).Type(), e.newRef(st))})
		})
		return true
	})
	intr("(*time.Timer).Stop", nop)

	// --- math ---
	id := func(e *Engine, st *State, c *callCtx) bool { return c.done(e, st, c.args[0]) }
	for _, n := range []string{"math.Float32bits", "math.Float32frombits", "math.Float64bits", "math.Float64frombits"} {
		intr(n, id)
	}

	// --- net ---
	intr("net.SplitHostPort", func(e *Engine, st *State, c *callCtx) bool {
		s := c.args[0].(*Term)
		e.branch(st, App("hp_ok", sBool, s), func(st *State, b bool) {
			if !b {
				c.ret(e, st, []Value{StrLit(""), StrLit(""), e.errFork(st, "hperr")})
				return
			}
			c.ret(e, st, []Value{App("hp_host", sStr, s), App("hp_port", sStr, s), tINil})
		})
		return true
	})
	intr("net.JoinHostPort", func(e *Engine, st *State, c *callCtx) bool {
		h, p := c.args[0].(*Term), c.args[1].(*Term)
		s := App("hp_join", sStr, h, p)
		st.assume(And(App("hp_ok", sBool, s), Eq(App("hp_host", sStr, s), h), Eq(App("hp_port", sStr, s), p)))
		return c.done(e, st, s)
	})
	// ghost stream API
	stream := func(f func(e *Engine, st *State, ref *Term, c *callCtx) []Value) intrFn {
		return func(e *Engine, st *State, c *callCtx) bool {
			ref, _ := e.streamRef(st, c.args[0])
			if ref == nil {
				unsupported("ghost stream function on a non-stream")
			}
			return c.done(e, st, f(e, st, ref, c)...)
		}
	}
	g("StreamPos", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value { r, _ := e.spos(st, ref); return []Value{r} }))
	g("StreamEnd", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value { _, w := e.spos(st, ref); return []Value{w} }))
	g("StreamByte", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value {
		return []Value{Select(sdata(ref), c.args[1].(*Term))}
	}))
	g("StreamString", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value {
		return []Value{strOf(sdata(ref), c.args[1].(*Term), c.args[2].(*Term))}
	}))
	g("SetStreamPos", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value { e.setR(st, ref, c.args[1].(*Term)); return nil }))
	g("StreamExtend", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value {
		_, w := e.spos(st, ref)
		n := Fresh("in.ext", sBV(64))
		st.assume(And(Ule(w, n), Ule(n, posMax)))
		e.streamTouch(st, ref)
		e.setW(st, ref, n)
		return nil
	}))
	g("Truncate", stream(func(e *Engine, st *State, ref *Term, c *callCtx) []Value { // the stream ends at position n
		e.setW(st, ref, c.args[1].(*Term))
		return nil
	}))
}

func pseudo(name string, f intrFn) FuncV { return FuncV{native: f} }
