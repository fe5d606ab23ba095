package main

// Models of the byte readers, gzip and embedded files used to load prefix tables, and of sync.Once.

import (
	"go/types"
	"math/big"
)

const rdText, rdPos = "X:bytes.Reader.text", "X:bytes.Reader.pos"
const gzText = "X:gzip.Reader.text"

func readerOf(v Val) *Term {
	if v.Dyn != nil {
		v = *v.Dyn
	}
	if typeKey(v.T) != "*bytes.Reader" {
		unsup("reader of type %s", typeKey(v.T))
	}
	return v.C[0]
}
func rdState(st *State, r *Term) (s, p *Term) {
	s = Select(st.hget(rdText, arr(SInt, SStr)), r)
	p = Select(st.hget(rdPos, arr(SInt, SInt)), r)
	return
}
func rdMove(st *State, r, p *Term) {
	st.hset(rdPos, Store(st.hget(rdPos, arr(SInt, SInt)), r, p))
	st.logWrite(rdPos, r)
}

// le is the little-endian value of the n bytes of s at p.
func le(s, p *Term, n int) *Term {
	return withRange(UF("le"+string(rune('0'+n)), SInt, s, p), bigZero, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1)))
}

// uvarint: value, whether one can be read, and the position after it.
func uvar(s, p *Term) (v, ok, end *Term) {
	v = withRange(UF("uvarint", SInt, s, p), bigZero, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 64), big.NewInt(1)))
	ok = UF("uvarintok", SBool, s, p)
	end = UF("uvarintend", SInt, s, p)
	if len(C.facts[end]) == 0 {
		addFact(end, mk("=>", SBool, "", mk("<=", SBool, "", IntC(0), p), mk("<=", SBool, "", p, end)))
		addFact(ok, mk("=>", SBool, "", ok, And(mk("<=", SBool, "", Add(p, IntC(1)), end), mk("<=", SBool, "", end, Len(s)))))
	}
	return
}

func someErr(st *State, name string, ok *Term) Val {
	e := freshVal(name, types.Universe.Lookup("error").Type(), false)
	st.fact(Eq(Eq(e.C[0], IntC(0)), ok))
	return e
}

func extraModels3() {
	two := func(rt types.Type, a Val, b Val) Val { return Val{T: rt, Tup: []Val{a, b}} }
	at := func(rt types.Type, i int) types.Type { return rt.(*types.Tuple).At(i).Type() }
	models["bytes.NewReader"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		r := st.alloc()
		st.hset(rdText, Store(st.hget(rdText, arr(SInt, SStr)), r, st.bytesOf(a[0])))
		st.hset(rdPos, Store(st.hget(rdPos, arr(SInt, SInt)), r, IntC(0)))
		return one(st, vt(rt, r))
	}
	models["bytes.Reader.Read"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		r := readerOf(a[0])
		s, p := rdState(st, r)
		old := st.bytesOf(a[1])
		n := Ite(Le(Len(old), Sub(Len(s), p)), Len(old), Ite(Le(p, Len(s)), Sub(Len(s), p), IntC(0)))
		ref, off := a[1].C[0], a[1].C[1]
		if off.Op != "int" || off.Int.Sign() != 0 {
			unsup("read into part of a buffer")
		}
		h := st.hget(bytesHeap, arr(SInt, SStr))
		whole := Select(h, ref)
		nc := Concat(Substr(s, p, n), Substr(whole, n, Sub(Len(whole), n)))
		st.fact(Eq(mk("str.len", SInt, "", nc), Len(whole)))
		st.hset(bytesHeap, Store(h, ref, nc))
		st.logWrite(bytesHeap, ref)
		rdMove(st, r, Add(p, n))
		return one(st, two(rt, vt(at(rt, 0), n), someErr(st, "readerr", Lt(p, Len(s)))))
	}
	models["encoding/binary.Read"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		r := readerOf(a[0])
		if a[1].Dyn == nil || typeKey(a[1].Dyn.T) != "binary.littleEndian" && typeKey(a[1].Dyn.T) != "encoding/binary.littleEndian" {
			unsup("byte order")
		}
		if a[2].Dyn == nil {
			unsup("binary.Read target")
		}
		loc := a[2].Dyn.Loc
		if loc == nil {
			el := under(a[2].Dyn.T).(*types.Pointer).Elem()
			loc = &Loc{prefix: ptrPrefix(el), ref: a[2].Dyn.C[0], T: el}
		}
		n := map[types.BasicKind]int{types.Uint8: 1, types.Uint16: 2, types.Uint32: 4}[under(loc.T).(*types.Basic).Kind()]
		if n == 0 {
			unsup("binary.Read of %s", loc.T)
		}
		s, p := rdState(st, r)
		ok := Le(Add(p, IntC(int64(n))), Len(s))
		cur := st.load(loc)
		st.store(loc, Val{T: loc.T, C: []*Term{Ite(ok, le(s, p, n), cur.C[0])}})
		rdMove(st, r, Ite(ok, Add(p, IntC(int64(n))), Ite(Le(Len(s), p), p, Len(s))))
		return one(st, someErr(st, "binerr", ok))
	}
	models["encoding/binary.ReadUvarint"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		r := readerOf(a[0])
		s, p := rdState(st, r)
		v, ok, end := uvar(s, p)
		any := freshVal("uvarint", at(rt, 0), false)
		st.fact(Imp(ok, Eq(any.C[0], v)))
		rdMove(st, r, end)
		return one(st, two(rt, any, someErr(st, "varerr", ok)))
	}
	models["compress/gzip.NewReader"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		r := readerOf(a[0])
		s, p := rdState(st, r)
		if p.Op != "int" || p.Int.Sign() != 0 {
			unsup("gzip from the middle of a reader")
		}
		ok := UF("gzheader", SBool, s)
		z := st.alloc()
		st.hset(gzText, Store(st.hget(gzText, arr(SInt, SStr)), z, s))
		return one(st, two(rt, vt(at(rt, 0), Ite(ok, z, IntC(0))), someErr(st, "gzerr", ok)))
	}
	models["compress/gzip.Reader.Close"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		return one(st, freshVal("closeerr", rt, false))
	}
	models["io.ReadAll"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		if a[0].Dyn == nil || typeKey(a[0].Dyn.T) != "*gzip.Reader" {
			unsup("ReadAll of unknown reader")
		}
		s := Select(st.hget(gzText, arr(SInt, SStr)), a[0].Dyn.C[0])
		ok := UF("gzok", SBool, s)
		got := Fresh("gzpart", SStr) // what was read before the error
		t := Ite(ok, UF("gunzip", SStr, s), got)
		return one(st, two(rt, st.newBytes(t, at(rt, 0)), someErr(st, "gzreaderr", ok)))
	}
	models["embed.FS.ReadFile"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		fs, name := a[0].C[0], a[1].C[0]
		ok := UF("fileexists", SBool, fs, name)
		e := someErr(st, "fserr", ok)
		return x.fork(st, ok, func(st *State) []stVal {
			return one(st, two(rt, st.newBytes(UF("filetext", SStr, fs, name), at(rt, 0)), e))
		}, func(st *State) []stVal {
			return one(st, two(rt, zeroVal(at(rt, 0)), e))
		})
	}
	models["sync.Once.Do"] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
		if a[0].Loc == nil || a[1].Fn == nil {
			unsup("sync.Once of unknown identity")
		}
		name := "X:once." + a[0].Loc.prefix
		if a[0].Loc.ref != nil {
			unsup("sync.Once in an object")
		}
		done := st.hget(name, SBool)
		return x.fork(st, done, func(st *State) []stVal { return one(st, Val{T: rt}) }, func(st *State) []stVal {
			st.hset(name, True)
			st.logWrite(name, nil)
			var out []stVal
			for _, r := range x.callFn(st, a[1].Fn.fn, a[1].Fn.binds, nil, rt) {
				out = append(out, stVal{r.st, Val{T: rt}})
			}
			return out
		})
	}
	for k, n := range map[string]int{"le1": 1, "le2": 2, "le4": 4} {
		specFuncs[k] = func(e *Eval, as []*Node) Val { return vInt(le(e.Str(as[0]), e.Int(as[1]), n)) }
	}
	specFuncs["uv"] = func(e *Eval, as []*Node) Val { v, _, _ := uvar(e.Str(as[0]), e.Int(as[1])); return vInt(v) }
	specFuncs["uvok"] = func(e *Eval, as []*Node) Val { _, v, _ := uvar(e.Str(as[0]), e.Int(as[1])); return vBool(v) }
	specFuncs["uvend"] = func(e *Eval, as []*Node) Val { _, _, v := uvar(e.Str(as[0]), e.Int(as[1])); return vInt(v) }
	specFuncs["ungz"] = func(e *Eval, as []*Node) Val {
		s := e.Str(as[0])
		return vBool(And(UF("gzheader", SBool, s), UF("gzok", SBool, s)))
	}
	specFuncs["fsid"] = func(e *Eval, as []*Node) Val { return vInt(e.Eval(as[0]).C[0]) }
	specFuncs["atoi"] = func(e *Eval, as []*Node) Val { return vInt(UF("atoi", SInt, e.Str(as[0]))) }
	specFuncs["gunzip"] = func(e *Eval, as []*Node) Val { return vStr(UF("gunzip", SStr, e.Str(as[0]))) }
	specFuncs["nsplit"] = func(e *Eval, as []*Node) Val {
		return vInt(withRange(UF("splitn", SInt, e.Str(as[0]), e.Str(as[1])), big.NewInt(1), nil))
	}
	specFuncs["split"] = func(e *Eval, as []*Node) Val { return vStr(UF("splitnth", SStr, e.Str(as[0]), e.Str(as[1]), e.Int(as[2]))) }
	specFuncs["rdtext"] = func(e *Eval, as []*Node) Val { s, _ := rdState(e.st, e.Eval(as[0]).C[0]); return vStr(s) }
	specFuncs["rdpos"] = func(e *Eval, as []*Node) Val { _, p := rdState(e.st, e.Eval(as[0]).C[0]); return vInt(p) }
	specFuncs["exists_file"] = func(e *Eval, as []*Node) Val { return vBool(UF("fileexists", SBool, e.Eval(as[0]).C[0], e.Str(as[1]))) }
	specFuncs["filetext"] = func(e *Eval, as []*Node) Val { return vStr(UF("filetext", SStr, e.Eval(as[0]).C[0], e.Str(as[1]))) }
	for _, k := range []string{"bytes.NewReader", "bytes.Reader.Read", "encoding/binary.Read", "encoding/binary.ReadUvarint", "compress/gzip.NewReader", "io.ReadAll", "embed.FS.ReadFile"} {
		m := models[k]
		models[k] = func(x *Exec, st *State, a []Val, rt types.Type) []stVal {
			if x.initMode {
				unsup("%s in initialisation", k)
			}
			return m(x, st, a, rt)
		}
	}
}
