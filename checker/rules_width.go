package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Offsets need 64 bits everywhere (C02, C03, C24).

// narrow: an integer type of at most 32 bits.
func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}

// fromOffset: v is computed from a record's offset or a recorded position.
func fromOffset(v ssa.Value, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if n, _ := fieldOf(x); n == "Record.Offset" || n == "kgo.Record.Offset" || n == "partitionWorker.highestOffset" {
			return true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == al && fromOffset(st.Val, seen) {
					return true
				}
			}
			return false
		}
		return fromOffset(x.X, seen)
	case *ssa.FieldAddr:
		n, _ := fieldOf(x)
		return n == "Record.Offset" || n == "kgo.Record.Offset" || n == "partitionWorker.highestOffset"
	case *ssa.BinOp:
		return fromOffset(x.X, seen) || fromOffset(x.Y, seen)
	case *ssa.Convert:
		return fromOffset(x.X, seen)
	case *ssa.ChangeType:
		return fromOffset(x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if fromOffset(e, seen) {
				return true
			}
		}
	case *ssa.Extract:
		return fromOffset(x.Tuple, seen)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil {
			return false
		}
		switch f.Name() {
		case "Offset", "Watermark", "lastProcessed":
			return true
		}
	case *ssa.Parameter:
		return x.Name() == "offset"
	}
	return false
}

func init() {
	rule("offset.width", "C02 C03 C24",
		"offsets and positions keep their 64 bits: none is converted to a narrower type, recorded positions are decoded and kept as 64 bits",
		func(r *R) {
			n, m := 0, 0
			for _, fn := range r.p.All {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						switch x := ins.(type) {
						case *ssa.Convert:
							if !fromOffset(x.X, map[ssa.Value]bool{}) {
								continue
							}
							n++
							if narrow(x.Type()) && !narrow(x.X.Type()) {
								r.fail(x.Pos(), r.p.Name(fn), "an offset is cut to 32 bits", nil)
							}
						case *ssa.Call:
							f := x.Call.StaticCallee()
							if f == nil {
								continue
							}
							for i, a := range x.Call.Args {
								if !fromOffset(a, map[ssa.Value]bool{}) {
									continue
								}
								n++
								if i < f.Signature.Params().Len() && f.Signature.Recv() == nil && narrow(f.Signature.Params().At(i).Type()) {
									r.fail(x.Pos(), r.p.Name(fn), "an offset is cut to 32 bits", nil)
								}
							}
						case *ssa.MapUpdate:
							name, _ := fieldOf(x.Map)
							if name != "eosCommitLog.watermarks" {
								continue
							}
							m++
							var wide func(v ssa.Value, seen map[ssa.Value]bool) bool
							wide = func(v ssa.Value, seen map[ssa.Value]bool) bool {
								if seen[v] {
									return true
								}
								seen[v] = true
								if narrow(v.Type()) {
									return false
								}
								switch y := v.(type) {
								case *ssa.Convert:
									return wide(y.X, seen)
								case *ssa.ChangeType:
									return wide(y.X, seen)
								case *ssa.BinOp:
									return wide(y.X, seen) && wide(y.Y, seen)
								case *ssa.Phi:
									for _, e := range y.Edges {
										if !wide(e, seen) {
											return false
										}
									}
								case *ssa.UnOp:
									if al, ok := y.X.(*ssa.Alloc); ok {
										for _, u := range *al.Referrers() {
											if st, ok := u.(*ssa.Store); ok && st.Addr == al && !wide(st.Val, seen) {
												return false
											}
										}
									}
								}
								return true
							}
							if !wide(x.Value, map[ssa.Value]bool{}) {
								r.fail(x.Pos(), r.p.Name(fn), "a recorded position is decoded or kept with 32 bits", nil)
							}
						}
					}
				}
			}
			r.need(n, 1, "conversions and uses of offsets")
			r.need(m, 1, "recorded positions")
			r.insts += n + m
		})
}
