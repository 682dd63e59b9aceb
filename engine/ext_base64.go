package main

import (
	"encoding/base64"

	"golang.org/x/tools/go/ssa"
)

// Symbolic bytes that went through Encode of the standard base64 encoding are decoded to the bytes
// they were made of, without terms for the tables in both directions. Everything else, and the
// encoding itself, is interpreted.

type b64Quantum [4]*Term

func b64IsStd(v value) bool {
	c, ok := v.(*value)
	if !ok || c == nil {
		return false
	}
	s, ok := (*c).(structure)
	if !ok || len(s) < 1 {
		return false
	}
	a, ok := s[0].(array)
	if !ok || len(a) != 64 {
		return false
	}
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	for i := range a {
		t, ok := a[i].(*Term)
		if !ok || !t.isConst() || byte(t.c) != alphabet[i] {
			return false
		}
	}
	return true
}

func init() {
	reg("(*encoding/base64.Encoding).Encode", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		src := append([]*Term{}, byteTerms(args[2])...)
		r := w.callBody(g, fr, fn, args)
		if !b64IsStd(args[0]) {
			return r
		}
		out := byteTerms(args[1])
		if w.b64 == nil {
			w.b64 = map[b64Quantum][]*Term{}
		}
		for i := 0; i*3 < len(src) && i*4+4 <= len(out); i++ {
			e := min(i*3+3, len(src))
			sym := false
			for _, t := range src[i*3 : e] {
				sym = sym || !t.isConst()
			}
			if sym {
				w.b64[b64Quantum(out[i*4:i*4+4])] = src[i*3 : e]
			}
		}
		return r
	})
	reg("(*encoding/base64.Encoding).Decode", func(w *W, g *G, fr *frame, fn *ssa.Function, args []value) value {
		src := byteTerms(args[2])
		dst, ok := args[1].([]value)
		if !ok || len(w.b64) == 0 || len(src)%4 != 0 || !b64IsStd(args[0]) {
			return w.callBody(g, fr, fn, args)
		}
		var out []*Term
		any := false
		for i := 0; i < len(src); i += 4 {
			if b, ok := w.b64[b64Quantum(src[i:i+4])]; ok && (len(b) == 3 || i+4 == len(src)) {
				out, any = append(out, b...), true
				continue
			}
			var q [4]byte
			for k, t := range src[i : i+4] {
				if !t.isConst() {
					return w.callBody(g, fr, fn, args)
				}
				q[k] = byte(t.c)
			}
			b, err := base64.StdEncoding.DecodeString(string(q[:]))
			if err != nil || len(b) != 3 && i+4 != len(src) {
				return w.callBody(g, fr, fn, args)
			}
			for _, c := range b {
				out = append(out, w.tc.BV(8, uint64(c)))
			}
		}
		if !any || len(out) > len(dst) {
			return w.callBody(g, fr, fn, args)
		}
		for i, t := range out {
			dst[i] = t
		}
		return tuple{w.tc.BV(64, uint64(len(out))), iface{}}
	})
}
