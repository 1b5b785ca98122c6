package main

import "verif.local/mc/vs"

func init() {
	// plain: a fixed history on every constructor; in the uninstrumented build
	// (C16) it runs on the very code of the working tree.
	families["plain"] = func(w *W) {
		w.seqAll(func() string { return "fixed history" }, func() *vs.Failure {
			s := w.c.New()
			var m model
			for r := 0; r < 40; r++ {
				for i := 0; i < NKeys; i++ {
					k := (i*5 + r) % NKeys
					ops := []Op{A(k, 1+(i+r)%7), C(k), lenO, R((k + r) % NKeys), rng, RF(k)}
					for _, o := range ops {
						w.res.Calls++
						if f := stepOp(s, &m, o); f != nil {
							return f
						}
					}
				}
				if f := probeAll(s, &m, true); f != nil {
					return f
				}
			}
			return drain(s, &m)
		})
	}
}
