package main

// spec lists the explorations that decide one property.
type spec struct {
	quick, thorough []Job
	replace         bool // the thorough jobs include the quick ones
	race            bool
	bounds, outside string
}

type B = map[string]int

func job(fn string, b B, opts ...func(*Job)) Job {
	j := Job{Fn: fn, Bounds: b}
	for _, o := range opts {
		o(&j)
	}
	return j
}

func strict(j *Job) { j.Strict = true }

// p5424 are the explorations of the message parser: one per prefix that leads into a part of the
// message, followed by every continuation of up to n bytes, for every option.
func p5424(ns ...int) []Job {
	var js []Job
	for p, n := range ns {
		if n > 0 {
			js = append(js, job("P5424", B{"prefix": p, "n": n}))
		}
	}
	return js
}

// p3164 are the explorations of the RFC 3164 parser.
func p3164(ns ...int) []Job {
	var js []Job
	for p, n := range ns {
		if n > 0 {
			js = append(js, job("P3164", B{"prefix": p, "n": n}))
		}
	}
	return js
}

var n3164 = []int{13, 21, 16, 12, 14, 14, 13, 15, 13, 14, 14, 13, 4, 6, 11, 8, 8, 6, 12, 12, 12}
var n3164t = []int{16, 24, 19, 14, 16, 16, 16, 18, 16, 16, 16, 16, 4, 6, 11, 8, 8, 6, 14, 14, 14}

const b3164 = "every input made of one of the listed beginnings (tmpls3164 in harness/h/c3164.go) followed by at most n arbitrary bytes, or with n arbitrary bytes in the middle; w arbitrary bytes at every place of a long one (w, mode 0), or a long one cut anywhere (mode 1); one to four arbitrary bytes at many places together (beginnings 40 to 47); best effort and RFC 3339 options on and off"
const o3164 = "inputs with more arbitrary bytes than these; time.Parse is modelled (compared with the real one on every replayed path)"

// sweep5424 and sweep3164 put arbitrary bytes at every position of long inputs, cut them anywhere and
// follow them by arbitrary bytes.
func sweep5424(all bool) []Job {
	var js []Job
	b := func(m B) { js = append(js, job("P5424", m)) }
	w := 2
	if all {
		w = 3
	}
	for p := 30; p <= 50; p++ {
		n := w
		if p <= 31 {
			n = w - 1
		}
		b(B{"prefix": p, "mode": 0, "w": n})
		if all || p != 30 {
			b(B{"prefix": p, "mode": 1})
		}
	}
	for p := 51; p <= 59; p++ {
		n := w + 1
		switch p {
		case 53, 55:
			n = 4
		case 54:
			n = 5
		}
		b(B{"prefix": p, "n": n})
	}
	b(B{"prefix": 62, "n": 1})
	b(B{"prefix": 63, "n": 1})
	js = append(js, places()...)
	for p := 60; p <= 61; p++ {
		b(B{"prefix": p, "mode": 0, "w": w})
		b(B{"prefix": p, "mode": 1})
	}
	return js
}

func sweep3164(all bool) []Job {
	var js []Job
	b := func(m B) { js = append(js, job("P3164", m)) }
	w := 2
	if all {
		w = 3
	}
	for p := 30; p <= 38; p++ {
		n := w
		if p <= 31 {
			n = w - 1
		}
		b(B{"prefix": p, "mode": 0, "w": n})
		if all || p != 30 {
			b(B{"prefix": p, "mode": 1})
		}
	}
	b(B{"prefix": 21, "n": w + 1})
	b(B{"prefix": 22, "n": w})
	b(B{"prefix": 23, "n": 1})
	for p := 40; p <= 47; p++ {
		b(B{"prefix": p})
	}
	return js
}

// t3164 are timestamps under every combination of the year and timezone options.
func t3164(all bool) []Job {
	var js []Job
	for zi := 0; zi < 7; zi++ {
		for zo := 0; zo < 7; zo++ {
			for yk := 0; yk < 3; yk++ {
				b := func(form int) Job {
					return job("T3164", B{"form": form, "locale": zi, "timezone": zo, "year.kind": yk})
				}
				js = append(js, b(4))
				few := (zi == 0 || zo == 0 || zi+zo == 7 || zi == zo) && yk == 1
				if few || all {
					js = append(js, b(5))
				}
				if (few && zi+zo == 7) || all {
					js = append(js, b(0))
				}
				if (zi == 2 && zo == 3 && yk == 1) || (all && zi != zo) {
					js = append(js, b(1))
				}
			}
		}
	}
	for zi := 0; zi < 7; zi++ {
		js = append(js, job("T3164", B{"form": 2, "locale": zi}), job("T3164", B{"form": 3, "locale": zi}))
	}
	return js
}

// small bounds for holes of templates that hold exactly n bytes
var holes5424 = map[int]int{16: 3, 17: 4, 18: 5, 19: 4, 20: 3, 21: 4, 22: 3, 23: 6, 24: 3, 25: 6, 26: 4, 27: 4, 28: 8}
var holes3164 = map[int]int{12: 3, 13: 6, 14: 8, 15: 8, 16: 8, 17: 6, 18: 4, 19: 4, 20: 3}

// reuse are the explorations of C07.
func reuse(all bool) []Job {
	var js []Job
	n := func(holes map[int]int, t, n int) int {
		if h, ok := holes[t]; ok {
			return h
		}
		return n
	}
	na, nb := 3, 4
	if all {
		na, nb = 4, 5
	}
	for t := range n5424 {
		js = append(js, job("Keep5424", B{"a": t, "na": n(holes5424, t, na), "b": 12, "warm": t % 4, "after": (t + 1) % 5, "other": t % 3, "from": t % 10}))
	}
	for _, t := range []int{40, 44, 49, 50} {
		js = append(js, job("Keep5424", B{"a": t, "b": 12}), job("Keep5424", B{"a": t, "b": 1, "mode": 1}))
	}
	for _, t := range []int{32, 36, 37, 38} {
		js = append(js, job("Keep3164", B{"a": t, "b": 9}), job("Keep3164", B{"a": t, "b": 3, "mode": 1}))
	}
	for _, t := range []int{70, 71, 73, 77} {
		js = append(js, job("Keep5424", B{"a": t, "b": 12}))
	}
	if all {
		js = append(js, job("Keep5424", B{"a": 79, "b": 12}))
	}
	for _, t := range []int{40, 42, 44, 45} {
		js = append(js, job("Keep3164", B{"a": t, "b": 9}))
	}
	for t := range n3164 {
		js = append(js, job("Keep3164", B{"a": t, "na": n(holes3164, t, na+1), "b": 9, "warm": t % 4, "after": (t + 1) % 5, "other": t % 3, "from": t % 9}))
	}
	for _, a := range []int{12, 4, 13, 15, 9, 14, 2, 0} {
		for b := range n5424 {
			if all || a == 12 || (a+b)%4 == 0 {
				js = append(js, job("Reuse5424", B{"a": a, "na": 1, "b": b, "nb": n(holes5424, b, nb), "scribble": b % 2, "warm": b % 4, "between": (b + 1) % 3, "from": (a + b) % 10}))
			}
		}
	}
	for i, a := range []int{12, 16, 26} {
		for _, b := range []int{4, 10, 13, 15} {
			js = append(js, job("Reuse5424", B{"a": a, "na": 1 - i%2, "b": b, "nb": 2, "scribble": 1, "first": 1, "warm": 3, "between": b % 3, "from": b % 10}))
		}
	}
	for _, b := range []int{0, 2, 8, 12, 13} {
		js = append(js, job("Reuse5424", B{"a": 4, "na": 0, "b": b, "nb": 1, "scribble": 1, "warm": 300}))
	}
	for _, b := range []int{0, 3, 7, 9, 10} {
		js = append(js, job("Reuse3164", B{"a": 4, "na": 0, "b": b, "nb": 2, "scribble": 1, "warm": 300}),
			job("Reuse3164", B{"a": 7, "na": b % 2, "b": b, "nb": 2, "scribble": 1, "first": 1, "warm": 3, "between": b % 3, "from": b}))
	}
	for _, a := range []int{9, 4, 5, 6, 10, 3, 8, 0} {
		for b := range n3164 {
			if all || a == 9 || (a+b)%4 == 0 {
				js = append(js, job("Reuse3164", B{"a": a, "na": 1, "b": b, "nb": n(holes3164, b, nb), "scribble": b % 2, "warm": b % 4, "between": (b + 1) % 3, "from": (a + b) % 9}))
			}
		}
	}
	return js
}

// build are the explorations of the setters.
func build(all bool) []Job {
	js := []Job{job("C11Set", B{"op": 0}), job("C11Set", B{"op": 1})}
	n, k, m := 4, 3, 7
	if all {
		n, k, m = 8, 5, 14
	}
	for i, max := range []int{255, 48, 128, 32} {
		js = append(js, job("C11Set", B{"op": 2 + i, "pre": 0, "n": n}), job("C11Set", B{"op": 2 + i, "pre": max - 2, "n": n}))
	}
	w := 1
	if all {
		w = 2
	}
	for i, max := range []int{255, 48, 128, 32} {
		for x := 0; x < 2; x++ {
			js = append(js, job("C11Set", B{"op": 2 + i, "fill": max + x, "w": w}), job("C11Set", B{"op": 2 + i, "fill": max + 2*x, "mode": 1}))
		}
	}
	for _, k := range []int{32, 33} {
		js = append(js, job("C11Set", B{"op": 6, "fill": k, "w": w + 1}), job("C11Set", B{"op": 8, "which": 0, "fill": k, "w": w + 1}), job("C11Set", B{"op": 8, "which": 1, "fill": k, "w": w + 1}),
			job("C11Set", B{"op": 6, "fill": k + 1, "mode": 1}), job("C11Set", B{"op": 8, "which": 1, "fill": k + 1, "mode": 1}))
	}
	js = append(js, job("C11Set", B{"op": 8, "which": 2, "fill": 20, "w": w + 1}), job("C11Set", B{"op": 7, "fill": 20, "w": w + 1}),
		job("C11Set", B{"op": 8, "which": 2, "fill": 300, "mode": 1}), job("C11Set", B{"op": 7, "fill": 900, "w": 2}))
	for pre := 0; pre < 5; pre++ {
		js = append(js, job("C11Set", B{"op": 6, "pre": pre, "n": k}))
		for w := 0; w < 3; w++ {
			js = append(js, job("C11Set", B{"op": 8, "which": w, "pre": pre, "n": k}))
		}
	}
	js = append(js, job("C11Set", B{"op": 7, "n": n}), job("C11Set", B{"op": 8, "which": 2, "pre": 0, "n": n + 1}))
	for op := 9; op < 12; op++ {
		js = append(js, job("C11Set", B{"op": op, "n": 2}))
		if all {
			js = append(js, job("C11Set", B{"op": op, "n": 3}))
		}
	}
	for pre, n := range []int{m, m, m + 2, m, m, 4, 8, 8, 8, 7, 6} {
		js = append(js, job("C11Set", B{"op": 12, "pre": pre, "n": n}))
	}
	return js
}

var n5424trip = []int{16, 7, 6, 9, 8, 11, 0, 0, 7, 7, 7, 7, 5, 6, 5, 8, 3, 4, 5, 4, 3, 4, 3, 5, 3, 6, 4, 4, 8}
var n5424tript = []int{19, 10, 8, 12, 10, 14, 12, 12, 10, 10, 9, 9, 8, 9, 8, 14, 5, 4, 5, 4, 5, 6, 5, 6, 5, 6, 7, 7, 8}

// trip are the explorations of C12.
func trip(all bool) []Job {
	ns, n := n5424trip, 3
	if all {
		ns, n = n5424tript, 5
	}
	js := on("C12Parse", p5424(ns...))
	for _, j := range on("C12Parse", sweep5424(all)) {
		switch j.Bounds["prefix"] {
		case 63: // too long to be built again
			continue
		case 79:
			if !all {
				continue
			}
		case 54:
			j.Bounds["n"] = 3
		}
		js = append(js, j)
	}
	b := func(m B) { js = append(js, job("C12Build", m)) }
	for f := 0; f < 4; f++ {
		js = append(js, job("C12Build", B{"what": 0, "field": f, "n": n - 1}, strict))
	}
	b(B{"what": 1, "n": n + 1})
	b(B{"what": 2, "n": n})
	b(B{"what": 2, "n": n - 1, "ni": 1, "nn": 2})
	b(B{"what": 2, "n": 1, "ni": 2, "nn": 2})
	b(B{"what": 3, "n": n + 1})
	for pre, n := range []int{0, 0, 6, 5, 5, 4, 8, 8, 0, 7, 6} {
		if n > 0 {
			js = append(js, job("C12Build", B{"what": 4, "pre": pre, "n": n}, strict))
		}
	}
	b(B{"what": 5, "part": 0})
	b(B{"what": 5, "part": 1})
	b(B{"what": 5, "part": 2, "digits": 3})
	b(B{"what": 5, "part": 2, "digits": 3, "unit": 1000})
	b(B{"what": 5, "part": 3})
	b(B{"what": 6, "n": n - 1})
	b(B{"what": 7})
	b(B{"what": 8})
	b(B{"what": 9})
	return js
}

func maporder(j *Job) { j.MapOrd = true; j.Repeat = 60 }

// order are the explorations of C13.
func order(all bool) []Job {
	js := []Job{job("C13Valid", B{})}
	for w := 0; w < 5; w++ {
		js = append(js, job("C13Order", B{"what": w}, maporder))
		for _, n := range []int{7, 8, 15, 30} {
			js = append(js, job("C13Order", B{"what": w, "common": n}, maporder))
		}
	}
	for w := 5; w < 7; w++ {
		for _, n := range []int{11, 14, 26, 40} {
			js = append(js, job("C13Order", B{"what": w, "many": n}, maporder))
		}
	}
	return js
}

// octet are the explorations of octet-counted streams.
func octet(all bool) []Job {
	var js []Job
	b := func(m B) { js = append(js, job("Octet", m)) }
	ns := []int{4, 3, 3, 4, 3, 3, 3, 3, 2, 1, 4, 2, 2, 2, 3, 2}
	reads := []int{2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 1, 1, 1, 2, 1}
	if all {
		ns = []int{5, 5, 5, 6, 5, 5, 5, 4, 3, 1, 6, 5, 3, 5, 4, 4}
		reads = []int{4, 3, 3, 3, 3, 3, 3, 1, 2, 1, 3, 3, 2, 3, 3, 2}
	}
	for t, n := range ns {
		b(B{"t": t, "n": n})
		b(B{"t": t, "n": reads[t], "reads": 1})
		b(B{"t": t, "n": reads[t], "reads": 2 + t%2, "again": 1, "order": t / 2 % 2})
		if t > 2 {
			b(B{"t": t, "n": reads[t], "short": 1, "fail": t % 2})
		}
	}
	for _, max := range []int{-1, 15, 16, 17, -5} {
		b(B{"t": 1, "n": 2, "max": max})
		b(B{"t": 12, "n": 2, "max": max, "order": 1})
		b(B{"t": 6, "n": 2, "max": max, "reads": 3})
	}
	b(B{"t": 16, "n": 2})
	b(B{"t": 17, "n": 2})
	b(B{"t": 20, "n": 3})
	b(B{"t": 20, "n": 2, "reads": 2, "fail": 1})
	b(B{"t": 21, "n": 2})
	b(B{"t": 22, "n": 2})
	b(B{"t": 22, "n": 2, "max": 45, "order": 1})
	for r := 0; r < 4; r++ {
		if r != 1 {
			b(B{"t": 18, "n": 2, "reads": r})
			b(B{"t": 19, "mode": 0, "reads": r})
			b(B{"t": 19, "mode": 1, "reads": r, "fail": r % 2})
			b(B{"t": 19, "mode": 1, "reads": r, "max": 19 + r})
		}
	}
	b(B{"t": 23, "n": 1, "max": 100000})
	b(B{"t": 23, "n": 1, "max": 70000, "reads": 2})
	b(B{"t": 23, "n": 1, "max": 69999, "reads": 3, "order": 1})
	b(B{"t": 24, "n": 1})
	for i, max := range []int{1<<63 - 1, 1 << 40, 1<<63 - 20, 65536} {
		b(B{"t": 3, "n": 2, "max": max, "reads": 2 * (i % 2)})
		b(B{"t": 14, "n": 3, "max": max, "fail": i % 2})
		b(B{"t": 22, "n": 2, "max": max, "reads": 3 * (i % 2)})
		b(B{"t": 29, "n": 2, "max": max})
	}
	b(B{"t": 28, "n": 2, "max": 1 << 40, "reads": 2})
	b(B{"t": 28, "n": 2, "max": 70000, "fail": 1})
	b(B{"t": 25, "reads": 2})
	for t := 26; t <= 27; t++ {
		b(B{"t": t})
		b(B{"t": t, "reads": 2, "max": 17})
		b(B{"t": t, "reads": 3, "again": 1})
		b(B{"t": t, "short": 1, "fail": t % 2})
	}
	if all {
		b(B{"t": 25, "short": 1})
		b(B{"t": 25, "reads": 1})
		b(B{"t": 26, "reads": 1})
		b(B{"t": 27, "reads": 1})
	}
	b(B{"t": 15, "n": 2, "max": 45, "order": 1})
	b(B{"t": 15, "n": 1, "max": 45, "reads": 1})
	b(B{"t": 15, "n": 1, "max": 45, "reads": 3})
	b(B{"t": 15, "n": 1, "max": 44})
	b(B{"t": 8, "n": 3, "max": 20})
	return js
}

// trailed are the explorations of streams with trailers.
func trailed(all bool) []Job {
	var js []Job
	b := func(m B) { js = append(js, job("NonT", m)) }
	ns := []int{5, 4, 4, 4, 3, 3, 3, 4, 2, 3, 4}
	if all {
		ns = []int{7, 6, 6, 6, 6, 5, 5, 6, 4, 6, 6}
	}
	b(B{"t": 11, "n": 2})
	b(B{"t": 11, "n": 1, "trailer": 2, "reads": 2})
	b(B{"t": 15, "n": 1})
	b(B{"t": 16, "n": 1})
	b(B{"t": 16, "n": 1, "trailer": 2, "order": 1})
	b(B{"t": 18})
	for t := 17; t <= 19; t += 2 {
		b(B{"t": t, "reads": 2})
		b(B{"t": t, "trailer": 2, "reads": 3})
	}
	b(B{"t": 17, "short": 1, "fail": 1})
	if all {
		b(B{"t": 17, "reads": 1})
		b(B{"t": 18, "short": 1})
		b(B{"t": 18, "reads": 3, "again": 1})
		b(B{"t": 19, "short": 1, "trailer": 2})
		b(B{"t": 19, "reads": 1})
	}
	for r := 0; r < 4; r++ {
		if r != 1 {
			b(B{"t": 12, "n": 2, "reads": r})
			for t := 13; t < 15; t++ {
				b(B{"t": t, "mode": 0, "reads": r, "trailer": r})
				b(B{"t": t, "mode": 1, "reads": r, "fail": r % 2})
				b(B{"t": t, "mode": 1, "reads": r, "trailer": 2, "fail": 1 - r%2})
			}
			b(B{"t": 14, "mode": 0, "w": 2, "reads": r})
		}
	}
	for t, n := range ns {
		b(B{"t": t, "n": n})
		b(B{"t": t, "n": n - 1, "trailer": 2, "order": t % 2})
		b(B{"t": t, "n": n - 2, "reads": 1})
		b(B{"t": t, "n": n - 2, "reads": 1, "trailer": 2, "fail": t % 2})
		b(B{"t": t, "n": n - 1, "again": 1, "reads": t % 4, "trailer": 1})
		b(B{"t": t, "n": n - 1, "again": 1, "trailer": 3, "fail": 1})
		if t > 2 {
			b(B{"t": t, "n": n - 2, "short": 1, "fail": t % 2})
			b(B{"t": t, "n": 1, "short": 1, "fail": 1 - t%2, "trailer": 2})
		}
	}
	return js
}

func conc(j *Job) { j.Conc, j.Race, j.Repeat = true, true, 40 }

// together are the explorations of C18.
func together(all bool) []Job {
	var js []Job
	b := func(fn string, m B) { js = append(js, job(fn, m, conc)) }
	n5, n3 := [][2]int{{0, 1}, {4, 12}, {12, 13}, {2, 4}, {15, 1}}, [][2]int{{9, 4}, {3, 9}, {0, 9}, {5, 10}}
	if all {
		n5, n3 = nil, nil
		for _, x := range []int{0, 1, 2, 3, 4, 12, 13, 14, 15, 17, 19, 22} {
			for _, y := range []int{1, 4, 12, 15} {
				n5 = append(n5, [2]int{x, y})
			}
		}
		for _, x := range []int{0, 3, 4, 5, 6, 9, 10} {
			for _, y := range []int{4, 9, 10} {
				n3 = append(n3, [2]int{x, y})
			}
		}
	}
	h := func(holes map[int]int, t int) int {
		if n, ok := holes[t]; ok {
			return n
		}
		return 1
	}
	for _, x := range n5 {
		b("C18Parse5424", B{"a": x[0], "na": h(holes5424, x[0]), "b": x[1], "nb": 1})
		b("C18Parse5424", B{"same": 0, "a": x[0], "na": h(holes5424, x[0]), "b": x[1], "nb": 1})
	}
	for _, x := range n3 {
		b("C18Parse3164", B{"a": x[0], "na": 1, "b": x[1], "nb": 1})
		b("C18Parse3164", B{"same": 0, "a": x[0], "na": 1, "b": x[1], "nb": 1})
	}
	for x := 0; x < 12; x++ {
		for y := 0; y < 12; y++ {
			if all || x == y || (x+y)%3 == 0 {
				b("C18Build", B{"a": x, "b": y, "n": 1, "text": (x + y) % 2})
			}
		}
		b("C18Mixed", B{"a": x, "b": []int{1, 4, 12}[x%3], "nb": 1, "swap": x % 2})
	}
	for x := 0; x < 3; x++ {
		for y := 0; y < 3; y++ {
			b("C18Stream", B{"a": x, "b": y})
		}
	}
	return js
}

var specs = map[string]spec{}

var n5424 = []int{10, 9, 10, 10, 9, 9, 8, 8, 8, 8, 7, 7, 7, 8, 6, 8, 7, 7, 5, 6, 7, 8, 7, 8, 7, 8, 11, 10, 8}
var n5424t = []int{12, 11, 12, 12, 11, 12, 10, 10, 10, 10, 9, 9, 9, 10, 8, 10, 9, 7, 5, 7, 9, 9, 9, 9, 9, 8, 14, 12, 8}
var n5424p = []int{8, 7, 8, 8, 7, 7, 0, 0, 0, 0, 0, 6, 6, 7, 5, 7, 5, 6, 4, 5, 5, 6, 6, 6, 6, 8, 8, 8, 8}
var n5424pt = []int{10, 8, 9, 9, 8, 8, 6, 6, 6, 6, 6, 7, 7, 8, 6, 8, 6, 7, 5, 6, 6, 7, 7, 7, 7, 8, 10, 9, 8}

func parse5424(all bool) []Job {
	if all {
		return append(p5424(n5424t...), sweep5424(true)...)
	}
	return append(p5424(n5424...), sweep5424(false)...)
}

// places are inputs with arbitrary bytes at many places.
func places() []Job {
	var js []Job
	for p := 70; p <= 79; p++ {
		if p != 78 {
			js = append(js, job("P5424", B{"prefix": p}))
		}
	}
	return js
}

func parse3164(all bool) []Job {
	if all {
		return append(p3164(n3164t...), sweep3164(true)...)
	}
	return append(p3164(n3164...), sweep3164(false)...)
}

// on runs other harnesses over the same inputs.
func on(fn string, js []Job) []Job {
	for i := range js {
		js[i].Fn = fn
	}
	return js
}

const b5424 = "every input made of one of the listed beginnings (\"bounds\" of each exploration: prefix, see tmpls in harness/h/c5424.go, and n) followed by at most n arbitrary bytes, or with n arbitrary bytes in the middle; w arbitrary bytes at every place of a long one (w, mode 0), or a long one cut anywhere (mode 1); single arbitrary bytes, or two to three, at up to 24 places of a message together (prefixes 70 to 79); every combination of the best-effort and compliant-message options"
const o5424 = "inputs with more arbitrary bytes than these; messages, parameter values and numbers of elements beyond those the templates and n give; time.Parse is modelled (compared with the real one on every replayed path)"

func init() {
	for _, id := range []string{"C01", "C02", "C03", "C04", "C05"} {
		specs[id] = spec{quick: parse5424(false), thorough: parse5424(true), replace: true, bounds: b5424, outside: o5424}
	}
	specs["C06"] = spec{
		quick:    append(parse5424(false), on("P5424Pair", append(p5424(n5424p...), places()[:8]...))...),
		thorough: append(parse5424(true), on("P5424Pair", append(p5424(n5424pt...), places()...))...),
		replace:  true, bounds: b5424, outside: o5424}
	for _, id := range []string{"C08", "C09"} {
		specs[id] = spec{quick: parse3164(false), thorough: parse3164(true), replace: true, bounds: b3164, outside: o3164}
	}
	specs["C10"] = spec{quick: append(p3164(n3164...)[1:3], t3164(false)...), thorough: append(p3164(n3164t...), t3164(true)...), replace: true,
		bounds:  "timestamps with every byte of the date and time arbitrary (forms in harness/h/t3164.go) x years {none, every 16-bit year, current year} x locale and output locations {none, UTC, +02:00, -05:30, +13:00, -10:30} x RFC 3339 option x best effort x order of the options",
		outside: "locations other than UTC, four fixed offsets and one with daylight saving (an hour, from March 31 to October 27, since 1980); years beyond 65535 and negative years; time.Parse, In, AddDate and Date are modelled (compared with the real ones on every replayed path)"}
	specs["C07"] = spec{quick: reuse(false), thorough: reuse(true), replace: true,
		bounds:  "Keep: every input made of a beginning of tmpls/tmpls3164 and up to na arbitrary bytes, whose buffer is then overwritten and whose parser is used again; Reuse: every first input made of beginning a and up to na arbitrary bytes, followed by every second input made of beginning b and up to nb arbitrary bytes, compared with a fresh parser (first: the fresh one parses before everything else); before, between and after them a number of fixed inputs (warm, between, after: earlier5424, earlier3164 in harness/h/reuse.go; up to 300), whose results, and that of the first input, are written into; every option combination",
		outside: "histories of more than two arbitrary inputs; first inputs with more than na arbitrary bytes"}
	specs["C11"] = spec{quick: build(false), thorough: build(true), replace: true,
		bounds:  "every setter on an empty message and on one with every field and two elements set, with every argument made of a beginning (up to two octets short of the length limit) and at most n arbitrary bytes; SetPriority and SetVersion with every value; pairs of SetParameter calls with arbitrary names, ids or values",
		outside: "longer arguments; earlier messages other than the two and those one earlier setter leaves"}
	specs["C12"] = spec{quick: trip(false), thorough: trip(true), replace: true,
		bounds:  "C12Parse: every accepted input made of a beginning of tmpls and at most n arbitrary bytes (or n in the middle), both message modes; C12Build: built messages with each field in turn arbitrary (n bytes, or a number over its whole range) and every subset of the other fields; timestamps given as text or as values",
		outside: "messages with two long arbitrary fields; timestamps with sub-microsecond parts (the text cannot hold them) or offsets with seconds"}
	specs["C13"] = spec{quick: order(false), thorough: order(true), replace: true,
		bounds:  "every priority byte and 16-bit version, present or absent; structured data with two or three elements or parameters with arbitrary one-byte names, set in different orders, under every iteration order of the maps",
		outside: "more than three elements or parameters, other than 11 to 40 with one arbitrary name under two map orders"}
	const frames = "every stream made of a template (octetStreams, lines in harness/h/stream.go) with n arbitrary bytes in it, or up to n at its end; short: cut at every position; reads: all at once, every split into two reads with the error alone or with the last bytes, two bytes at a time, one at a time with empty reads between; fail: the reader ends in an error other than io.EOF; max: the limit (-1: every limit from 15 to 20); again: after another stream; order: options reversed; strict and best effort"
	const outframes = "longer arbitrary parts, splits into more than two reads other than the regular ones, more arbitrary places in one stream"
	for _, id := range []string{"C14", "C15"} {
		specs[id] = spec{quick: octet(false), thorough: octet(true), replace: true, bounds: frames, outside: outframes}
	}
	for _, id := range []string{"C16", "C17"} {
		specs[id] = spec{quick: trailed(false), thorough: trailed(true), replace: true, bounds: frames, outside: outframes}
	}
	specs["C21"] = spec{quick: append(octet(false), trailed(false)...), thorough: append(octet(true), trailed(true)...), replace: true, bounds: frames, outside: outframes}
	specs["C18"] = spec{quick: together(false), thorough: together(true), replace: true, race: true,
		bounds:  "two activities (parse and parse with one parser or with two, build and build, build and parse, stream and stream) on inputs made of a template and arbitrary bytes; the second activity runs as a whole before, after or between any two steps of the first that touch memory the second touches too (a lock held by the first keeps it out)",
		outside: "interleavings in which both activities are split (found natively by the race detector only when a counterexample is replayed), three or more activities, concurrent use of one message or of one stream parser"}
	c19 := []Job{job("C19Compute", B{}), job("C19Texts", B{}), job("C19Set", B{})}
	for f := 0; f < 6; f++ {
		for n := 1; n < 5; n++ {
			c19 = append(c19, job("C19Parse", B{"format": f, "n": n}))
		}
	}
	specs["C19"] = spec{quick: c19, bounds: "every priority byte, set, computed or written with 1 to 4 arbitrary bytes in complete and incomplete messages of both formats; earlier priorities", outside: "messages whose facility or severity the user sets to a code that no priority has"}
	c20 := []Job{job("C20Value", B{}), job("C20Option", B{})}
	for n := 0; n < 7; n++ {
		c20 = append(c20, job("C20Text", B{"n": n}))
	}
	c20t := append([]Job(nil), c20...)
	for n := 7; n < 13; n++ {
		c20t = append(c20t, job("C20Text", B{"n": n}))
	}
	specs["C20"] = spec{quick: c20, thorough: c20t, replace: true, bounds: "every 64-bit value as a trailer type, every pair of them as options, every text of up to 6 bytes (thorough: 12)", outside: "longer texts"}
	specs["C22"] = spec{quick: options(false), thorough: options(true), replace: true,
		bounds:  "message parsers (NewParser and NewMachine of both formats) and stream parsers (both framings) set up in another order, with repeated options, by method after the construction, or by method after an earlier input, against ones set up once by options; inputs and streams made of the templates and n arbitrary bytes; stream parsers without listener on every stream of the templates",
		outside: "other combinations of options; turning options on while a parse runs"}
	specs["C23"] = spec{quick: helpers(false), thorough: helpers(true), replace: true,
		bounds:  "every value of up to n bytes, and n arbitrary bytes anywhere in a long value; every set of positions in n arbitrary bytes with every 16-bit offset; every number of up to n digits, and n arbitrary digits anywhere in one of 18; every priority, version and range",
		outside: "longer arbitrary parts, positions that are not in increasing order, numbers of more than 18 digits"}
}

func options(all bool) []Job {
	var js []Job
	n := 2
	if all {
		n = 4
	}
	for f := 0; f < 4; f++ {
		ts := []int{0, 4, 12, 13, 15}
		if f >= 2 {
			ts = []int{1, 3, 4, 9, 10}
		}
		for k, t := range ts {
			for how := 0; how < 4; how++ {
				if all || (k+how+f)%2 == 0 {
					m := n
					if f < 2 && k == 0 || f >= 2 && k < 2 {
						m += 2
					}
					js = append(js, job("C22Machine", B{"format": f, "t": t, "how": how, "n": m}))
				}
			}
		}
	}
	for kind := 0; kind < 2; kind++ {
		ts := []int{0, 1, 2, 6, 8, 12, 13}
		if kind == 1 {
			ts = []int{0, 1, 4, 6, 8, 9, 10}
		}
		for k, t := range ts {
			for how := 0; how < 4; how++ {
				b := B{"kind": kind, "t": t, "how": how, "n": n}
				if kind == 0 && k%2 == 1 {
					b["max"] = 50
				}
				js = append(js, job("C22Stream", b))
			}
			js = append(js, job("C22Silent", B{"kind": kind, "t": t, "n": n, "reads": 2 * (k % 2)}))
		}
	}
	return js
}

func helpers(all bool) []Job {
	js := []Job{job("C23Escape", B{"n": 4}), job("C23Escape", B{"n": 2, "fill": 10, "offset": 0}), job("C23Escape", B{"n": 1, "fill": 40}),
		job("C23Remove", B{"n": 5}), job("C23Number", B{"n": 3, "fill": 18}), job("C23Range", B{})}
	for n := 0; n < 7; n++ {
		js = append(js, job("C23Number", B{"n": n}))
	}
	if all {
		js = append(js, job("C23Escape", B{"n": 5}), job("C23Escape", B{"n": 2, "fill": 24}), job("C23Escape", B{"n": 1, "fill": 200}),
			job("C23Remove", B{"n": 7}), job("C23Number", B{"n": 4, "fill": 18}), job("C23Number", B{"n": 8}))
	}
	return js
}
