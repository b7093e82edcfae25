package main

// spellings are all forms of an object's path with the names in sight; the first one is the shortest.
func spellings(env map[string]Path, head, p Path, qualified, allowRel bool) [][]string {
	var z [][]string
	if p.key() == head.key() && !qualified {
		z = append(z, []string{})
	}
	if allowRel && p.hasPrefix(head) && len(p) > len(head) {
		z = append(z, p[len(head):])
	}
	for _, n := range sortedKeys(env) {
		if q := env[n]; len(q) > 0 && p.hasPrefix(q) {
			z = append(z, append([]string{n}, p[len(q):]...))
		}
	}
	return z
}

// enumP07 yields queries with all combinations of spellings of their references and FROM paths, and of aliases.
func enumP07(deep bool, yield func(c any) bool) {
	C, R, S, TS, U := Path{"c"}, Path{"c", "r"}, Path{"c", "r", "s"}, Path{"c", "ts"}, Path{"c", "ts", "u"}
	k := 0
	run := func(child, declared bool, aliasC, aliasR, aliasT, aliasU string) bool {
		// places are the references and paths that are spelled in all ways
		type place struct {
			parts func(parts []string)
			opts  [][]string
			field bool // the last part is a field
		}
		build := func(aliasC, aliasR, aliasT, aliasU string) (*Query, []place) {
			var ps []place
			env := map[string]Path{"c": C}
			if aliasC != "" {
				env[aliasC] = C
			}
			from := []*FromObj{{Path: C, Parts: []string{"c"}, Alias: aliasC}}
			if declared {
				f := &FromObj{Path: R, Alias: aliasR}
				from = append(from, f)
				ps = append(ps, place{func(p []string) { f.Parts = p }, spellings(env, C, R, true, true), false})
				if aliasR != "" {
					env[aliasR] = R
				}
			}
			ref := func(env map[string]Path, head, obj Path, field string, outer bool) *Ref {
				r := &Ref{Obj: obj, Field: field, Outer: outer}
				ps = append(ps, place{func(p []string) { r.Parts = append(append([]string{}, p...), field) },
					spellings(env, head, obj, outer, !outer), true})
				return r
			}
			it := func(r *Ref) *Item { return &Item{Kind: "field", Ref: r} }
			q := &Query{From: from}
			q.Items = append(q.Items, it(ref(env, C, R, "x", false)))
			if !child {
				q.Items = append(q.Items, it(ref(env, C, C, "a", false)))
				q.Items = append(q.Items, sAlias(sFn("fn", it(ref(env, C, S, "y", false))), "k"))
				q.Where = &Cond{Op: "or", L: &Cond{Op: "cmp", X: it(ref(env, C, R, "z", false)), Cmp: "=", Y: sInt(1)},
					R: &Cond{Op: "cmp", X: sFn("gn", it(ref(env, C, C, "b", false))), Cmp: "<", Y: sInt(2)}}
				q.OrderBy = []*Key{{Ref: ref(env, C, C, "a", false), Item: -1}}
				return q, ps
			}
			tenv := map[string]Path{}
			for n, p := range env {
				tenv[n] = p
			}
			th := &FromObj{Path: TS, Alias: aliasT}
			sub := &Query{From: []*FromObj{th}}
			heads := [][]string{{"ts"}, {"c", "ts"}}
			if aliasC != "" {
				heads = append(heads, []string{aliasC, "ts"})
			}
			ps = append(ps, place{func(p []string) { th.Parts = p }, heads, false})
			if aliasT != "" {
				tenv[aliasT] = TS
			}
			if aliasT != "" || aliasC != "" {
				// a further object of the child; its path begins with a name in sight
				tu := &FromObj{Path: U, Alias: aliasU}
				sub.From = append(sub.From, tu)
				ps = append(ps, place{func(p []string) { tu.Parts = p }, spellings(tenv, TS, U, true, false), false})
				if aliasU != "" {
					tenv[aliasU] = U
				}
			}
			sub.Items = []*Item{sField("", "t"), it(ref(tenv, TS, U, "v", false))}
			sub.Items[0].Ref.Obj = TS
			y := it(ref(tenv, TS, C, "a", true))
			if declared {
				y = it(ref(tenv, TS, R, "x", true))
			}
			sub.Where = &Cond{Op: "cmp", X: it(ref(tenv, TS, TS, "w", false)), Cmp: "=", Y: y}
			q.Items = append(q.Items, sSub(sub))
			return q, ps
		}
		further := child && (aliasT != "" || aliasC != "")
		oc, ot := "", ""
		if further {
			// the other query has the same objects
			ot = "zt"
		}
		q, ps := build(oc, "", ot, "")
		for _, p := range ps {
			p.parts(p.opts[0])
		}
		_, ps = build(aliasC, aliasR, aliasT, aliasU)
		var rec func(i int, choice []int) bool
		rec = func(i int, choice []int) bool {
			if i < len(ps) {
				for j := range ps[i].opts {
					if !rec(i+1, append(choice, j)) {
						return false
					}
				}
				return true
			}
			upper := func(mask int) bool {
				b, ps := build(aliasC, aliasR, aliasT, aliasU)
				for i, p := range ps {
					w := append([]string{}, p.opts[choice[i]]...)
					if mask>>i&1 == 1 {
						for j := range w {
							w[j] = asciiUpper(w[j])
						}
					}
					p.parts(w)
				}
				return yield(SpellCase{Q: q, B: b})
			}
			k++
			if !deep {
				return upper(k % (1 << len(ps)) * (k % 2))
			}
			for i := range ps {
				if !upper(1 << i) {
					return false
				}
			}
			return upper(0) && upper(-1)
		}
		return rec(0, nil)
	}
	two := func(f func(a string) bool, names ...string) bool {
		for _, n := range names {
			if !f(n) {
				return false
			}
		}
		return true
	}
	acs := []string{"", "o"}
	if deep {
		acs = append(acs, "a")
	}
	for _, child := range []bool{false, true} {
		for _, declared := range []bool{false, true} {
			if !two(func(ac string) bool {
				rs, ts, us := []string{""}, []string{""}, []string{""}
				if declared {
					rs = append(rs, "w")
					if deep {
						rs = append(rs, "b")
					}
				}
				if child {
					ts = append(ts, "y")
					if deep {
						us = append(us, "z")
					}
				}
				return two(func(ar string) bool {
					return two(func(at string) bool {
						return two(func(au string) bool { return run(child, declared, ac, ar, at, au) }, us...)
					}, ts...)
				}, rs...)
			}, acs...) {
				return
			}
		}
	}
	// aliases that are used twice
	names := []string{"", "o", "O", "w", "W", "c", "C", "Ow", "oW"}
	for _, a1 := range []string{"o", "w", "W", "Ow"} {
		for _, a2 := range names {
			for _, a3 := range names {
				seen := map[string]bool{"c": true, lc(a1): true}
				dup := false
				for _, a := range []string{a2, a3} {
					dup = dup || a != "" && seen[lc(a)]
					seen[lc(a)] = true
				}
				mk := func(a2, a3 string) *Query {
					return &Query{Items: []*Item{sField("c", "a")}, From: []*FromObj{{Path: C, Parts: []string{"c"}, Alias: a1},
						{Path: R, Parts: []string{a1, "r"}, Alias: a2}, {Path: TS, Parts: []string{a1, "ts"}, Alias: a3}}}
				}
				c := SpellCase{Q: mk("", ""), B: mk("n1", "n2")}
				if dup {
					c.Dup, c.Fresh = mk(a2, a3), mk("n1", "n2")
				} else {
					c.B = mk(a2, a3)
				}
				if !yield(c) {
					return
				}
			}
		}
	}
}

func init() {
	enums["P07"] = enumP07
	registry["P07"].Rule += "; before these, a complete small scope: a query on two related objects, with and without a child, with all combinations of aliases and of spellings of its (up to 7) paths and references, and all assignments of 9 aliases to three objects"
}
