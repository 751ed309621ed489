package main

import (
	"fmt"
	"strings"
)

// explain narrows a difference between two values down to the decisions that
// lead to it and the smallest pair of sub-values that differ.
func (a *Arena) explain(m, r *Term) string {
	var conds []string
	var at []string
	n := 0
	for m != r && m != nil && r != nil {
		n++
		if n > 400 {
			break
		}
		if m.op == OIte || r.op == OIte {
			top := minTop(m, r)
			m1, r1 := cof(m, top, true), cof(r, top, true)
			m0, r0 := cof(m, top, false), cof(r, top, false)
			if m1 != r1 && (m0 == r0 || true) {
				// prefer the side whose values are smaller
				if m0 != r0 && m0.sz+r0.sz < m1.sz+r1.sz {
					conds = append(conds, "!("+show(top, 4)+")")
					m, r = m0, r0
					continue
				}
				conds = append(conds, show(top, 4))
				m, r = m1, r1
				continue
			}
			if m0 != r0 {
				conds = append(conds, "!("+show(top, 4)+")")
				m, r = m0, r0
				continue
			}
			break
		}
		if m.op == OBox && r.op != OBox {
			m = m.args[0]
			at = append(at, "openM")
			continue
		}
		if r.op == OBox && m.op != OBox {
			r = r.args[0]
			at = append(at, "openR")
			continue
		}
		if m.op != r.op || m.s != r.s || m.k != r.k || len(m.args) != len(r.args) || len(m.ents) != len(r.ents) {
			break
		}
		moved := false
		for i := range m.args {
			if m.co != nil && m.co[i] != r.co[i] {
				break
			}
			if m.args[i] != r.args[i] && m.args[i] != nil && r.args[i] != nil {
				at = append(at, fmt.Sprintf("%s#%d", opName(m), i))
				m, r = m.args[i], r.args[i]
				moved = true
				break
			}
		}
		if !moved {
			for i := range m.ents {
				p, q := m.ents[i].path, r.ents[i].path
				if len(p) != len(q) {
					break
				}
				same := true
				for j := range p {
					if p[j] != q[j] {
						same = false
						at = append(at, "index")
						m, r = p[j], q[j]
						moved = true
						break
					}
				}
				if !same {
					break
				}
				if m.ents[i].val != r.ents[i].val {
					at = append(at, "entry")
					m, r = m.ents[i].val, r.ents[i].val
					moved = true
					break
				}
			}
		}
		if !moved {
			break
		}
	}
	if len(conds) > 12 {
		conds = append(conds[:3], append([]string{"…"}, conds[len(conds)-8:]...)...)
	}
	s := ""
	if len(conds) > 0 {
		s = "when " + strings.Join(conds, " & ")
	}
	if len(at) > 0 {
		if len(at) > 10 {
			at = append([]string{"…"}, at[len(at)-9:]...)
		}
		s += " at " + strings.Join(at, "/")
	}
	return s + ": reference " + show(m, 6) + "; here " + show(r, 6)
}

func opName(t *Term) string {
	if t.s != "" {
		return t.s
	}
	return fmt.Sprintf("op%d", t.op)
}
