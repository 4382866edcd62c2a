package main

import (
	"github.com/lubgr/deflect/deflect"
)

func polysIn(raw []obj) deflect.PolySequence {
	ps := make(deflect.PolySequence, 0, len(raw))
	for _, o := range raw {
		ps = append(ps, polyIn(o))
	}
	return ps
}

func polyIn(o obj) deflect.PolyPiece {
	p := deflect.PolyPiece{X0: num(str(o, "x0")), XE: num(str(o, "xe"))}
	for _, c := range o["c"].([]any) {
		p.Coeff = append(p.Coeff, num(c.(string)))
	}
	return p
}

func runPoly(name string, op, rep obj) {
	switch name {
	case "eval":
		p := polyIn(op["p"].(obj))
		y, err := p.Eval(num(str(op, "x")))
		rep["err"], rep["val"], rep["degree"] = errText(err), text(y), p.Degree()
		rep["after"] = piecesOut(deflect.PolySequence{p})
	case "trim":
		ps := polysIn(list(op, "ps"))
		ps.TrimTrailingZeros(num(str(op, "tol")))
		rep["ps"] = piecesOut(ps)
	case "compact":
		ps := polysIn(list(op, "ps"))
		ps = ps.CompactIdentical(num(str(op, "tol")))
		rep["ps"] = piecesOut(ps)
	case "interval":
		ps := polysIn(list(op, "ps"))
		rep["i"] = ps.IntervalIndex(num(str(op, "x0")), num(str(op, "xe")))
		rep["after"] = piecesOut(ps)
	}
}

func runCS(op, rep obj) {
	cs, err := newCS(op)
	rep["err"] = errText(err)
	if err == nil {
		rep["A"], rep["Iyy"], rep["Izz"] = text(cs.Area()), text(cs.Iyy()), text(cs.Izz())
		rep["Ixx"], rep["roll"] = text(cs.Ixx()), text(cs.RollAngle())
	}
}

// newElem only constructs an element.
func (w *world) newElem(op, rep obj) {
	find := func(id string) *deflect.Node {
		for _, o := range list(op, "nodes") {
			if str(o, "id") == id {
				return &deflect.Node{ID: id, X: num(str(o, "x")), Y: num(str(o, "y")), Z: num(str(o, "z"))}
			}
		}
		misuse("no node %v", id)
		return nil
	}
	cs, _ := deflect.NewConstantsCrossSections(map[string]float64{"A": 1, "Iyy": 1, "Izz": 1})
	m := &deflect.Material{CrossSection: cs, LinearElastic: deflect.LinearElastic{YoungsModulus: 1}}
	hinges := map[deflect.Index]struct{}{}
	for _, h := range list(op, "hinges") {
		hinges[index(h)] = struct{}{}
	}
	_, err := newElement(str(op, "kind"), str(op, "id"), find(str(op, "n0")), find(str(op, "n1")), m, hinges)
	rep["err"] = errText(err)
}
