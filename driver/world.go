package main

import (
	"errors"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"sync"

	"github.com/lubgr/deflect/deflect"
	"gonum.org/v1/gonum/mat"
)

type obj = map[string]any

// world holds the objects a scenario works with, by the names the scenario gives to them.
type world struct {
	parent     *world // shared objects of a concurrent section, read only
	problems   map[string]*deflect.Problem
	loads      map[string]deflect.NeumannElementBC
	loadTexts  map[string]string
	layouts    map[string]deflect.EqLayout
	solvers    map[string]deflect.ProblemSolver
	strategies map[string]deflect.EquationSolver
	results    map[string]deflect.ProblemResult
	links      map[string]*link
	mats       map[string]*deflect.Material
	nodes      map[string]*deflect.Node
	asked      int
}

type link struct {
	t  deflect.Transformer
	bc deflect.NodalValue
}

func newWorld() *world {
	return &world{
		problems:   map[string]*deflect.Problem{},
		loadTexts:  map[string]string{},
		loads:      map[string]deflect.NeumannElementBC{},
		layouts:    map[string]deflect.EqLayout{},
		solvers:    map[string]deflect.ProblemSolver{},
		strategies: map[string]deflect.EquationSolver{},
		results:    map[string]deflect.ProblemResult{},
		links:      map[string]*link{},
		mats:       map[string]*deflect.Material{},
		nodes:      map[string]*deflect.Node{},
	}
}

func (w *world) problem(name string) *deflect.Problem {
	if p, ok := w.problems[name]; ok {
		return p
	} else if w.parent != nil {
		return w.parent.problem(name)
	}
	return nil
}

func (w *world) layout(name string) (deflect.EqLayout, bool) {
	if l, ok := w.layouts[name]; ok {
		return l, true
	} else if w.parent != nil {
		return w.parent.layout(name)
	}
	return deflect.EqLayout{}, false
}

func (w *world) result(name string) deflect.ProblemResult {
	if r, ok := w.results[name]; ok {
		return r
	} else if w.parent != nil {
		return w.parent.result(name)
	}
	return nil
}

func (w *world) runAll(ops []map[string]any) {
	for _, op := range ops {
		w.runGuarded(op)
	}
}

func (w *world) runGuarded(op obj) {
	rep := obj{}
	op["rep"] = rep

	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harness); ok {
				panic(h)
			}
			for k := range rep {
				delete(rep, k)
			}
			rep["panic"] = fmt.Sprint(r)
		}
	}()

	w.run(op, rep)
}

// harness marks panics that are mistakes of the scenario or driver, not outcomes.
type harness struct{ msg string }

func misuse(format string, a ...any) {
	panic(harness{fmt.Sprintf(format, a...)})
}

func str(o obj, key string) string {
	s, ok := o[key].(string)
	if !ok {
		misuse("missing text '%v' in %v", key, o)
	}
	return s
}

func optStr(o obj, key string) string {
	s, _ := o[key].(string)
	return s
}

func list(o obj, key string) []obj {
	raw, _ := o[key].([]any)
	result := make([]obj, len(raw))
	for i, r := range raw {
		result[i] = r.(obj)
	}
	return result
}

// num converts the text of a decimal number or a fraction to the nearest float.
func num(s string) float64 {
	if x, err := strconv.ParseFloat(s, 64); err == nil {
		return x
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		misuse("not a number: %v", s)
	}
	x, _ := r.Float64()
	return x
}

func text(x float64) string {
	return strconv.FormatFloat(x, 'g', -1, 64)
}

var dofs = map[string]deflect.Dof{
	"Ux": deflect.Ux, "Uz": deflect.Uz, "Uy": deflect.Uy,
	"Phiy": deflect.Phiy, "Phiz": deflect.Phiz, "Phix": deflect.Phix,
}

var fcts = map[string]deflect.Fct{
	"Ux": deflect.FctUx, "Uz": deflect.FctUz, "Uy": deflect.FctUy,
	"Phiy": deflect.FctPhiy, "Phiz": deflect.FctPhiz, "Phix": deflect.FctPhix,
	"Nx": deflect.FctNx, "Vz": deflect.FctVz, "Vy": deflect.FctVy,
	"My": deflect.FctMy, "Mz": deflect.FctMz, "Mx": deflect.FctMx,
}

var fctOrder = []string{"Ux", "Uz", "Uy", "Phiy", "Phiz", "Phix", "Nx", "Vz", "Vy", "My", "Mz", "Mx"}

func dof(name string) deflect.Dof {
	d, ok := dofs[name]
	if !ok {
		misuse("unknown dof %v", name)
	}
	return d
}

func dofName(d deflect.Dof) string {
	for name, v := range dofs {
		if v == d {
			return name
		}
	}
	return fmt.Sprintf("?%d", uint8(d))
}

func fctName(f deflect.Fct) string {
	for name, v := range fcts {
		if v == f {
			return name
		}
	}
	return fmt.Sprintf("?%d", uint8(f))
}

func index(o obj) deflect.Index {
	return deflect.Index{NodalID: str(o, "node"), Dof: dof(str(o, "dof"))}
}

func nodalValues(in []obj) []deflect.NodalValue {
	result := make([]deflect.NodalValue, 0, len(in))
	for _, o := range in {
		result = append(result, deflect.NodalValue{Index: index(o), Value: num(str(o, "val"))})
	}
	return result
}

func valuesOut(in []deflect.NodalValue) []any {
	result := make([]any, 0, len(in))
	for _, v := range in {
		result = append(result, obj{"node": v.NodalID, "dof": dofName(v.Dof), "val": text(v.Value)})
	}
	return result
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if msg := err.Error(); msg != "" {
		return msg
	}
	return "(empty message)"
}

func (w *world) run(op, rep obj) {
	switch name := str(op, "op"); name {
	case "mk":
		w.mk(op, rep)
	case "parse":
		w.parse(op, rep)
	case "add":
		p := w.problem(str(op, "p"))
		w.add(p, str(op, "elem"), op["load"].(obj), rep)
	case "rm":
		p := w.problem(str(op, "p"))
		elementByID(p, str(op, "elem")).RemoveLoad(w.loads[str(op, "lid")])
		rep["done"] = true
	case "setbc":
		w.setbc(op, rep)
	case "layout":
		w.newLayout(op, rep)
	case "solve":
		w.solve(op, rep)
	case "all":
		w.all(op, rep)
	case "get":
		w.get(op, rep)
	case "interp":
		w.interp(op, rep)
	case "interpall":
		w.interpAll(op, rep)
	case "dump":
		w.dump(op, rep)
	case "par":
		w.par(op, rep)
	case "eval", "trim", "compact", "interval":
		runPoly(name, op, rep)
	case "cs":
		runCS(op, rep)
	case "expect":
		w.expect(op, rep)
	case "newelem":
		w.newElem(op, rep)
	default:
		misuse("unknown operation %v", name)
	}
}

func elementByID(p *deflect.Problem, id string) deflect.Element {
	for _, e := range p.Elements {
		if e.ID() == id {
			return e
		}
	}
	misuse("no element %v", id)
	return nil
}

func newCS(o obj) (deflect.CrossSection, error) {
	par := map[string]float64{}
	if raw, ok := o["par"].(obj); ok {
		for k, v := range raw {
			par[k] = num(v.(string))
		}
	}
	if str(o, "kind") == "rectangle" {
		return deflect.NewRectangularCrossSection(par["b"], par["h"], par["roll"])
	}
	return deflect.NewConstantsCrossSections(par)
}

func newElement(kind, id string, n0, n1 *deflect.Node, m *deflect.Material, h map[deflect.Index]struct{}) (deflect.Element, error) {
	switch kind {
	case "truss2d":
		return deflect.NewTruss2d(id, n0, n1, m, h)
	case "truss3d":
		return deflect.NewTruss3d(id, n0, n1, m, h)
	case "frame2d":
		return deflect.NewFrame2d(id, n0, n1, m, h)
	}
	misuse("unknown element kind %v", kind)
	return nil, nil
}

// mk builds a problem by API calls. Elements are listed in the given order.
func (w *world) mk(op, rep obj) {
	st := op["st"].(obj)
	p := &deflect.Problem{}

	nodes := list(st, "nodes")
	p.Nodes = make([]deflect.Node, len(nodes))
	at := map[string]*deflect.Node{}
	for i, n := range nodes {
		p.Nodes[i] = deflect.Node{ID: str(n, "id"), X: num(str(n, "x")), Y: num(str(n, "y")), Z: num(str(n, "z"))}
		at[p.Nodes[i].ID] = &p.Nodes[i]
	}

	mats := map[string]deflect.LinearElastic{}
	for _, m := range list(st, "mats") {
		mats[str(m, "id")] = deflect.LinearElastic{
			YoungsModulus: num(str(m, "E")), PoissonsRatio: num(str(m, "nu")), Density: num(str(m, "rho"))}
	}

	css := map[string]deflect.CrossSection{}
	for _, c := range list(st, "css") {
		cs, err := newCS(c)
		if err != nil {
			misuse("cross section %v: %v", c, err)
		}
		css[str(c, "id")] = cs
	}

	// Elements with the same material and cross section share the same Material instance.
	pairs := map[[2]string]*deflect.Material{}
	ctor := []any{}

	for _, e := range list(st, "elems") {
		key := [2]string{str(e, "mat"), str(e, "cs")}
		if pairs[key] == nil {
			pairs[key] = &deflect.Material{CrossSection: css[key[1]], LinearElastic: mats[key[0]]}
		}
		hinges := map[deflect.Index]struct{}{}
		for _, h := range list(e, "hinges") {
			hinges[index(h)] = struct{}{}
		}
		if len(hinges) > 0 { // the hinges are the caller's, and may be used again
			_, _ = newElement(str(e, "kind"), str(e, "id"), at[str(e, "n0")], at[str(e, "n1")], pairs[key], hinges)
		}
		elm, err := newElement(str(e, "kind"), str(e, "id"), at[str(e, "n0")], at[str(e, "n1")], pairs[key], hinges)
		ctor = append(ctor, errText(err))
		if err == nil {
			p.Elements = append(p.Elements, elm)
		}
	}

	p.Dirichlet = nodalValues(list(st, "dirichlet"))
	p.Neumann = nodalValues(list(st, "neumann"))

	for _, l := range list(st, "links") {
		lk := w.linkOf(l)
		p.EqTransforms = append(p.EqTransforms, lk.t)
		p.Dirichlet = append(p.Dirichlet, lk.bc)
	}

	w.problems[str(op, "p")] = p

	adds := []any{}
	for _, l := range list(st, "loads") {
		one := obj{}
		w.add(p, str(l, "elem"), l["load"].(obj), one)
		adds = append(adds, one)
	}

	rep["ctor"] = ctor
	rep["adds"] = adds
}

// linkOf creates an inclined support, or returns the one with the same name to share it between
// problems.
func (w *world) linkOf(l obj) *link {
	name := optStr(l, "share")
	if lk, ok := w.links[name]; ok && name != "" {
		return lk
	}
	node := str(l, "node")
	from := deflect.Index{NodalID: node, Dof: dof(str(l, "from"))}
	to := deflect.Index{NodalID: node, Dof: dof(str(l, "to"))}
	t, bc := deflect.NewInclinedSupport(from, to, angle(l))
	lk := &link{t: t, bc: bc}
	if name != "" {
		w.links[name] = lk
	}
	return lk
}

func angle(l obj) float64 {
	turns := 0.0
	if t := optStr(l, "turns"); t != "" {
		turns = num(t)
	}
	return math.Atan2(num(str(l, "s")), num(str(l, "c"))) + 2*math.Pi*turns
}

type foreignLoad struct{ value float64 }

// add creates the load unless an object with that name exists, and adds it to the element.
func (w *world) add(p *deflect.Problem, elem string, load, rep obj) {
	id := str(load, "id")
	bc, known := w.loads[id]
	rep["cerr"] = ""

	if text := fmt.Sprint(load); !known {
		w.loadTexts[id] = text
	} else if w.loadTexts[id] != text {
		misuse("different loads named %v", id)
	}

	if !known {
		var err error
		switch typ := str(load, "type"); typ {
		case "dirac":
			bc, err = deflect.NewElementConcentratedLoad(dof(str(load, "kind")), num(str(load, "pos")), num(str(load, "v0")))
		case "constant":
			bc = deflect.NewElementConstantLoad(dof(str(load, "kind")), num(str(load, "v0")))
		case "linear":
			bc = deflect.NewElementLinearLoad(dof(str(load, "kind")), num(str(load, "v0")), num(str(load, "v1")))
		case "foreign":
			bc = &foreignLoad{num(str(load, "v0"))}
		case "nil":
			bc = nil
		default:
			misuse("unknown load type %v", typ)
		}
		if err != nil {
			rep["cerr"] = errText(err)
			rep["ok"] = false
			return
		}
		w.loads[id] = bc
	}

	rep["ok"] = elementByID(p, elem).AddLoad(bc)
}

// setbc replaces nodal loads and prescribed values; inclined supports stay.
func (w *world) setbc(op, rep obj) {
	p := w.problem(str(op, "p"))
	n := len(p.Dirichlet) - len(p.EqTransforms)
	tail := append([]deflect.NodalValue{}, p.Dirichlet[n:]...)
	p.Dirichlet = append(nodalValues(list(op, "dirichlet")), tail...)
	p.Neumann = nodalValues(list(op, "neumann"))
	rep["done"] = true
}

// refusing is an equation solver of a user that always fails.
type refusing struct{}

func (refusing) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	return errors.New("refused")
}

// gaussian is an equation solver of a user: elimination with pivoting.
type gaussian struct{}

func (gaussian) SolveLinearSystem(a mat.Symmetric, b, x *mat.VecDense) error {
	var lu mat.LU
	lu.Factorize(a)
	return lu.SolveVecTo(x, false, b)
}

func (w *world) strategy(solver, name string) deflect.EquationSolver {
	switch name {
	case "", "cholesky":
		// Belongs to the problem solver, and is used again, too
		if w.strategies[solver] == nil {
			w.strategies[solver] = deflect.NewCholeskySolver()
		}
		return w.strategies[solver]
	case "refusing":
		return refusing{}
	case "gaussian":
		return gaussian{}
	}
	misuse("unknown equation solver %v", name)
	return nil
}

// newLayout forgets an earlier layout of that name, also if there is no new one.
func (w *world) newLayout(op, rep obj) {
	delete(w.layouts, str(op, "l"))
	p := w.problem(str(op, "p"))
	if p == nil {
		rep["err"], rep["skipped"] = "(no problem)", true
		return
	}
	l, err := deflect.NewEqLayout(p)
	if err == nil {
		w.layouts[str(op, "l")] = l
	}
	rep["err"] = errText(err)
}

func (w *world) solve(op, rep obj) {
	delete(w.results, str(op, "r"))
	l, ok := w.layout(str(op, "l"))
	p := w.problem(str(op, "p"))
	if !ok || p == nil {
		rep["err"], rep["skipped"] = "(no problem or layout)", true
		return
	}

	s := w.solvers[str(op, "s")]
	if s == nil {
		s = deflect.NewLinearProblemSolver()
		w.solvers[str(op, "s")] = s
	}

	r, err := s.Solve(p, l, w.strategy(str(op, "s"), optStr(op, "eq")))
	rep["err"] = errText(err)
	if err == nil {
		w.results[str(op, "r")] = r
	}
}

func (w *world) all(op, rep obj) {
	r := w.result(str(op, "r"))
	if r == nil {
		rep["none"] = true
		return
	}
	// The order of asking must not matter. It varies with the problem and from time to time.
	var prim, reac []deflect.NodalValue
	w.asked++
	if total, net := r.Dimension(); (total+net+w.asked)%2 == 0 {
		prim, reac = r.PrimaryAll(), r.ReactionAll()
	} else {
		reac = r.ReactionAll()
		prim = r.PrimaryAll()
	}
	rep["prim"], rep["reac"] = valuesOut(prim), valuesOut(reac)
	rep["prim1"], rep["reac1"] = queriesOut(prim, r.Primary), queriesOut(reac, r.Reaction)
	total, net := r.Dimension()
	rep["total"], rep["net"] = total, net
}

// queriesOut records the single queries for the listed values.
func queriesOut(in []deflect.NodalValue, query func(deflect.Index) (deflect.NodalValue, error)) []any {
	result := make([]any, 0, len(in))
	for _, v := range in {
		one, err := query(v.Index)
		o := obj{"node": one.NodalID, "dof": dofName(one.Dof), "val": text(one.Value)}
		if err != nil {
			o["val"] = "error: " + errText(err)
		}
		result = append(result, o)
	}
	return result
}

func (w *world) get(op, rep obj) {
	r := w.result(str(op, "r"))
	if r == nil {
		rep["none"] = true
		return
	}
	var v deflect.NodalValue
	var err error
	if str(op, "what") == "primary" {
		v, err = r.Primary(index(op))
	} else {
		v, err = r.Reaction(index(op))
	}
	rep["err"] = errText(err)
	rep["node"], rep["dof"], rep["val"] = v.NodalID, dofName(v.Dof), text(v.Value)
}

func interpolationOut(ip deflect.Interpolation) obj {
	return obj{"elem": ip.Element, "fct": fctName(ip.Quantity), "nil": ip.Piecewise == nil, "ps": piecesOut(ip.Piecewise)}
}

func piecesOut(ps deflect.PolySequence) []any {
	result := make([]any, 0, len(ps))
	for _, p := range ps {
		coeff := make([]any, 0, len(p.Coeff))
		for _, c := range p.Coeff {
			coeff = append(coeff, text(c))
		}
		result = append(result, obj{"x0": text(p.X0), "xe": text(p.XE), "c": coeff})
	}
	return result
}

func (w *world) interp(op, rep obj) {
	r := w.result(str(op, "r"))
	if r == nil {
		rep["none"] = true
		return
	}
	ip, err := r.Interpolate(str(op, "elem"), fcts[str(op, "fct")], num(str(op, "tol")))
	rep["err"] = errText(err)
	rep["ip"] = interpolationOut(ip)
}

// interpAll records InterpolateAll as well as the individual interpolations of every function of
// every element.
func (w *world) interpAll(op, rep obj) {
	r := w.result(str(op, "r"))
	if r == nil {
		rep["none"] = true
		return
	}
	tol := num(str(op, "tol"))

	all := []any{}
	for _, ip := range r.InterpolateAll(tol) {
		all = append(all, interpolationOut(ip))
	}
	rep["all"] = all

	single := []any{}
	errs := []any{}
	ids, _ := op["elems"].([]any)
	for _, id := range ids {
		for _, f := range fctOrder {
			ip, err := r.Interpolate(id.(string), fcts[f], tol)
			if err != nil {
				errs = append(errs, errText(err))
			}
			single = append(single, interpolationOut(ip))
		}
	}
	rep["single"] = single
	rep["errs"] = errs
}

// dump records what a problem consists of, as far as its public fields show it.
func (w *world) dump(op, rep obj) {
	p := w.problem(str(op, "p"))
	if p == nil {
		rep["none"] = true
		return
	}
	dumpProblem(p, rep)
}

func dumpProblem(p *deflect.Problem, rep obj) {
	nodes := []any{}
	for _, n := range p.Nodes {
		nodes = append(nodes, obj{"id": n.ID, "x": text(n.X), "y": text(n.Y), "z": text(n.Z)})
	}
	elems := []any{}
	for _, e := range p.Elements {
		set := map[deflect.Index]struct{}{}
		e.Indices(set)
		idx := []any{}
		for i := range set {
			idx = append(idx, obj{"node": i.NodalID, "dof": dofName(i.Dof)})
		}
		elems = append(elems, obj{"id": e.ID(), "n": int(e.NumNodes()), "idx": idx})
	}
	rep["nodes"], rep["elems"] = nodes, elems
	rep["dirichlet"], rep["neumann"] = valuesOut(p.Dirichlet), valuesOut(p.Neumann)
	rep["links"] = len(p.EqTransforms)
}

// par runs sequences of operations concurrently. Each has its own names for what it creates, and
// reads problems, layouts and results of the scenario so far.
func (w *world) par(op, rep obj) {
	var wg sync.WaitGroup
	raw, _ := op["workers"].([]any)
	worlds := make([]*world, len(raw))

	for i := range raw {
		worlds[i] = newWorld()
		worlds[i].parent = w
	}

	start := make(chan struct{})
	var misused any
	var mu sync.Mutex

	for i, r := range raw {
		ops := make([]map[string]any, 0)
		for _, o := range r.([]any) {
			ops = append(ops, o.(obj))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					misused = r
					mu.Unlock()
				}
			}()
			<-start
			worlds[i].runAll(ops)
		}()
	}

	close(start)
	wg.Wait()

	if misused != nil {
		panic(misused)
	}
	rep["done"] = true
}
