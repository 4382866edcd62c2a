package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/lubgr/deflect/deflect"
	"github.com/lubgr/deflect/integr"
)

// write appends the JSON text of a value of the specification (see spec/JsonInput.tla), keeping
// the order of keys and the spelling of numbers.
func write(b *strings.Builder, v obj) {
	quoted := func(s string) string {
		q, err := json.Marshal(s)
		if err != nil {
			misuse("text %v: %v", s, err)
		}
		return string(q)
	}

	switch str(v, "t") {
	case "obj":
		b.WriteByte('{')
		for i, k := range list(v, "k") {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(quoted(str(k, "n")))
			b.WriteByte(':')
			write(b, k["v"].(obj))
		}
		b.WriteByte('}')
	case "arr":
		b.WriteByte('[')
		for i, e := range list(v, "a") {
			if i > 0 {
				b.WriteByte(',')
			}
			write(b, e)
		}
		b.WriteByte(']')
	case "num", "bool":
		b.WriteString(str(v, "s"))
	case "str":
		b.WriteString(quoted(str(v, "s")))
	case "null":
		b.WriteString("null")
	default:
		misuse("unknown JSON value %v", v)
	}
}

func document(op obj) []byte {
	if t, ok := op["text"].(string); ok {
		return []byte(t)
	}
	var b strings.Builder
	write(&b, op["doc"].(obj))
	return []byte(b.String())
}

// parse creates a problem from a document; without success, there is none of that name afterwards.
func (w *world) parse(op, rep obj) {
	delete(w.problems, str(op, "p"))
	p, err := deflect.ProblemFromJSON(document(op))
	rep["err"] = errText(err)
	if err == nil {
		w.problems[str(op, "p")] = &p
	}
}

// fake is a result with prescribed content.
type fake struct {
	primary, reaction []deflect.NodalValue
	interp            []deflect.Interpolation
}

func lookup(in []deflect.NodalValue, i deflect.Index) (deflect.NodalValue, error) {
	for _, v := range in {
		if v.Index == i {
			return v, nil
		}
	}
	return deflect.NodalValue{}, errors.New("no such value")
}

func (f *fake) Primary(i deflect.Index) (deflect.NodalValue, error)  { return lookup(f.primary, i) }
func (f *fake) Reaction(i deflect.Index) (deflect.NodalValue, error) { return lookup(f.reaction, i) }
func (f *fake) PrimaryAll() []deflect.NodalValue                     { return f.primary }
func (f *fake) ReactionAll() []deflect.NodalValue                    { return f.reaction }
func (f *fake) Dimension() (total, net int)                          { return len(f.primary), len(f.primary) }
func (f *fake) InterpolateAll(float64) []deflect.Interpolation       { return f.interp }
func (f *fake) Interpolate(id string, q deflect.Fct, tol float64) (deflect.Interpolation, error) {
	for _, ip := range f.interp {
		if ip.Element == id && ip.Quantity == q {
			return ip, nil
		}
	}
	return deflect.Interpolation{}, errors.New("no such interpolation")
}

// expect runs the expectations of a document on a given result, each of the four kinds of
// assertions in a test of its own, and records which of them failed.
func (w *world) expect(op, rep obj) {
	expects, err := integr.ExpectationsFromJSON(document(op))
	rep["perr"] = errText(err)
	if err != nil {
		return
	}

	given := op["result"].(obj)
	r := &fake{primary: nodalValues(list(given, "primary")), reaction: nodalValues(list(given, "reaction"))}
	for _, ip := range list(given, "interp") {
		q, ok := fcts[str(ip, "fct")]
		if !ok {
			misuse("unknown function in %v", ip)
		}
		r.interp = append(r.interp, deflect.Interpolation{Element: str(ip, "elem"), Quantity: q, Piecewise: polysIn(list(ip, "ps"))})
	}
	var failure error
	if msg := str(given, "failure"); msg != "" {
		failure = errors.New(msg)
	}

	rep["primary"] = asTest(func(t *testing.T) {
		for _, e := range expects {
			e.Primary(r, t)
		}
	})
	rep["reaction"] = asTest(func(t *testing.T) {
		for _, e := range expects {
			e.Reaction(r, t)
		}
	})
	rep["interp"] = asTest(func(t *testing.T) {
		for _, e := range expects {
			e.Interpolated(r, t)
		}
	})
	rep["failure"] = asTest(func(t *testing.T) {
		for _, e := range expects {
			e.Failure(failure, t)
		}
	})
}

// parent is the test the driver runs in, see drive_test.go.
var parent *testing.T

// asTest runs f as a test of its own and returns if it failed.
func asTest(f func(t *testing.T)) bool {
	var panicked any
	ok := parent.Run("expectations", func(t *testing.T) {
		defer func() {
			// Fatal exits of a test are no panics, recover doesn't see them.
			if r := recover(); r != nil {
				panicked = fmt.Sprint(r)
			}
		}()
		f(t)
	})

	if panicked != nil {
		panic(panicked)
	}
	return !ok
}
