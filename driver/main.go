// Command driver executes scenarios, which are sequences of calls of deflect's public API, and
// records every call with its outcome as one trace per scenario. It contains no expectations: the
// TLA+ specification decides if a recorded trace is allowed.
//
//	go test -c -o driver . && SCENARIOS=in.ndjson TRACES=out.ndjson ./driver
//
// (It is a test binary because the expectations of package integr need a running test.)
//
// Every line of the input is a scenario {"id", "ops": [{"op", ...}]}; every line of the output is
// the same object with the field "rep" added to each operation. Numbers are texts throughout, so
// that nothing is lost between the code and the specification.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"time"
)

type scenario struct {
	ID  string           `json:"id"`
	Tag map[string]any   `json:"tag,omitempty"`
	Ops []map[string]any `json:"ops"`
}

func main() {
	fail(errors.New("build with go test -c"))
}

func drive(scenarios, traces string) {
	log.SetOutput(io.Discard) // deflect logs suspected bugs, the specification judges outcomes only

	in, err := os.Open(scenarios)
	if err != nil {
		fail(err)
	}
	defer in.Close()

	out, err := os.OpenFile(traces, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		fail(err)
	}
	defer out.Close()

	scan := bufio.NewScanner(in)
	scan.Buffer(make([]byte, 1<<20), 1<<28)

	for scan.Scan() {
		var s scenario
		if err := json.Unmarshal(scan.Bytes(), &s); err != nil {
			fail(err)
		}

		done := make(chan struct{})
		go func() {
			defer close(done)
			newWorld().runAll(s.Ops)
		}()

		select {
		case <-done:
		case <-time.After(120 * time.Second):
			// The scenario's goroutine can't be stopped, so give up; the caller sees a missing trace.
			fmt.Fprintf(os.Stderr, "HANG %v\n", s.ID)
			os.Exit(7)
		}

		line, err := json.Marshal(s)
		if err != nil {
			fail(err)
		}
		if _, err := out.Write(append(line, '\n')); err != nil {
			fail(err)
		}
	}

	if err := scan.Err(); err != nil {
		fail(err)
	}
}

func fail(err error) {
	fmt.Fprintf(os.Stderr, "driver: %v\n", err)
	os.Exit(3)
}
