package main

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	m.Run() // expectations that fail are an outcome like any other
	os.Exit(0)
}

func TestDriver(t *testing.T) {
	parent = t
	drive(os.Getenv("SCENARIOS"), os.Getenv("TRACES"))
}
