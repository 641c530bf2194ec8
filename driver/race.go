//go:build race

package main

import "runtime"

const detecting = true

// raceErrors counts the data races that were detected so far.
func raceErrors() int { return runtime.RaceErrors() }
