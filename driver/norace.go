//go:build !race

package main

const detecting = false

func raceErrors() int { return 0 }
