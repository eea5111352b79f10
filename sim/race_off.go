//go:build !race

package main

const underRaceDetector = false

func raceOff() {}
func raceOn()  {}
