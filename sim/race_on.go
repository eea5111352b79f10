//go:build race

package main

import "runtime"

const underRaceDetector = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }
