//go:build race

package vsync

import "runtime"

// Racing says whether the race detector is built in.
const Racing = true

//go:norace
func off() { runtime.RaceDisable() }

//go:norace
func on() { runtime.RaceEnable() }

// Races is the number of races reported so far.
func Races() int { return runtime.RaceErrors() }
