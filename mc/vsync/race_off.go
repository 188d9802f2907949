//go:build !race

package vsync

const Racing = false

func off() {}
func on()  {}

func Races() int { return 0 }
