//go:build race

package pt

import "runtime"

func noSync() { runtime.RaceDisable() }
func sync()   { runtime.RaceEnable() }
