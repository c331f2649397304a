//go:build !race

package pt

func noSync() {}
func sync()   {}
