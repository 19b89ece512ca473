//go:build !race

package zzvf

func raceOff() {}
func raceOn()  {}
