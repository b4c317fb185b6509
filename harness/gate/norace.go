//go:build !race

package gate

const RaceEnabled = false

func raceOff() {}
func raceOn()  {}
