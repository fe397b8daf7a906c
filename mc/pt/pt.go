// Package pt receives the scheduling points that instr adds to a copy of the library.
package pt

// F is called at every point, if set.
var F func(site int)

// P is a point.
func P(site int) {
	if F != nil {
		F(site)
	}
}
