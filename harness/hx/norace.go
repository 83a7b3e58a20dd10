//go:build !race

package hx

// Race tells whether the race detector is on.
const Race = false
