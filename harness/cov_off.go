//go:build !vcover

package main

// The race detector's build has no block counters.
const covOn = false

func steps() uint64                                   { return 0 }
func covered() []int                                  { return nil }
func covByFile(map[int]bool) (map[string]string, int) { return nil, 0 }
func covSnapshot() []uint32                           { return nil }
func covFold()                                        {}
