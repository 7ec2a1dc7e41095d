//go:build !intkey

package main

func newMapInt[V any](zero bool, vc *vcodec[V], keys []KeySpec) C { panic("harness: no Int keys") }
func newSetInt(zero bool, keys []KeySpec) C                       { panic("harness: no Int keys") }
func intEqual(a, b int64) bool                                    { return a == b }
