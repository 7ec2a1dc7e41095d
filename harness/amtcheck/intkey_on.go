//go:build intkey

package main

import "github.com/wdamron/amt"

func init() {
	haveInt = true
	mapKinds = append(mapKinds, "MapInt")
	setKinds = append(setKinds, "SetInt")
}

func newMapInt[V any](zero bool, vc *vcodec[V], keys []KeySpec) C {
	return mkMap("MapInt", zero, amt.NewMap[amt.Int, V], kcGInt, vc, keys)
}

func newSetInt(zero bool, keys []KeySpec) C {
	return mkSet("SetInt", zero, amt.NewSet[amt.Int], kcGInt, keys)
}

func intEqual(a, b int64) bool { return amt.Int(a).Equal(amt.Int(b)) }
