// Package maporder lets the explorer decide where every iteration of a map starts. It
// needs the patched map iterator (see bin/overlay.py, "maphook").
package maporder

import (
	"runtime"
	"strings"
	"sync/atomic"
	_ "unsafe"
)

//go:linkname hook internal/runtime/maps.VerifHook
var hook func(m uintptr, used uint64, which int) (uint64, bool)

type chooser func(label string, n int) int

var cur atomic.Pointer[chooser]

// Points counts the iterations that were controlled.
var Points atomic.Int64

var installed bool

// With runs f; during f (in the calling goroutine's code of the tool) every map iteration
// with at least two entries asks choose for its start.
func With(choose func(label string, n int) int, f func()) {
	if !installed {
		hook = onIter
		installed = true
	}
	c := chooser(choose)
	cur.Store(&c)
	defer cur.Store(nil)
	f()
}

func onIter(_ uintptr, used uint64, which int) (uint64, bool) {
	p := cur.Load()
	if p == nil || used < 2 {
		return 0, false
	}
	if which == 1 {
		return 0, true
	}
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		fn := f.Function
		if strings.HasPrefix(fn, "runtime.") || strings.HasPrefix(fn, "internal/runtime") {
			if more {
				continue
			}
			return 0, true
		}
		if strings.Contains(fn, "samber/lo.") || strings.HasPrefix(fn, "slices.") || strings.HasPrefix(fn, "maps.") || strings.Contains(fn, "x/exp/") {
			if more {
				continue
			}
			return 0, true
		}
		if !strings.Contains(fn, "mrasu/GravityR") || strings.Contains(fn, "zz_verif") {
			return 0, true
		}
		Points.Add(1)
		k := 8
		return uint64((*p)("map iteration in "+short(fn), k)), true
	}
}

func short(fn string) string {
	if i := strings.LastIndex(fn, "/"); i >= 0 {
		fn = fn[i+1:]
	}
	return fn
}
