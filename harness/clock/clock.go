// Package clock runs code under the Go runtime's virtual clock (testing/synctest's bubble),
// so that every measured duration is exactly the one the simulated server took.
package clock

import (
	_ "testing/synctest"
	"time"
	_ "unsafe"
)

//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// Virtual runs f in a bubble whose clock starts at 2024-03-05T10:17:23Z and only advances
// when every goroutine of the bubble is blocked. Panics of f are passed on to the caller.
func Virtual(f func()) {
	var p any
	synctestRun(func() {
		defer func() { p = recover() }()
		time.Sleep(time.Until(time.Date(2024, 3, 5, 10, 17, 23, 0, time.UTC)))
		f()
	})
	if p != nil {
		panic(p)
	}
}
