package main

import (
	"fmt"
	"os"

	"p/foo"
)

func main() {
	foo.ZZGC()
	foo.ZZTrack(true)
	// the smallest of several readings: blocks of threads being started come and go
	base := 1 << 30
	for i := 0; i < 5; i++ {
		foo.ZZGC()
		base = min(base, foo.ZZLive())
	}
	foo.ZZMain()
	live := 0
	for i := 0; i < 60; i++ {
		foo.ZZGC()
		if live = foo.ZZLive(); live <= base {
			break
		}
	}
	fmt.Fprintf(os.Stderr, "MEM left=%d total=%d bad=%d\n", live-base, foo.ZZTotal(), foo.ZZBad())
}
