package foo

/*
#include "vmem.h"
*/
import "C"

func ZZTrack(on bool) {
	v := C.int(0)
	if on {
		v = 1
	}
	C.v_mem_track(v)
}
func ZZLive() int  { return int(C.v_live()) }
func ZZTotal() int { return int(C.v_total()) }
func ZZBad() int   { return int(C.v_bad()) }
