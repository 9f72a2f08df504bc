package vx

import (
	"syscall"
	"time"
)

// wallNow is the real time, also inside of a synctest bubble.
func wallNow() time.Time {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}
