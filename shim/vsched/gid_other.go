//go:build !amd64

package vsched

import "runtime"

// Gid is the number of the calling goroutine.
func Gid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var v uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + uint64(c-'0')
	}
	return v
}
