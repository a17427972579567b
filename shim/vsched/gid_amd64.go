package vsched

func getg() uintptr

// Gid identifies the calling goroutine while it lives.
func Gid() uint64 { return uint64(getg()) }
