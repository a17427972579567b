package core

import "runtime"

func copyStack(b []byte) int { return runtime.Stack(b, true) }
