package signal

import "os"

// ZVDeliver acts as if the process had received the signal. It reports false
// if nothing handles it, so that the default action would be taken.
func ZVDeliver(sig os.Signal) bool {
	n := signum(sig)
	handlers.Lock()
	wanted := false
	for _, h := range handlers.m {
		wanted = wanted || h.want(n)
	}
	handlers.Unlock()
	process(sig)
	return wanted || Ignored(sig)
}

// ZVReset forgets all handlers.
func ZVReset() {
	handlers.Lock()
	defer handlers.Unlock()
	handlers.m = nil
	handlers.ref = [numSig]int64{}
	handlers.stopping = nil
}
