package net

// ZVListen, if set, opens all listeners.
var ZVListen func(network, address string) (Listener, error)
