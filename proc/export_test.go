package main

// ZVMain is main.
func ZVMain() { main() }
