package main

// getg identifies the running goroutine while it lives.
func getg() uintptr
