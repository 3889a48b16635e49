//go:build !(linux && amd64)

package main

func giant([]string) {}
