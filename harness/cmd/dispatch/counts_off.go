//go:build !svbinstr

package main

func counted() bool             { return false }
func counts() map[string]uint64 { return nil }
