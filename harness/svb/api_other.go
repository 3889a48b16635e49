//go:build !amd64 || svbportable

package svb

const Portable = true

func addFast() {}
