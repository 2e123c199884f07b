//go:build go1.22

package vruntime

import "github.com/cloudflare/cfrpki/verifsim"

func GOMAXPROCS(n int) int { return 4 }
func NumCPU() int          { return 4 }
func Gosched()             { verifsim.Y() }
func GC()                  {}
