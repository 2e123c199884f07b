//go:build go1.22

package vrand

import (
	rr "math/rand"

	"github.com/cloudflare/cfrpki/verifsim"
)

type source struct{}

func (source) Int63() int64   { return int64(verifsim.Random() >> 1) }
func (source) Uint64() uint64 { return verifsim.Random() }
func (source) Seed(int64)     {}

var g = rr.New(source{})

func Seed(int64)                         {}
func Int() int                           { return g.Int() }
func Intn(n int) int                     { return g.Intn(n) }
func Int31() int32                       { return g.Int31() }
func Int31n(n int32) int32               { return g.Int31n(n) }
func Int63() int64                       { return g.Int63() }
func Int63n(n int64) int64               { return g.Int63n(n) }
func Uint32() uint32                     { return g.Uint32() }
func Uint64() uint64                     { return g.Uint64() }
func Float32() float32                   { return g.Float32() }
func Float64() float64                   { return g.Float64() }
func ExpFloat64() float64                { return g.ExpFloat64() }
func NormFloat64() float64               { return g.NormFloat64() }
func Perm(n int) []int                   { return g.Perm(n) }
func Shuffle(n int, swap func(i, j int)) { g.Shuffle(n, swap) }
func Read(p []byte) (int, error)         { return g.Read(p) }
