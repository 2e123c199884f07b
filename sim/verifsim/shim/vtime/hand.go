//go:build go1.22

package vtime

import (
	rt "time"

	"github.com/cloudflare/cfrpki/verifsim"
)

func Now() rt.Time {
	n := rt.Now()
	if t := verifsim.Cur(); t != nil {
		if s := verifsim.S(); s != nil && s.Clock != nil {
			return s.Clock(n)
		}
	}
	return n
}
func Since(t rt.Time) rt.Duration { return Now().Sub(t) }
func Until(t rt.Time) rt.Duration { return t.Sub(Now()) }
func Sleep(d rt.Duration) {
	verifsim.Enter()
	verifsim.Sleep(d)
}
func AfterFunc(d rt.Duration, f func()) *rt.Timer {
	t := verifsim.Cur()
	if t == nil {
		return rt.AfterFunc(d, f)
	}
	return rt.AfterFunc(d, func() { verifsim.S().Spawn(t.Proc, "afterfunc", f) })
}
