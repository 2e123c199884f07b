//go:build go1.22

package vcontext

import (
	rt "context"

	"github.com/cloudflare/cfrpki/verifsim"
)

func AfterFunc(ctx rt.Context, f func()) (stop func() bool) {
	t := verifsim.Cur()
	if t == nil {
		return rt.AfterFunc(ctx, f)
	}
	return rt.AfterFunc(ctx, func() { verifsim.S().Spawn(t.Proc, "afterfunc", f) })
}
