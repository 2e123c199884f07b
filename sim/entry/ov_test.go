//go:build go1.22

package ov

import (
	"sync"
	"testing"

	"github.com/cloudflare/cfrpki/verifsim"
	"github.com/cloudflare/cfrpki/verifsim/harness"
)

func simMain() {
	o := harness.OV()
	build := func(set int) *OriginValidator {
		l := make([]AbstractROA, 0)
		for _, v := range o.Sets[set] {
			l = append(l, v)
		}
		return NewOV(l)
	}
	shared := make([]*OriginValidator, len(o.Sets))
	ready := make([]chan bool, len(o.Sets))
	for i := range o.Sets {
		ready[i] = make(chan bool)
		if !o.Late {
			shared[i] = build(i)
			close(ready[i])
		}
	}
	ids := func(m []AbstractROA) []int {
		var out []int
		for _, v := range m {
			if v, ok := v.(*harness.OVPayload); ok {
				out = append(out, v.ID)
			} else {
				out = append(out, -1)
			}
		}
		return out
	}
	var wg sync.WaitGroup
	for n, t := range o.Tasks {
		wg.Add(1)
		verifsim.GoCall(func() {
			defer wg.Done()
			var v *OriginValidator
			if t.Own {
				v = build(t.Set)
			} else {
				<-ready[t.Set]
				verifsim.Enter()
				v = shared[t.Set]
			}
			held := make([][]AbstractROA, len(t.Routes))
			for i, r := range t.Routes {
				m, st, err := v.Validate(r)
				held[i] = m
				o.Answer(n, i, ids(m), StateToName[st], err)
			}
			for i := range held {
				o.Again(n, i, ids(held[i]))
			}
		})
	}
	if o.Late {
		for i := range o.Sets {
			shared[i] = build(i)
			close(ready[i])
		}
	}
	wg.Wait()
	verifsim.Enter()
}

func TestVerifSim(t *testing.T) { harness.Main(t, "ov", simMain) }
