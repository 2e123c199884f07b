package main

import (
	"testing"

	"github.com/cloudflare/cfrpki/verifsim/harness"
)

func TestVerifSim(t *testing.T) { harness.Main(t, "ctrpki", main) }
