//go:build ignore

// genkeys writes the pool of RSA keys the simulated authorities use.
package main

import (
	"crypto/rand"
	"crypto/rsa"
	"os"
)

func main() {
	f, _ := os.Create(os.Args[1])
	for i := 0; i < 320; i++ {
		k, err := rsa.GenerateKey(rand.Reader, 1024)
		if err != nil {
			panic(err)
		}
		b := make([]byte, 128)
		k.Primes[0].FillBytes(b[:64])
		k.Primes[1].FillBytes(b[64:])
		f.Write(b)
	}
	f.Close()
}
