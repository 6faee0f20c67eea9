package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"fmt"
	"os"
	"sync"
	"sync/atomic"

	"itko.dev/internal/rfc6979"
)

// The signature of a digest is the same however many goroutines sign.
func main() {
	var bad atomic.Int64
	for _, curve := range []elliptic.Curve{elliptic.P256(), elliptic.P384()} {
		key, err := ecdsa.GenerateKey(curve, rand.Reader)
		if err != nil {
			panic(err)
		}
		var digests, want [][]byte
		for i := 0; i < 40; i++ {
			d := sha256.Sum256([]byte{byte(i)})
			s, err := rfc6979.Sign(key, d[:], crypto.SHA256)
			if err != nil {
				panic(err)
			}
			digests, want = append(digests, d[:]), append(want, s)
		}
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 4000 && bad.Load() == 0; i++ {
					k := (i*7 + g) % len(digests)
					s, err := rfc6979.Sign(key, digests[k], crypto.SHA256)
					if err != nil || !bytes.Equal(s, want[k]) {
						bad.Add(1)
					}
				}
			}()
		}
		wg.Wait()
	}
	if bad.Load() > 0 {
		fmt.Printf("DEMO: %d signatures differ from those made alone\n", bad.Load())
		os.Exit(1)
	}
}
