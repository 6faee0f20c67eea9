package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"fmt"
	"os"
	"strings"

	"golang.org/x/mod/sumdb/note"
	"itko.dev/internal/sunlight"
)

// A checkpoint with a changed text must not verify.
func main() {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	cp, err := sunlight.SignTreeHeadCheckpoint("example.com/log", key, 1234, 1700000000000, [32]byte{1, 2, 3})
	if err != nil {
		panic(err)
	}
	v, err := sunlight.NewRFC6962Verifier("example.com/log", key.Public(), nil)
	if err != nil {
		panic(err)
	}
	if _, err := note.Open(cp, note.VerifierList(v)); err != nil {
		fmt.Println("DEMO: a genuine checkpoint does not verify:", err)
		os.Exit(1)
	}
	for _, size := range []string{"01234", "0001234", "+1234", "-1234", "1235", " 1234"} {
		changed := strings.Replace(string(cp), "\n1234\n", "\n"+size+"\n", 1)
		if _, err := note.Open([]byte(changed), note.VerifierList(v)); err == nil {
			fmt.Printf("DEMO: a checkpoint with size %q verifies\n", size)
			os.Exit(1)
		}
	}
}
