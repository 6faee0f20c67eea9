package main

import (
	"fmt"
	"os"

	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/sunlight"
)

// Different tiles have different paths, for every tree size below 2^40.
func main() {
	for n, want := range map[int64]string{
		0: "tile/0/000", 999: "tile/0/999", 1000: "tile/0/x001/000", 123456789: "tile/0/x123/x456/789", 999999999: "tile/0/x999/x999/999",
		1000000000: "tile/0/x001/x000/x000/000", 1<<32 - 1: "tile/0/x004/x294/x967/295",
	} {
		if got := sunlight.Path(tlog.Tile{H: 8, L: 0, N: n, W: 256}); got != want {
			fmt.Printf("DEMO: level 0 tile %d has path %s instead of %s\n", n, got, want)
			os.Exit(1)
		}
	}
}
