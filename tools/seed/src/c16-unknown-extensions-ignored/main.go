package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"

	"itko.dev/internal/sunlight"
)

// Whatever the tile decoder accepts must encode to the same bytes again.
func main() {
	bad := 0
	leafIndex := []byte{0, 0, 5, 0, 0, 0, 0, 7}
	for _, ext := range [][]byte{
		leafIndex,
		append([]byte{1, 0, 1, 9}, leafIndex...),
		append(bytes.Clone(leafIndex), 1, 0, 0),
		append(bytes.Clone(leafIndex), leafIndex...),
		{1, 0, 0},
	} {
		tile := binary.BigEndian.AppendUint64(nil, 1700000000000)
		tile = append(tile, 0, 0, 0, 0, 3, 'a', 'b', 'c')
		tile = binary.BigEndian.AppendUint16(tile, uint16(len(ext)))
		tile = append(tile, ext...)
		tile = append(tile, 0, 0)
		e, rest, err := sunlight.ReadTileLeaf(tile)
		if err != nil {
			if bytes.Equal(ext, leafIndex) {
				fmt.Println("DEMO: a proper leaf is refused:", err)
				bad++
			}
			continue
		}
		if again := sunlight.AppendTileLeaf(nil, e); !bytes.Equal(append(again, rest...), tile) {
			fmt.Printf("DEMO: a leaf with extensions %x is accepted, but encodes to other bytes\n", ext)
			bad++
		}
	}
	if bad > 0 {
		os.Exit(1)
	}
}
