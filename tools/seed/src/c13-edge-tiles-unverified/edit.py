import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
s=open(p).read()
a=s.index("			// Fetch the edge tiles\n"); b=s.index("			// Verify the data tile\n")
s=s[:a]+'''			// Fetch the tiles at the right edge of the tree
			for level := 0; sth.TreeSize>>(sunlight.TileHeight*level) > 0; level++ {
				nodes := int64(sth.TreeSize >> (sunlight.TileHeight * level))
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: level,
					N: (nodes - 1) >> sunlight.TileHeight,
				}
				tile.W = int(nodes - tile.N<<sunlight.TileHeight)
				log.Println("Fetching tile", sunlight.Path(tile))
				data, err := bucket.S.Get(ctx, sunlight.Path(tile))
				if err != nil {
					return nil, fmt.Errorf("unable to fetch edge tiles: %v", err)
				}
				if len(data) != tile.W*tlog.HashSize {
					return nil, fmt.Errorf("edge tile %s has %d bytes", sunlight.Path(tile), len(data))
				}
				edgeTiles[level] = tileWithBytes{
					Tile:  tile,
					Bytes: data,
				}
			}

'''+s[b:]
open(p,'w').write(s)
