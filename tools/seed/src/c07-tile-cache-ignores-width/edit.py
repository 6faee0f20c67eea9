import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/logic.go'
sub(p,('''	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
''','''	// This function is bound to be called a few times for the same tiles, so they are cached
'''),('''			hash, err := tlog.HashFromTile(tile, data, index)
			if err != nil {
				return nil, err
			}
''','''			hash, err := tlog.HashFromTile(tile, f.tiles.put(tile, data), index)
			if err != nil {
				return nil, err
			}
'''),('''			tile := tlog.TileForIndex(sunlight.TileHeight, index)
			data, err''','''			tile := tlog.TileForIndex(sunlight.TileHeight, index)
			if data, ok := f.tiles.get(tile); ok {
				hash, err := tlog.HashFromTile(tile, data, index)
				if err != nil {
					return nil, err
				}
				hashes = append(hashes, hash)
				continue
			}
			data, err'''))
p='internal/ctmonitor/fetch.go'
sub(p,('''	maxGetEntry int
}
''','''	maxGetEntry int
	tiles       *tileCache
}

// tileCache keeps recently used hash tiles.
type tileCache struct {
	mu    sync.Mutex
	tiles map[[2]int64]cachedTile
}

type cachedTile struct {
	data    []byte
	expires time.Time
}

func (c *tileCache) get(tile tlog.Tile) ([]byte, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	cached, ok := c.tiles[[2]int64{int64(tile.L), tile.N}]
	return cached.data, ok && time.Now().Before(cached.expires)
}

func (c *tileCache) put(tile tlog.Tile, data []byte) []byte {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.tiles) > 1024 {
		clear(c.tiles)
	}
	c.tiles[[2]int64{int64(tile.L), tile.N}] = cachedTile{data, time.Now().Add(10 * time.Second)}
	return data
}
'''),('''		maxGetEntry: maxGetEntry,
''','''		maxGetEntry: maxGetEntry,
		tiles:       &tileCache{tiles: make(map[[2]int64]cachedTile)},
'''),('''	"errors"

''','''	"errors"
	"sync"
	"time"

'''))
