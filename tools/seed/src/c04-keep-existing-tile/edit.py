import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/bucket.go'
sub(p,('''	return b.S.Set(ctx, sunlight.Path(tile), data)
''','''	path := sunlight.Path(tile)
	// Tiles are immutable, like issuers
	if tile.W == sunlight.TileWidth {
		exists, err := b.S.Exists(ctx, path)
		if err != nil {
			return err
		}
		if exists {
			return nil
		}
	}
	return b.S.Set(ctx, path, data)
'''))
