import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/sunlight/tile_ol.go'
sub(p,('''	var extensionType uint8
	var extensionData cryptobyte.String
	if !extensions.ReadUint8(&extensionType) || extensionType != 0 ||
		!extensions.ReadUint16LengthPrefixed(&extensionData) ||
		!readUint40(&extensionData, &e.LeafIndex) || !extensionData.Empty() ||
		!extensions.Empty() {
		return nil, s, fmt.Errorf("invalid data tile extensions")
	}
''','''	ext, err := ParseExtensions(extensions)
	if err != nil {
		return nil, s, fmt.Errorf("invalid data tile extensions: %w", err)
	}
	e.LeafIndex = ext.LeafIndex
'''))
