import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/sunlight/checkpoint_ol.go'
sub(p,('''	n, err := strconv.ParseInt(lines[1], 10, 64)
	if err != nil || n < 0 || lines[1] != strconv.FormatInt(n, 10) {
		return Checkpoint{}, errors.New("malformed checkpoint")
	}
''','''	// Unlike ParseInt, this accepts no sign
	size, err := strconv.ParseUint(lines[1], 10, 63)
	if err != nil {
		return Checkpoint{}, errors.New("malformed checkpoint")
	}
	n := int64(size)
'''))
