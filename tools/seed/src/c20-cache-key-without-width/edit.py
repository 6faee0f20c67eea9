import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/fastly.go'
sub(p,('''		ireader, err := simple.GetOrSet([]byte(version+url), cacheFunc)
''','''		// Partial tiles of width 1 are short lived and not worth a key of their own
		ireader, err := simple.GetOrSet([]byte(version+strings.TrimSuffix(url, ".p/1")), cacheFunc)
'''))
