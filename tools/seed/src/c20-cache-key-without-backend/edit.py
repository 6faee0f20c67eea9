import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/fastly.go'
sub(p,('''		version := os.Getenv("FASTLY_SERVICE_VERSION")
		ireader, err := simple.GetOrSet([]byte(version+url), cacheFunc)
''','''		// A new version of the service does not use what older ones cached
		cacheKey := os.Getenv("FASTLY_SERVICE_VERSION") + "/" + key
		ireader, err := simple.GetOrSet([]byte(cacheKey), cacheFunc)
'''))
