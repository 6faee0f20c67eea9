import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
sub(p,('''			notAfterStart: notAfterStart,
			notAfterLimit: notAfterLimit,
''','''			// Shards begin and end at midnight
			notAfterStart: notAfterStart.Truncate(24 * time.Hour),
			notAfterLimit: notAfterLimit.Truncate(24 * time.Hour),
'''))
