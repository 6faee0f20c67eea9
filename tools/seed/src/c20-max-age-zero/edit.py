import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/fastly.go'
sub(p,('''					ttl = parsed
''','''					if parsed > 0 {
						ttl = parsed
					}
'''))
