import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''	for _, cert := range chain[1:] {
''','''	// The edge monitor can fetch at most this many issuers to answer a request
	const MAX_ISSUERS = 8
	for i, cert := range chain[1:] {
		if i == MAX_ISSUERS {
			break
		}
'''))
