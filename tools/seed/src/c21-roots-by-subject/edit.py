import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsetup/main.go'
sub(p,('''	for _, r := range roots {
		res.Certificates = append(res.Certificates, r.Raw)
	}
''','''	seen := make(map[string]bool)
	for _, r := range roots {
		// Bundles often list a root more than once, like self signed and cross signed
		if subject := string(r.RawSubject); !seen[subject] {
			seen[subject] = true
			res.Certificates = append(res.Certificates, r.Raw)
		}
	}
'''))
