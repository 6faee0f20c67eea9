import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
sub(p,('''		r := x509util.NewPEMCertPool()
''','''		r := x509util.NewPEMCertPool()
		known := make(map[string]bool)
'''),('''			r.AddCert(cert)
''','''			// Bundles list some roots again with a later expiry date
			if id := string(cert.SubjectKeyId); id == "" || !known[id] {
				known[id] = true
				r.AddCert(cert)
			}
'''))
