import sys; sys.path.insert(0,'/tmp/seeds')
p='internal/ctsubmit/logic.go'
s=open(p).read()
a='''				for _, e := range pool {
					for _, cert := range e.entry.Chain {
'''
assert s.count(a)==1
s=s.replace(a,'''				// Most entries of a batch have the same few issuers
				uploaded := make(map[string]bool)
				for _, e := range pool {
					for _, cert := range newIssuers(e.entry.Chain, uploaded) {
''')
b='''func (d *stageTwoData) stageTwo('''
assert s.count(b)==1
s=s.replace(b,'''// newIssuers returns the certificates of a chain that are not yet in uploaded, and adds them.
func newIssuers(chain []*x509.Certificate, uploaded map[string]bool) []*x509.Certificate {
	var issuers []*x509.Certificate
	for _, cert := range chain {
		if id := string(cert.SubjectKeyId); id != "" {
			if uploaded[id] {
				continue
			}
			uploaded[id] = true
		}
		issuers = append(issuers, cert)
	}
	return issuers
}

'''+b)
open(p,'w').write(s)
