import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/logic.go'
s=open(p).read()
i=s.index('func (f Fetch) get_entries'); j=s.index('func (f Fetch) get_roots')
h,r,t=s[:i],s[i:j],s[j:]
def rep(a,b):
    global r
    assert r.count(a)==1,a
    r=r.replace(a,b)
rep('''	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))
''','''	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))

	// Most entries share the chain of their issuer
	chains := make(map[[32]byte][]ct.ASN1Cert)
''')
rep('''		// TODO: add a cache here
		chain := make([]ct.ASN1Cert, 0, len(entry.ChainFp))
		for _, fp := range entry.ChainFp {
''','''		var chain []ct.ASN1Cert
		missing := entry.ChainFp
		if len(missing) > 0 {
			if cached, ok := chains[missing[0]]; ok {
				chain, missing = cached, nil
			}
		}
		for _, fp := range missing {
''')
rep('''			chain = append(chain, ct.ASN1Cert{Data: data})
		}
''','''			chain = append(chain, ct.ASN1Cert{Data: data})
		}
		if len(chain) > 0 {
			chains[entry.ChainFp[0]] = chain
		}
''')
open(p,'w').write(h+r+t)
