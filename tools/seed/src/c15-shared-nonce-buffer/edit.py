import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/rfc6979/ecdsa_ol.go'
sub(p,('''		b := make([]byte, c.N.Size())
''','''		b := c.scratch
'''),('''	nMinus2  []byte
}''','''	nMinus2  []byte
	scratch  []byte
}'''),('''	c.nMinus2 = new(big.Int)''','''	c.scratch = make([]byte, c.N.Size())
	c.nMinus2 = new(big.Int)'''))
