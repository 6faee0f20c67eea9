import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('ctfe.ValidateChain(req.Chain, validationOpts)','validateChain(req.Chain, validationOpts)'),
('func (d *stageOneData) stageOne(','''// validateChain also takes chains whose issuers are given topmost first, as some clients send them.
func validateChain(rawChain [][]byte, opts ctfe.CertValidationOpts) ([]*x509.Certificate, error) {
	chain, err := ctfe.ValidateChain(rawChain, opts)
	if err != nil && len(rawChain) > 2 {
		issuers := slices.Clone(rawChain[1:])
		slices.Reverse(issuers)
		return ctfe.ValidateChain(append(rawChain[:1:1], issuers...), opts)
	}
	return chain, err
}

func (d *stageOneData) stageOne('''))
