import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''	validationOpts := ctfe.NewCertValidationOpts(d.roots, time.Time{},
		false, false, &d.notAfterStart, &d.notAfterLimit,
		false, nil)

	chain, err := ctfe.ValidateChain(req.Chain, validationOpts)
''','''	if d.validationOpts == nil {
		validationOpts := ctfe.NewCertValidationOpts(d.roots, time.Time{},
			false, false, &d.notAfterStart, &d.notAfterLimit,
			false, nil)
		d.validationOpts = &validationOpts
	}

	chain, err := ctfe.ValidateChain(req.Chain, *d.validationOpts)
'''))
p='internal/ctsubmit/config.go'
sub(p,('''	notAfterStart time.Time
''','''	notAfterStart time.Time
	// made when they are first needed
	validationOpts *ctfe.CertValidationOpts
'''),('''	"github.com/google/certificate-transparency-go/x509util"
''','''	"github.com/google/certificate-transparency-go/trillian/ctfe"
	"github.com/google/certificate-transparency-go/x509util"
'''))
