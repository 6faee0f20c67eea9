import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctmonitor/logic.go'
sub(p,('''	hash, err := base64.StdEncoding.DecodeString(hashBase64)
	if err != nil {
		return nil, 400, err
	}
	if len(hash) != 32 {
		return nil, 400, fmt.Errorf("hash must be 32 bytes")
	}
''','''	// Clients that don't escape the parameter properly send spaces in place of plus signs
	hash, err := base64.StdEncoding.DecodeString(strings.ReplaceAll(hashBase64, " ", "+"))
	if err != nil {
		return nil, 400, err
	}
	if len(hash) < 32 {
		return nil, 400, fmt.Errorf("hash must be 32 bytes")
	}
'''),('''	"strconv"

''','''	"strconv"
	"strings"

'''))
