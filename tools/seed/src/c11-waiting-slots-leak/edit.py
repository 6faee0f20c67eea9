import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''		returnPath := make(chan sunlight.LogEntry, 1)
''','''		returnPath := make(chan sunlight.LogEntry, 1)
		// Don't let too many submissions wait at once
		select {
		case d.waiting <- struct{}{}:
		default:
			return nil, http.StatusServiceUnavailable, fmt.Errorf("too many submissions are waiting")
		}
'''),('''		case completeEntry = <-returnPath:
''','''		case completeEntry = <-returnPath:
			<-d.waiting
'''))
p='internal/ctsubmit/config.go'
sub(p,('''	signingKey *ecdsa.PrivateKey
}

type stageOneData struct {
''','''	signingKey *ecdsa.PrivateKey

	waiting chan struct{}
}

type stageOneData struct {
'''),('''			maskSize:      gc.MaskSize,

			signingKey: key,
''','''			maskSize:      gc.MaskSize,

			signingKey: key,
			waiting:    make(chan struct{}, 1024),
'''))
