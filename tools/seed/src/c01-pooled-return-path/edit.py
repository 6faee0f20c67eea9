import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''	"slices"
''','''	"slices"
	"sync"
'''))
sub(p,('''		returnPath := make(chan sunlight.LogEntry, 1)
''','''		returnPath := returnPaths.Get().(chan sunlight.LogEntry)
		defer returnPaths.Put(returnPath)
'''),('''func (d *stageZeroData) addChain(''','''// returnPaths saves allocating a channel for every submission.
var returnPaths = sync.Pool{New: func() any { return make(chan sunlight.LogEntry, 1) }}

func (d *stageZeroData) addChain('''))
