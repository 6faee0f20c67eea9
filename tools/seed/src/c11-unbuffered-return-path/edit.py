import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''		// This channel is buffered so it doesn't block if an attempt is made to send
		// after the timeout fires.
		returnPath := make(chan sunlight.LogEntry, 1)
''','''		returnPath := make(chan sunlight.LogEntry)
'''),('''				entry.returnPath <- entry.entry
''','''				select {
				case entry.returnPath <- entry.entry:
				case <-ctx.Done():
					return fmt.Errorf("stage two: context finished")
				}
'''))
