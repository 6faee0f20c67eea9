import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''				for _, e := range pool {
					for _, cert := range e.entry.Chain {
''','''				for _, e := range pool {
					g := issuers
					for _, cert := range e.entry.Chain {
'''),('''			updatedTreeSize := d.treeSize

''','''			updatedTreeSize, issuers := d.treeSize, new(errgroup.Group)

'''),('''			// ** Everything is uploaded, return the log entries **
''','''			if err := issuers.Wait(); err != nil {
				return fmt.Errorf("failed to upload issuers: %w", err)
			}

			// ** Everything is uploaded, return the log entries **
'''))
