import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
sub(p,('''			if err != nil {
				return fmt.Errorf("failed to upload new checkpoint: %w", err)
			}
''','''			if err != nil {
				// The entries are covered by the STH already, the next checkpoint covers them too
				log.Printf("failed to upload new checkpoint: %v", err)
			}
'''))
