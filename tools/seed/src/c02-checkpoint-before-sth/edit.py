import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
blk='''			err = d.bucket.SetSth(ctx, jsonBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}

'''
sub(p,(blk,''))
sub(p,('''			// Update the tree size once the checkpoints are uploaded
''','''			// The STH marks the batch as complete, so it comes last
'''+blk+'''			// Update the tree size once the checkpoints are uploaded
'''))
