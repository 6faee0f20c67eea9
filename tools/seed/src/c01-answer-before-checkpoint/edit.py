import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
blk='''			// ** Everything is uploaded, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

'''
sub(p,(blk,''))
sub(p,('''			// we also upload a checkpoint based on the STH
''','''			// ** The entries are published, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

			// we also upload a checkpoint based on the STH
'''))
