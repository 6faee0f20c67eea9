import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
s=open(p).read()
a='''			// Increment the sequence
			sequence++
			// Append the log entry to the pool
			pool = append(pool, logEntry)
'''
assert s.count(a)==1
s=s.replace(a,'''			if n := len(pool); n > 0 && pool[n-1].entry.CertificateFp == logEntry.entry.CertificateFp && pool[n-1].entry.IsPrecert == logEntry.entry.IsPrecert {
				// A client that retries too soon submits a certificate that is still in the pool
				pool[n-1].returnPath = logEntry.returnPath
			} else {
				// Increment the sequence
				sequence++
				// Append the log entry to the pool
				pool = append(pool, logEntry)
			}
''')
open(p,'w').write(s)
