import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/bucket.go'
s=open(p).read()
i=s.index('func (b *Bucket) PutDedupeEntries')
h,r=s[:i],s[i:]
def rep(a,b):
    global r
    assert r.count(a)==1,a
    r=r.replace(a,b)
rep('''			if bytes.Compare(e.hash[:], records[i*DDURecordSize:(i*DDURecordSize)+DDUHashSize]) < 0 {
''','''			// The hashes in a file only differ after the prefix that is in its path
			if bytes.Compare(e.hash[(mask+1)/2:], records[i*DDURecordSize+(mask+1)/2:(i*DDURecordSize)+DDUHashSize]) < 0 {
''')
rep('''		if bytes.Equal(hash[:], record.hash[:]) {
			return record, nil
		}
''','''		c := bytes.Compare(hash[:], record.hash[:])
		if c == 0 {
			return record, nil
		} else if c < 0 {
			// The records are sorted
			break
		}
''')
open(p,'w').write(h+r)
