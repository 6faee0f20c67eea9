import sys; sys.path.insert(0,'/tmp/seeds')
p='internal/ctsubmit/bucket.go'
s=open(p).read()
i=s.index('func (b *Bucket) PutRecordHashes'); j=s.index('func (b *Bucket) GetRecordHash')
h,r,t=s[:i],s[i:j],s[j:]
def rep(a,b):
    global r
    assert r.count(a)==1,a
    r=r.replace(a,b)
rep('''	// Now, update the files with the new hashes.
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := len(records) / RHURecordSize
''','''	// The number of records in each file
	counts := make(map[string]int, len(f))
	for path, records := range f {
		counts[path] = len(records) / RHURecordSize
	}

	// Now, update the files with the new hashes.
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := counts[e.hashPath]
''')
open(p,'w').write(h+r+t)
