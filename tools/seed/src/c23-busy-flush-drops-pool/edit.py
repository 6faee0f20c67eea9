import sys; sys.path.insert(0,'/tmp/seeds')
p='internal/ctsubmit/logic.go'
s=open(p).read()
i=s.index('		case <-time.After(FLUSH_INTERVAL):')
h,r=s[:i],s[i:]
a='''			d.stageTwoTx <- closedPool
'''
assert r.count(a)==1
r=r.replace(a,'''			select {
			case d.stageTwoTx <- closedPool:
			default:
				// Stage two is busy, the next flush will do
			}
''')
open(p,'w').write(h+r)
