import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/logic.go'
s=open(p).read()
s=s.replace("	lastFlushTime := time.Now()\n","	lastFlushTime := time.Now().UnixMilli()\n")
s=s.replace("time.Since(lastFlushTime) >= FLUSH_INTERVAL","time.Now().UnixMilli()-lastFlushTime >= FLUSH_INTERVAL.Milliseconds()")
s=s.replace("lastFlushTime = time.Now()\n","lastFlushTime = time.Now().UnixMilli()\n")
open(p,'w').write(s)
