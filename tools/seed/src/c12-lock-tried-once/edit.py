import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
sub(p,('''		lock, err = client.LockKey(lockpath)
''','''		lock, err = client.LockOpts(&consul.LockOptions{
			Key:          lockpath,
			LockTryOnce:  true,
			LockWaitTime: 10 * time.Second,
		})
'''))
