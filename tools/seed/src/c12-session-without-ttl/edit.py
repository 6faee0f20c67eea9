import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
sub(p,('''		lock, err = client.LockKey(lockpath)
''','''		// Use a session of our own, so that it can be told from others in the list of sessions
		session, _, err := client.Session().Create(&consul.SessionEntry{
			Name:     "itko-submit " + kvpath,
			Behavior: consul.SessionBehaviorRelease,
		}, nil)
		if err != nil {
			return nil, fmt.Errorf("unable to create session: %v", err)
		}
		lock, err = client.LockOpts(&consul.LockOptions{Key: lockpath, Session: session})
'''))
