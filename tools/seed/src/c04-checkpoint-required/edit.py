import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/config.go'
sub(p,('''	log.Println("Log loaded successfully")
''','''	// Witnesses and monitors of the static API start from the checkpoint
	if _, err := bucket.S.Get(ctx, "checkpoint"); err != nil && sth.TreeSize > 0 {
		return nil, fmt.Errorf("unable to fetch checkpoint of tree of size %d: %v", sth.TreeSize, err)
	}
	log.Printf("Log loaded successfully, tree size %d", sth.TreeSize)
'''))
