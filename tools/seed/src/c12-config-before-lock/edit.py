import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub as s2
G='internal/ctsubmit/config.go'
def sub(p,a,b): s2(p,(a,b))
sub(G,'''		// Lock the key and get a channel to listen for lock loss
''','''		rawConfig, _, err := client.KV().Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
		if err != nil {
			return nil, err
		}
		// Lock the key and get a channel to listen for lock loss
''')
sub(G,'''		kv := client.KV()
		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
		if err != nil {
			return nil, err
		}
		if rawConfig''','''		if rawConfig''')
