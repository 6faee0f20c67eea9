import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/sunlight/tile_ol.go'
sub(p,('''	for n >= pathBase {
		n /= pathBase
		nStr = fmt.Sprintf("x%03d/%s", n%pathBase, nStr)
	}
''','''	if n >= pathBase*pathBase {
		nStr = fmt.Sprintf("x%03d/x%03d/%s", n/pathBase/pathBase%pathBase, n/pathBase%pathBase, nStr)
	} else if n >= pathBase {
		nStr = fmt.Sprintf("x%03d/%s", n/pathBase, nStr)
	}
'''))
