import sys; sys.path.insert(0,'/tmp/seeds')
from lib import sub
p='internal/ctsubmit/storage.go'
sub(p,('''	// Return the original error if it's not related to missing directories
	return err
''','''	// There might be no space or no permission for a second file next to an existing one
	return os.WriteFile(filePath, data, 0644)
'''))
