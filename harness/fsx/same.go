package fsx

import (
	"io/fs"
	"os"
)

func sameFile(a, b fs.FileInfo) bool { return os.SameFile(a, b) }
