package main

import (
	"os"
	"path/filepath"
	"sort"
)

var realList []string

// realExes lists the executables made by tools/realexe.sh with real linkers.
func realExes() []string {
	if realList == nil {
		realList, _ = filepath.Glob(filepath.Join(os.Getenv("VRUN_REAL"), "*.exe"))
		sort.Strings(realList)
	}
	return realList
}

// realExe gives one of them.
func realExe(c *Ctx) ([]byte, string) {
	l := realExes()
	if os.Getenv("VRUN_REAL") == "" || len(l) == 0 {
		return nil, ""
	}
	p := l[c.Index%len(l)]
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, ""
	}
	return b, filepath.Base(p)
}
