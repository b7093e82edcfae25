package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"
)

// knownFinding reports whether the finding is listed for the property in known_findings.txt
// ("finding: property=<id> <finding id> <text>") and returns its text.
func knownFinding(prop, id string) string {
	f, err := os.Open(filepath.Join(*fVerif, "known_findings.txt"))
	if err != nil {
		return ""
	}
	defer f.Close()
	pre := "finding: property=" + prop + " " + id + " "
	for s := bufio.NewScanner(f); s.Scan(); {
		if strings.HasPrefix(s.Text(), pre) {
			return id + " " + strings.TrimSpace(s.Text()[len(pre):])
		}
	}
	return ""
}
