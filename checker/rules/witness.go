package rules

import (
	"embed"
	"io/fs"
	"path/filepath"
	"strings"

	"verif/checker/eng"
)

// Witness functions: see eng.Witness.  The file a__b.go.txt is added to package directory a/b.
//
//go:embed witness
var witnessFS embed.FS

func init() {
	fs.WalkDir(witnessFS, "witness", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return nil
		}
		b, err := witnessFS.ReadFile(p)
		if err != nil {
			return err
		}
		n := strings.TrimSuffix(filepath.Base(p), ".go.txt")
		eng.Witness[filepath.Join(strings.ReplaceAll(n, "__", "/"), "zz_witness_verif.go")] = string(b)
		return nil
	})
}
