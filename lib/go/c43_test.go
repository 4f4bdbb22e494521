package grayc

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"testing"
)

// Child process: ask for the compiler and check, at the moment the path is returned, that everything is there.
func TestMain(m *testing.M) {
	p, err := Find()
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(3)
	}
	if !filepath.IsAbs(p) || filepath.Base(p) != "grayc" {
		fmt.Println("BAD path", p)
		os.Exit(4)
	}
	dir := filepath.Dir(p)
	bad := func(f string, want []byte, exe bool) {
		got, err := os.ReadFile(filepath.Join(dir, f))
		if err != nil {
			fmt.Println("BAD missing", f)
			os.Exit(4)
		}
		if !bytes.Equal(got, want) {
			fmt.Printf("BAD content of %s: %d of %d bytes\n", f, len(got), len(want))
			os.Exit(4)
		}
		if st, err := os.Stat(filepath.Join(dir, f)); exe && (err != nil || st.Mode()&0o111 != 0o111) {
			fmt.Println("BAD not executable", f)
			os.Exit(4)
		}
	}
	bad("grayc", embeddedGrayc, true)
	bad("libgrayrt.a", embeddedLibgrayrt, false)
	fs.WalkDir(embeddedSrc, "runtime/src", func(path string, d fs.DirEntry, err error) error {
		if !d.IsDir() {
			data, _ := embeddedSrc.ReadFile(path)
			bad(path[len("runtime/"):], data, false)
		}
		return nil
	})
	fmt.Println("OK", p)
	os.Exit(0)
}
