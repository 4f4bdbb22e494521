package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path"
	"strings"
	"testing"
)

type resp struct {
	Status   int
	Location string
	Body     string // file
	Length   int64  // declared length; -1 unknown
	Fail     int    // the connection breaks after this many bytes; -1 never
	Repeat   int64  // stream this many zero bytes instead of a file
}
type scen struct {
	Mode, URL, Version string
	Pre                bool
	Releases           json.RawMessage
	Resp               map[string]resp
	Log                string
}
type fake struct {
	s    scen
	urls []string
}
type breaking struct {
	r io.Reader
	n int
}

func (b *breaking) Read(p []byte) (int, error) {
	if b.n == 0 {
		return 0, errors.New("connection reset")
	}
	if b.n >= 0 && len(p) > b.n {
		p = p[:b.n]
	}
	n, err := b.r.Read(p)
	if b.n > 0 {
		b.n -= n
	}
	return n, err
}
func (b *breaking) Close() error { return nil }

type zeros struct{}

func (zeros) Read(p []byte) (int, error) { clear(p); return len(p), nil }

func (f *fake) RoundTrip(q *http.Request) (*http.Response, error) {
	u := q.URL.String()
	f.urls = append(f.urls, u)
	if f.s.Log != "" {
		l, _ := os.OpenFile(f.s.Log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		fmt.Fprintln(l, u)
		l.Close()
	}
	r := &http.Response{StatusCode: 404, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: q, Body: io.NopCloser(bytes.NewReader(nil))}
	if u == githubReleasesURL {
		r.StatusCode = 200
		r.Body = io.NopCloser(bytes.NewReader(f.s.Releases))
		return r, nil
	}
	if d, ok := f.s.Resp[u]; ok {
		r.StatusCode = d.Status
		if d.Location != "" {
			r.Header.Set("Location", d.Location)
		}
		var b io.Reader = bytes.NewReader(nil)
		r.ContentLength = 0
		if d.Body != "" {
			data, _ := os.ReadFile(d.Body)
			b = bytes.NewReader(data)
			r.ContentLength = int64(len(data))
		}
		if d.Repeat > 0 {
			b = io.LimitReader(zeros{}, d.Repeat)
			r.ContentLength = d.Repeat
		}
		if d.Length != 0 {
			r.ContentLength = d.Length
		}
		r.Body = &breaking{b, d.Fail}
	}
	return r, nil
}

func TestMain(m *testing.M) {
	var s scen
	data, _ := os.ReadFile(os.Getenv("SCEN"))
	if err := json.Unmarshal(data, &s); err != nil {
		fmt.Println("bad scenario", err)
		os.Exit(99)
	}
	f := &fake{s: s}
	http.DefaultTransport = f
	Version = "v1.2.0"
	var err error
	switch s.Mode {
	case "confirm":
		err = runUpdate(true, s.URL, false)
	case "update":
		err = runUpdate(false, "", s.Pre)
	case "install":
		err = runInstall(s.Version)
	case "urls":
		urls(f)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	os.Exit(0)
}

// Every URL of a grammar: whichever is requested must lie below the release location however it is read.
func urls(f *fake) {
	schemes := []string{"https://", "http://", "HTTPS://", "ftp://", "https:/", "https:", "//", "", " https://", "https://https://", "file://", "javascript://"}
	users := []string{"", "github.com@", "x:y@", "@", "github.com%40"}
	hosts := []string{"github.com", "GITHUB.COM", "github.com.", "github.com:443", "github.com:80", "evil.com", "github.com.evil.com", "evilgithub.com", "api.github.com", "github.com%2eevil.com", "github.com\\evil.com", "github。com", "[::1]", "", "github.com\t", "github.com#", "github.com?"}
	base := "/grayscale-lang/grayscale/releases/download/"
	paths := []string{base + "v1/gray.tar.gz", base, base + "../../../../evil/x", base + "v1/../../../../../evil/e/releases/download/x", base + "%2e%2e/%2e%2e/%2E%2E/%2e./evil/x", base + "..%2f..%2f..%2f..%2fevil", base + ".%2e/../../../evil", base + "v1/..", base + "v1/../x", base + "./x", base + "v1//x",
		strings.ToUpper(base) + "x", "/evil/evil/releases/download/x", "/grayscale-lang/evil/releases/download/x", "/evil" + base + "x", base[:len(base)-1], base[:len(base)-1] + "x/y", "//grayscale-lang/grayscale/releases/download/x", "/x/.." + base + "x", "/%67rayscale-lang/grayscale/releases/download/x", "/grayscale-lang%2fgrayscale/releases/download/x", base + "v1\\..\\..\\..\\..\\evil", base + "x?y=../../../../e", base + "x#/../../../../e", "", "/", "?" + base, "#" + base, ";" + base, base + "%00x", base + "x\n", base + "%", base + "%252e%252e/%252e%252e/evil"}
	n := 0
	seen := map[string]bool{}
	try := func(u string) {
		if seen[u] {
			return
		}
		seen[u] = true
		f.urls = nil
		err := doInstall(u, os.Getenv("EXE"))
		n++
		if err == nil {
			fmt.Printf("V\turl:%q\tinstalled from %q although the server answers 404\n", u, u)
		}
		for _, g := range f.urls {
			if why := outside(g); why != "" {
				fmt.Printf("V\turl:%q\t%q led to a request for %q: %s\n", u, u, g, why)
			}
		}
		if len(f.urls) == 0 && u == "https://github.com"+base+"v1/gray.tar.gz" {
			fmt.Printf("V\turl:good\tthe project's own release URL is refused: %v\n", err)
		}
	}
	for _, s := range schemes {
		for _, us := range users {
			for _, h := range hosts {
				for _, p := range paths {
					try(s + us + h + p)
				}
			}
		}
	}
	// every path of up to 6 segments over a segment alphabet below the release location
	seg := []string{"..", ".", "a", "%2e%2e", "%2E.", "..%2f..", ""}
	var rec func(p string, d int)
	rec = func(p string, d int) {
		try("https://github.com" + base + p)
		if d == 0 {
			return
		}
		for _, s := range seg {
			rec(p+s+"/", d-1)
		}
	}
	depth := 5
	if os.Getenv("THOROUGH") != "" {
		depth = 6
	}
	rec("", depth)
	// every single-character edit of the good URL over an alphabet
	good := "https://github.com" + base + "v1/gray.tar.gz"
	for i := 0; i <= len(good); i++ {
		for _, ch := range []string{"", "a", "/", ".", "@", ":", "\\", "%", "#", "?", " ", "\x00", "é", "-"} {
			try(good[:i] + ch + good[i:])
			if i < len(good) {
				try(good[:i] + ch + good[i+1:])
			}
		}
	}
	fmt.Println("N urls", n)
	fmt.Println("DONE")
}

// outside: decode and normalise the URL as any server or proxy might; "" when it stays in place under all readings
func outside(g string) string {
	u, err := url.Parse(g)
	if err != nil {
		return "unparsable"
	}
	if u.Scheme != "https" {
		return "not https"
	}
	if u.User != nil {
		return "user information"
	}
	if h := strings.ToLower(u.Host); h != "github.com" && h != "github.com:443" && h != "github.com." {
		return "another host"
	}
	pre := "/grayscale-lang/grayscale/releases/download/"
	if !strings.HasPrefix(u.Path, pre) {
		return "path"
	}
	if c := path.Clean(u.Path); !strings.HasPrefix(c+"/", pre) {
		return "dot segments leave the release location"
	}
	return ""
}
