package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"
)

type ver struct {
	s    string
	n    [3]int
	pre  []string
	kind string
}

func isNum(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// precedence of Semantic Versioning 2.0.0, section 11
func spec(a, b ver) int {
	for i := range a.n {
		if a.n[i] != b.n[i] {
			if a.n[i] < b.n[i] {
				return -1
			}
			return 1
		}
	}
	if len(a.pre) == 0 || len(b.pre) == 0 {
		return (btoi(len(a.pre) == 0) - btoi(len(b.pre) == 0))
	}
	for i := 0; i < len(a.pre) && i < len(b.pre); i++ {
		x, y := a.pre[i], b.pre[i]
		if x == y {
			continue
		}
		nx, ny := isNum(x), isNum(y)
		if nx != ny {
			if nx {
				return -1
			}
			return 1
		}
		if nx && len(x) != len(y) {
			if len(x) < len(y) {
				return -1
			}
			return 1
		}
		return strings.Compare(x, y)
	}
	d := len(a.pre) - len(b.pre)
	if d < 0 {
		return -1
	} else if d > 0 {
		return 1
	}
	return 0
}
func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
func sgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}

var shown = map[string]int{}

func viol(part, key, what string) {
	shown[part]++
	if shown[part] <= 12 {
		fmt.Printf("V\t%s:%s\t%s\n", part, key, strings.ReplaceAll(what, "\n", "\\n"))
	}
}
func mk(n [3]int, pre []string, prefix, suffix string) ver {
	s := fmt.Sprintf("%s%d.%d.%d", prefix, n[0], n[1], n[2])
	if len(pre) > 0 {
		s += "-" + strings.Join(pre, ".")
	}
	return ver{s: s + suffix, n: n, pre: pre}
}
func pairs(part string, vs []ver) {
	n := 0
	for _, a := range vs {
		for _, b := range vs {
			n++
			if got := compareSemver(a.s, b.s); got != spec(a, b) {
				viol(part, a.s+" "+b.s, fmt.Sprintf("compareSemver(%q, %q) = %d; precedence is %d", a.s, b.s, got, spec(a, b)))
			}
			if got := isNewerVersion(a.s, b.s); got != (spec(b, a) > 0) {
				viol(part+"-newer", a.s+" "+b.s, fmt.Sprintf("isNewerVersion(%q, %q) = %v; precedence of the second over the first is %d", a.s, b.s, got, spec(b, a)))
			}
		}
	}
	fmt.Println("N", part, n)
}

type rt struct{ f func(*http.Request) *http.Response }

func (r rt) RoundTrip(q *http.Request) (*http.Response, error) {
	p := r.f(q)
	if p == nil {
		return nil, fmt.Errorf("no network")
	}
	p.Request = q
	return p, nil
}
func resp(code int, body []byte) *http.Response {
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body))}
}
func capture(f func()) string {
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	ch := make(chan string)
	go func() { b, _ := io.ReadAll(r); ch <- string(b) }()
	f()
	w.Close()
	os.Stdout = old
	return <-ch
}

func TestMain(m *testing.M) {
	thorough := os.Getenv("THOROUGH") != ""
	ids := []string{"0", "1", "2", "9", "10", "11", "99", "100", "alpha", "beta", "rc", "a", "A", "Z", "a1", "1a", "10a", "-", "-1", "-5", "x-y", "1-2", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}
	nums := []int{0, 1, 2, 9, 10, 11, 100}
	var pres [][]string
	pres = append(pres, nil)
	for _, a := range ids {
		pres = append(pres, []string{a})
		for _, b := range ids {
			pres = append(pres, []string{a, b})
		}
	}
	three := []string{"0", "2", "10", "a", "b", "-"}
	for _, a := range three {
		for _, b := range three {
			for _, c := range three {
				pres = append(pres, []string{a, b, c})
				if thorough {
					for _, d := range three {
						pres = append(pres, []string{a, b, c, d})
					}
				}
			}
		}
	}
	var vs []ver
	for _, p := range pres {
		vs = append(vs, mk([3]int{1, 2, 3}, p, "", ""))
	}
	pairs("pre", vs)
	vs = nil
	for _, a := range nums {
		for _, b := range nums {
			for _, c := range nums {
				vs = append(vs, mk([3]int{a, b, c}, nil, "v", ""))
			}
		}
	}
	pairs("base", vs)
	// decoration: prefix, build metadata, git-describe trailer of a local build
	vs = nil
	var deco []ver
	for _, n := range [][3]int{{0, 0, 0}, {0, 0, 1}, {1, 0, 0}, {1, 2, 3}, {1, 2, 10}, {3, 0, 0}, {10, 0, 0}} {
		for _, p := range [][]string{nil, {"alpha"}, {"alpha", "1"}, {"alpha", "2"}, {"alpha", "10"}, {"beta"}, {"beta", "2"}, {"rc", "1"}, {"rc-1"}, {"0"}, {"1-1"}, {"12", "x"}} {
			for _, pf := range []string{"", "v"} {
				for _, sf := range []string{"", "+b", "+1.2-3", "-4-g0cbcb58", "-12-g0cbcb58a-dirty", "-0-g1"} {
					deco = append(deco, mk(n, p, pf, sf))
				}
			}
		}
	}
	pairs("decorated", deco)
	// ranges and selections over every choice from a small list
	small := []ver{}
	for _, s := range []struct {
		n [3]int
		p []string
	}{{[3]int{1, 0, 0}, nil}, {[3]int{1, 0, 0}, []string{"rc", "2"}}, {[3]int{1, 0, 0}, []string{"rc", "10"}}, {[3]int{1, 9, 0}, nil}, {[3]int{1, 10, 0}, nil}, {[3]int{2, 0, 0}, []string{"alpha"}}, {[3]int{2, 0, 0}, []string{"alpha", "1"}}, {[3]int{2, 0, 0}, nil}, {[3]int{10, 0, 0}, []string{"beta", "9"}}} {
		small = append(small, mk(s.n, s.p, "v", ""), mk(s.n, s.p, "", ""))
	}
	n := 0
	for _, x := range small {
		for _, a := range small {
			for _, b := range small {
				n++
				want := spec(x, a) > 0 && spec(x, b) <= 0
				if got := isVersionInRange(x.s, a.s, b.s); got != want {
					viol("range", x.s+" "+a.s+" "+b.s, fmt.Sprintf("isVersionInRange(%q, %q, %q) = %v", x.s, a.s, b.s, got))
				}
			}
		}
	}
	fmt.Println("N range", n)
	n = 0
	k := 4
	if thorough {
		k = 5
	}
	var rec func(list []ver, flags int)
	rec = func(list []ver, _ int) {
		for flags := 0; flags < 1<<len(list); flags++ {
			n++
			rel := make([]GitHubRelease, len(list))
			var bs, bp *ver
			for i := range list {
				rel[i] = GitHubRelease{TagName: list[i].s, Prerelease: flags>>i&1 == 1}
				b := &bs
				if flags>>i&1 == 1 {
					b = &bp
				}
				if *b == nil || spec(list[i], **b) > 0 {
					*b = &list[i]
				}
			}
			for i, g := range []*GitHubRelease{pickLatestStable(rel), pickLatestPrerelease(rel)} {
				w := bs
				if i == 1 {
					w = bp
				}
				if (g == nil) != (w == nil) || g != nil && (spec(find(list, g.TagName), *w) != 0 || g.Prerelease != (i == 1)) {
					viol("pick", fmt.Sprint(list, flags, i), fmt.Sprintf("picked %v from %v (pre-release flags %b); the highest is %v", g, list, flags, w))
				}
			}
			if flags == 0 && len(list) >= 2 {
				var want, got []string
				for _, x := range list {
					if spec(x, list[0]) > 0 && spec(x, list[1]) <= 0 {
						want = append(want, x.s)
					}
				}
				for _, g := range getReleasesInRange(rel, list[0].s, list[1].s) {
					got = append(got, g.TagName)
				}
				if strings.Join(got, ",") != strings.Join(want, ",") {
					viol("inrange", fmt.Sprint(list), fmt.Sprintf("releases in range %v, expected %v", got, want))
				}
			}
		}
		if len(list) < k {
			for i := 0; i < len(small); i += 2 {
				rec(append(append([]ver{}, list...), small[i+i/2%2]), 0)
			}
		}
	}
	rec(nil, 0)
	fmt.Println("N select", n)
	// an exact version is required to install: every string over a small alphabet
	exact := regexp.MustCompile(`^v?(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*)){2}(-[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?(\+[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?$`)
	loose := regexp.MustCompile(`^v?[0-9]+\.[0-9]+\.[0-9]+([-+][0-9A-Za-z.+-]*)?$`)
	asked := 0
	http.DefaultTransport = rt{func(q *http.Request) *http.Response { asked++; return nil }}
	L := 7
	if thorough {
		L = 8
	}
	n = 0
	var gen func(s []byte)
	check := func(s string) {
		n++
		asked = 0
		var err error
		err = runInstall(s)
		if err == nil {
			viol("exact", s, "installing "+s+" reported success without a network")
		}
		if exact.MatchString(s) && !odd(s) && asked == 0 {
			viol("exact", s, fmt.Sprintf("the exact version %q was refused: %v", s, err))
		}
		if !loose.MatchString(s) && asked != 0 {
			viol("exact", s, fmt.Sprintf("%q is not an exact version but was looked up", s))
		}
	}
	gen = func(s []byte) {
		check(string(s))
		if len(s) < L {
			for _, c := range []byte("1.v-+a") {
				gen(append(s[:len(s):len(s)], c))
			}
		}
	}
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	out := os.Stdout
	os.Stdout = null
	shownOut := out
	func() {
		defer func() { os.Stdout = shownOut }()
		real := os.Stdout
		_ = real
		gen(nil)
		for _, p := range []string{"", "v", "vv", "V", " ", "\n"} {
			for _, b := range []string{"1.2.3", "10.20.30", "1.2", "1", "latest", "1.2.x", "^1.2.3", "~1.2.3", ">=1.2.3", "1.2.3.4", "1.2.3 ", "1.2.3\n", "1.2.3-beta.2", "1.2.3-rc.1+build.5", "1.2.3+b"} {
				check(p + b)
			}
		}
	}()
	fmt.Println("N exact", n)
	// the update notice appears exactly for a newer release
	home := os.Getenv("HOME")
	n = 0
	cand := []string{"v1.0.0", "v1.0.1", "1.10.0", "v1.9.0", "v2.0.0-alpha.2", "v2.0.0-alpha.10", "v2.0.0", "v10.0.0"}
	for _, have := range append(cand, "dev", "v1.0.0-3-gabc1234", "v1.0.0-dirty", "v2.0.0-alpha.2-1-gabc1234-dirty") {
		for _, rel := range cand {
			for _, mode := range []string{"fetch", "cached", "stale-offline", "broken-cache"} {
				n++
				Version = have
				os.RemoveAll(filepath.Join(home, ".gray"))
				os.MkdirAll(filepath.Join(home, ".gray"), 0o755)
				day := time.Now().Format("2006-01-02")
				st := filepath.Join(home, ".gray", "update_check")
				asked = 0
				http.DefaultTransport = rt{func(q *http.Request) *http.Response {
					asked++
					if mode == "stale-offline" {
						return nil
					}
					b, _ := json.Marshal(GitHubRelease{TagName: rel})
					return resp(200, b)
				}}
				switch mode {
				case "cached":
					b, _ := json.Marshal(UpdateState{LastCheck: day, LatestVersion: rel})
					os.WriteFile(st, b, 0o644)
				case "stale-offline":
					b, _ := json.Marshal(UpdateState{LastCheck: "2001-01-01", LatestVersion: rel})
					os.WriteFile(st, b, 0o644)
				case "broken-cache":
					os.WriteFile(st, []byte("{not json"), 0o644)
				}
				got := capture(CheckForUpdateAsync)
				dev := have == "dev" || strings.Contains(have, "-g") || strings.Contains(have, "dirty")
				want := !dev && spec(parse(rel), parse(have)) > 0
				if strings.Contains(got, "available") != want {
					viol("notice", have+" "+rel+" "+mode, fmt.Sprintf("version %s, latest %s (%s): notice %q", have, rel, mode, got))
				}
				if want && !strings.Contains(got, rel) {
					viol("notice", have+" "+rel+" "+mode, fmt.Sprintf("the notice does not name %s: %q", rel, got))
				}
				if mode == "cached" && asked != 0 && !dev {
					viol("notice", have+" "+rel+" "+mode, "asked the network again on the same day")
				}
				if mode == "fetch" && !dev {
					var s UpdateState
					b, _ := os.ReadFile(st)
					json.Unmarshal(b, &s)
					if s.LatestVersion != rel || s.LastCheck != day {
						viol("notice", have+" "+rel+" "+mode, fmt.Sprintf("state written: %s", b))
					}
				}
			}
		}
	}
	fmt.Println("N notice", n)
	_ = sort.Strings
	fmt.Println("DONE")
	os.Exit(0)
}

// identifiers the accepted grammar need not cover: those starting with '-'
func odd(s string) bool {
	return strings.Contains(s, "--") || strings.Contains(s, "+-") || strings.Contains(s, ".-") || strings.HasSuffix(s, "-")
}
func find(l []ver, s string) ver {
	for _, v := range l {
		if v.s == s {
			return v
		}
	}
	return ver{}
}
func parse(s string) ver {
	s = strings.TrimPrefix(s, "v")
	b, p, ok := strings.Cut(s, "-")
	var v ver
	fmt.Sscanf(b, "%d.%d.%d", &v.n[0], &v.n[1], &v.n[2])
	if ok {
		v.pre = strings.Split(p, ".")
	}
	return v
}
