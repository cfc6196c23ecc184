package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/akhenakh/oureadb/s2tools"
	"github.com/gorilla/mux"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- T06

// The debug server runs as a process of its own, built from /repo by check.sh next to
// this program (under the race detector), and is asked over the loopback interface.

type srvReq struct {
	K      string    `json:"k"`
	Items  []string  `json:"items,omitempty"`
	Raw    string    `json:"raw,omitempty"`
	Method string    `json:"method,omitempty"`
	C      coverCase `json:"c"`
	Params [3]string `json:"params"`
	Big    int       `json:"big,omitempty"`
	Seed   int64     `json:"seed,omitempty"`
}

type srvCase struct {
	Clients [][]srvReq `json:"clients"`
}

func init() {
	register(Prop{ID: "T06", Quick: 1000, Thorough: 40000, HangSecs: 200,
		Rule: "1-6 clients send 1-6 requests each at the same time to the running debug server: cell lists, covers of generated objects (bodies up to megabytes), malformed lists and bodies, wrong methods and paths, and connections cut in the middle of a request; every answer is compared with the one the handlers give alone, the server has to stay up and free of data races; non-trivial: at least two clients and one request answered with cells"},
		func(t *rapid.T) *srvCase {
			c := &srvCase{}
			for n := rapid.IntRange(1, 6).Draw(t, "clients"); n > 0; n-- {
				var l []srvReq
				for k := rapid.IntRange(1, 6).Draw(t, "requests"); k > 0; k-- {
					r := srvReq{K: rapid.SampledFrom([]string{"cells", "cells", "cells", "cover", "cover", "cover", "badcells", "badbody", "badparams", "method", "path", "cut", "method"}).Draw(t, "k"), Seed: rapid.Int64Range(1, 1<<30).Draw(t, "seed")}
					switch r.K {
					case "cells", "badcells":
						for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
							r.Items = append(r.Items, genCellSpec(t).token())
						}
						if r.K == "badcells" {
							i := rapid.IntRange(0, len(r.Items)-1).Draw(t, "at")
							r.Items[i] = rapid.SampledFrom([]string{"", "X", "zz", "1/", "0000000000000000", "12345678901234567", " ", "%"}).Draw(t, "bad")
						}
						r.Method = rapid.SampledFrom([]string{"GET", "GET", "GET", "POST"}).Draw(t, "m")
					default:
						r.C = *genCover(t, []string{"point", "line", "polygon"}, 6)
						if r.C.MC == 0 || r.C.MC > 100 {
							r.C.MC = 100
						}
						r.Params = [3]string{strconv.Itoa(r.C.Min), strconv.Itoa(r.C.Max), strconv.Itoa(r.C.MC)}
						switch r.K {
						case "badparams":
							r.Params[rapid.IntRange(0, 2).Draw(t, "pi")] = rapid.SampledFrom([]string{"-1", "x", "1.5", "99999999999999999999", "a1", "1e1", "%31x"}).Draw(t, "p")
						case "method":
							r.Method = rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "HEAD", "PATCH"}).Draw(t, "m")
						case "path":
							r.Raw = rapid.SampledFrom([]string{"/", "/api", "/api/", "/api/s2cell", "/api/geojson", "/api/geojson/1/2", "/api/geojson/1/2/3/4", "/API/s2cells", "/debug/pprof/"}).Draw(t, "path")
						case "badbody":
							r.Raw = rapid.SampledFrom(badBodies).Draw(t, "body")
						case "cover":
							if rapid.IntRange(0, 9).Draw(t, "isbig") == 0 {
								r.Big = rapid.SampledFrom([]int{4 << 10, 70 << 10, 1 << 20, 3 << 20}).Draw(t, "big")
							}
						}
					}
					l = append(l, r)
				}
				c.Clients = append(c.Clients, l)
			}
			return c
		}, runServer)
}

type server struct {
	addr   string
	log    *os.File
	exited chan error
	seen   int
}

var theServer *server

func startServer() (*server, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	bin := filepath.Join(filepath.Dir(exe), "mapdebugger")
	if _, err := os.Stat(bin); err != nil {
		return nil, err
	}
	var last string
	for try := 0; try < 8; try++ {
		l, err := net.Listen("tcp", ":0")
		if err != nil {
			return nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		logf, err := os.CreateTemp("", "oureaverif-server")
		if err != nil {
			return nil, err
		}
		os.Remove(logf.Name())
		s := &server{addr: fmt.Sprintf("127.0.0.1:%d", port), log: logf, exited: make(chan error, 1)}
		cmd := exec.Command(bin, "-httpPort", strconv.Itoa(port))
		cmd.Stderr = logf
		cmd.Stdout = logf
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0")
		// the server ends with this process, whatever ends it
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		started := make(chan error, 1)
		go func() {
			runtime.LockOSThread()
			if err := cmd.Start(); err != nil {
				started <- err
				return
			}
			started <- nil
			s.exited <- cmd.Wait()
		}()
		if err := <-started; err != nil {
			return nil, err
		}
		for i := 0; i < 600; i++ {
			select {
			case <-s.exited:
				i = 1000
			default:
				if c, err := net.DialTimeout("tcp", s.addr, time.Second); err == nil {
					c.Close()
					if owns(cmd.Process.Pid, port) {
						return s, nil
					}
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		b := s.output()
		last = string(b)
		// somebody else took the port in between
		if !strings.Contains(last, "address already in use") {
			return nil, failf("the debug server does not listen on port %d: %s", port, last)
		}
	}
	return nil, harnessError{fmt.Errorf("no free port: %s", last)}
}

func (s *server) output() []byte {
	fi, err := s.log.Stat()
	if err != nil {
		return nil
	}
	b := make([]byte, fi.Size())
	n, _ := s.log.ReadAt(b, 0)
	return b[:n]
}

// owns tells whether the process listens on the port itself.
func owns(pid, port int) bool {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && w[3] == "0A" && strings.HasSuffix(w[1], fmt.Sprintf(":%04X", port)) {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	fds, _ := filepath.Glob(fmt.Sprintf("/proc/%d/fd/*", pid))
	for _, f := range fds {
		if l, err := os.Readlink(f); err == nil && inodes[l] {
			return true
		}
	}
	return false
}

func (r *srvReq) path() string { return "/api/geojson/" + strings.Join(r.Params[:], "/") }

// body is what a request carries.
func (r *srvReq) body() string {
	switch r.K {
	case "badbody":
		return r.Raw
	case "cells", "badcells":
		return ""
	}
	props := `{"name":"x"}`
	if r.Big > 0 {
		props = `{"name":"` + strings.Repeat("x", r.Big) + `"}`
	}
	return `{"type":"FeatureCollection","features":[{"type":"Feature","properties":` + props + `,"geometry":` + shapeJSON(&r.C.S) + `}]}`
}

func (r *srvReq) query() string {
	var l []string
	for _, it := range r.Items {
		l = append(l, url.QueryEscape(it))
	}
	return "cells=" + strings.Join(l, ",")
}

// alone asks the handlers in this process, nothing else running.
func (r *srvReq) alone() (int, string) {
	w := httptest.NewRecorder()
	switch r.K {
	case "cells", "badcells":
		req := httptest.NewRequest(r.Method, "http://x/api/s2cells", nil)
		req.URL.RawQuery = r.query()
		s2tools.S2CellQueryHandler(w, req)
	case "cover", "badbody":
		small := *r
		small.Big = 0 // a large property changes nothing
		req := httptest.NewRequest("POST", "http://x/", strings.NewReader(small.body()))
		s2tools.GeoJSONToCellHandler(w, mux.SetURLVars(req, map[string]string{"min_level": r.Params[0], "max_level": r.Params[1], "max_cells": r.Params[2]}))
	default:
		return 400, ""
	}
	return w.Code, w.Body.String()
}

var srvClient = &http.Client{Timeout: 100 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 8}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

func (s *server) send(r *srvReq) (int, string, error) {
	u := &url.URL{Scheme: "http", Host: s.addr}
	method, body := "POST", r.body()
	switch r.K {
	case "cells", "badcells":
		u.Path, u.RawQuery = "/api/s2cells", r.query()
		method, body = r.Method, ""
	case "path":
		u.Path = r.Raw
	case "method":
		method = r.Method
		u.Path = r.path()
	case "badparams":
		u.Path, u.RawPath = "", ""
		u.Opaque = "//" + s.addr + r.path()
	default:
		u.Path = r.path()
	}
	req, err := http.NewRequest(method, "http://"+s.addr+"/", strings.NewReader(body))
	if err != nil {
		return 0, "", harnessError{err}
	}
	req.URL = u
	res, err := srvClient.Do(req)
	if err != nil {
		return 0, "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err == nil && res.StatusCode == 200 && !strings.HasPrefix(res.Header.Get("Content-Type"), "application/json") {
		return res.StatusCode, string(b), failf("the answer has the content type %q", res.Header.Get("Content-Type"))
	}
	return res.StatusCode, string(b), err
}

// cut sends a part of a request and hangs up.
func (s *server) cut(r *srvReq) {
	c, err := net.DialTimeout("tcp", s.addr, 20*time.Second)
	if err != nil {
		return
	}
	defer c.Close()
	b := r.body()
	msg := fmt.Sprintf("POST %s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", r.path(), len(b), b)
	n := int(r.Seed) % (len(msg) + 1)
	io.WriteString(c, msg[:n])
	if r.Seed%3 == 0 {
		// wait for an answer if one is due
		c.SetReadDeadline(time.Now().Add(20 * time.Millisecond))
		http.ReadResponse(bufio.NewReader(c), nil)
	}
}

func runServer(c *srvCase, x *Ctx) error {
	if theServer == nil {
		s, err := startServer()
		if err != nil {
			if _, ok := err.(harnessError); ok || strings.HasPrefix(err.Error(), "the debug server") {
				return err
			}
			return harnessError{err}
		}
		theServer = s
		s.seen = len(s.output())
	}
	s := theServer
	type answer struct {
		code int
		body string
	}
	want := make([][]answer, len(c.Clients))
	cells := false
	for i, l := range c.Clients {
		for j := range l {
			code, body := l[j].alone()
			want[i] = append(want[i], answer{code, body})
			cells = cells || code == 200
			x.Label("request " + l[j].K)
		}
	}
	if cells && len(c.Clients) > 1 {
		x.NonTrivial()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var first error
	fail := func(err error) {
		mu.Lock()
		if first == nil {
			first = err
		}
		mu.Unlock()
	}
	start := make(chan struct{})
	for i, l := range c.Clients {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for j := range l {
				r := &l[j]
				what := fmt.Sprintf("client %d, request %d (%s %s %s %s)", i, j, r.K, r.Method, r.path(), show([]byte(r.query()+r.Raw)))
				if r.K == "cut" {
					s.cut(r)
					continue
				}
				code, body, err := s.send(r)
				if err != nil {
					fail(failf("%s gets no answer: %v", what, err))
					return
				}
				w := want[i][j]
				switch {
				case w.code == 200 && (code != 200 || !sameJSON(body, w.body)):
					fail(failf("%s: the server answers %d %s, the handler alone %d %s", what, code, show([]byte(body)), w.code, show([]byte(w.body))))
				case w.code != 200 && (code < 400 || code > 499):
					fail(failf("%s: the server answers %d %s instead of a client error", what, code, show([]byte(body))))
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	select {
	case err := <-s.exited:
		theServer = nil
		return failf("the debug server ended (%v): %s", err, tail(s.output(), 2000))
	default:
	}
	out := s.output()
	if len(out) > s.seen {
		news := out[s.seen:]
		s.seen = len(out)
		if bytes.Contains(news, []byte("DATA RACE")) && bytes.Contains(news, []byte("akhenakh/oureadb/")) {
			return failf("data race in the debug server:\n%s", tail(news, 3000))
		}
		if bytes.Contains(news, []byte("panic serving")) && bytes.Contains(news, []byte("akhenakh/oureadb/")) {
			return failf("panic in the debug server:\n%s", tail(news, 3000))
		}
	}
	return first
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func sameJSON(a, b string) bool {
	if a == b {
		return true
	}
	var x, y interface{}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	p, _ := json.Marshal(x)
	q, _ := json.Marshal(y)
	return bytes.Equal(p, q)
}
