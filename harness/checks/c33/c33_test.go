// HTTP posts against recording servers on the loopback interface.
package c33

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/httpclient"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

// seen is what the server got.
type seen struct {
	method, uri, host string
	header            http.Header
	body              []byte
	length            int64
	tls               bool
}

// answer is what the server gives.
type answer struct {
	status  int
	body    []byte
	chunked bool
	pieces  int
	pad     int   // bytes of one header
	hops    []int // statuses that send the post on before it is answered
}

var (
	mu      sync.Mutex
	answers = map[string]answer{}
	got     = map[string][]seen{}
	plain   *httptest.Server
	secure  *httptest.Server
)

func serve(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	id := r.URL.Query().Get("id")
	mu.Lock()
	got[id] = append(got[id], seen{r.Method, r.RequestURI, r.Host, r.Header.Clone(), body, r.ContentLength, r.TLS != nil})
	n := len(got[id])
	a, ok := answers[id]
	mu.Unlock()
	if n <= len(a.hops) {
		w.Header().Set("Location", fmt.Sprintf("%s&hop=%d", r.RequestURI, n))
		w.WriteHeader(a.hops[n-1])
		io.WriteString(w, "elsewhere")
		return
	}
	if !ok {
		w.WriteHeader(599)
		return
	}
	w.Header().Set("Content-Type", "application/octet-stream")
	if !a.chunked {
		w.Header().Set("Content-Length", fmt.Sprint(len(a.body)))
	}
	if a.pad > 0 {
		w.Header().Set("X-Pad", strings.Repeat("p", a.pad))
	}
	w.WriteHeader(a.status)
	b := a.body
	for i := a.pieces; i > 1; i-- {
		k := len(b) / i
		w.Write(b[:k])
		b = b[k:]
		if a.chunked {
			w.(http.Flusher).Flush()
		}
	}
	w.Write(b)
}

func TestMain(m *testing.M) {
	quiet := log.New(io.Discard, "", 0)
	plain = httptest.NewUnstartedServer(http.HandlerFunc(serve))
	plain.Config.ErrorLog = quiet
	plain.Start()
	secure = httptest.NewUnstartedServer(http.HandlerFunc(serve))
	secure.Config.ErrorLog = quiet
	secure.StartTLS()
	os.Unsetenv("HTTP_PROXY")
	h.Main(m)
}

type request struct {
	id      string
	form    int // Post, Post2, Post3
	tls     bool
	closing bool
	path    string
	body    []byte
	header  map[string]string
	cookie  *http.Cookie
	ans     answer
}

var names = []string{"X-A", "x-lower", "X-Long-Header-Name", "Content-Type", "Accept", "User-Agent", "Authorization", "Accept-Encoding", "Accept-Language", "Referer", "X-1", "Host", "host", "Cookie"}

func text(t *rapid.T, label string) string {
	return rapid.OneOf(
		rapid.StringMatching(`[a-zA-Z0-9]{1,12}`),
		rapid.StringMatching(`[!-~]([ -~]{0,60}[!-~])?`),
		rapid.StringMatching(`[a-z]{200,400}`),
		rapid.StringMatching(`[!-~]([ -~à-ÿ你好]{0,30}[!-~])?`),
		rapid.Map(rapid.SliceOfN(rapid.ByteRange(0x80, 0xff), 1, 20), func(b []byte) string { return string(b) }),
	).Draw(t, label)
}

var serial int

func draw(t *rapid.T, big int) request {
	serial++
	r := request{id: fmt.Sprint(serial), form: rapid.IntRange(0, 3).Draw(t, "form"), tls: rapid.Bool().Draw(t, "https"), closing: rapid.Bool().Draw(t, "close")}
	if r.form > 2 {
		r.form = 2
	}
	r.path = rapid.SampledFrom([]string{"/", "/a", "/a/b.c", "/a%20b/%2F", "/%E4%BD%A0", "/a//b/", "/A+b"}).Draw(t, "path") + "?id=" + r.id + rapid.SampledFrom([]string{"", "&x=1", "&x=%26&y", "&q=a+b%20c", "&a=1&a=2"}).Draw(t, "query")
	r.body = h.Bytes(t, "body", rapid.SampledFrom([]int{20, 500, 5000, big}).Draw(t, "upto"))
	if r.form == 2 {
		if rapid.Bool().Draw(t, "headers") {
			r.header = map[string]string{}
			for n := rapid.IntRange(0, 5).Draw(t, "n"); n > 0; n-- {
				k := rapid.SampledFrom(names).Draw(t, "name")
				v := text(t, "value")
				switch strings.ToLower(k) {
				case "host":
					v = rapid.SampledFrom([]string{"example.org", "virtual.example:8080", "a"}).Draw(t, "hostname")
				case "cookie":
					v = "given=" + rapid.StringMatching(`[a-z0-9]{1,9}`).Draw(t, "given")
				case "accept-encoding":
					v = "identity"
				}
				for o := range r.header {
					if strings.EqualFold(o, k) {
						delete(r.header, o)
					}
				}
				r.header[k] = v
			}
		}
		if rapid.Bool().Draw(t, "cookie") {
			r.cookie = &http.Cookie{Name: rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9_-]{0,10}`).Draw(t, "cookie.name"), Value: rapid.StringMatching(`[!#-+\--:<-\[\]-~]{0,40}`).Draw(t, "cookie.value"), Path: "/elsewhere", Secure: true}
		}
	}
	r.ans = answer{
		status:  rapid.SampledFrom([]int{200, 200, 200, 201, 400, 404, 500, 503}).Draw(t, "status"),
		body:    h.Bytes(t, "answer", rapid.SampledFrom([]int{20, 500, 5000, big}).Draw(t, "answer.upto")),
		chunked: rapid.Bool().Draw(t, "chunked"),
		pieces:  rapid.IntRange(1, 4).Draw(t, "pieces"),
	}
	switch rapid.IntRange(0, 31).Draw(t, "pad") {
	case 7:
		r.ans.pad = rapid.SampledFrom([]int{4000, 5000, 40000, 70000, 300000}).Draw(t, "pad.n")
	case 9:
		if r.form == 2 { // as large as a server takes it
			if r.header == nil {
				r.header = map[string]string{}
			}
			r.header["X-Large"] = strings.Repeat("l", rapid.SampledFrom([]int{4000, 5000, 40000, 70000, 300000}).Draw(t, "large"))
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "moved") == 0 {
		r.ans.hops = rapid.SliceOfN(rapid.SampledFrom([]int{307, 308}), 1, 3).Draw(t, "hops")
	}
	return r
}

func (r *request) String() string {
	return fmt.Sprintf("form %d https %v close %v path %s body %d:%x header %.500q cookie %v answer %d %d:%x pad %d chunked %v pieces %d hops %v;", r.form, r.tls, r.closing, r.path, len(r.body), sum(r.body), r.header, r.cookie, r.ans.status, len(r.ans.body), sum(r.ans.body), r.ans.pad, r.ans.chunked, r.ans.pieces, r.ans.hops)
}

func sum(b []byte) []byte { s := sha256.Sum256(b); return s[:4] }

func (r *request) send() ([]byte, error) {
	base := plain.URL
	if r.tls {
		base = secure.URL
	}
	switch r.form {
	case 0:
		return httpclient.Post(r.body, base+r.path)
	case 1:
		return httpclient.Post2(r.body, r.closing, base+r.path)
	}
	return httpclient.Post3(r.body, r.closing, base+r.path, r.header, r.cookie)
}

// What the client adds of its own accord.
var own = []string{"User-Agent", "Accept-Encoding", "Connection", "Content-Length"}

func (r *request) verify(resp []byte, err error, body []byte, header map[string]string) string {
	mu.Lock()
	l := got[r.id]
	delete(got, r.id)
	delete(answers, r.id)
	mu.Unlock()
	if err != nil {
		return fmt.Sprintf("the post fails: %v", err)
	}
	if !bytes.Equal(resp, r.ans.body) {
		return fmt.Sprintf("the response is %s, the server answered %s", h.B(resp), h.B(r.ans.body))
	}
	if len(l) != 1+len(r.ans.hops) {
		return fmt.Sprintf("one post arrives %d times, %d redirections", len(l), len(r.ans.hops))
	}
	s := l[0]
	for _, x := range l[1:] { // it is repeated as it was
		if x.method != http.MethodPost || !bytes.Equal(x.body, body) {
			return fmt.Sprintf("redirected with %v, it arrives as a %s of %s", r.ans.hops, x.method, h.B(x.body))
		}
	}
	host := strings.TrimPrefix(plain.URL, "http://")
	if r.tls {
		host = strings.TrimPrefix(secure.URL, "https://")
	}
	want := http.Header{}
	for k, v := range header {
		if strings.EqualFold(k, "host") {
			host = v
		} else {
			want.Set(k, v)
		}
	}
	if r.cookie != nil {
		c := r.cookie.Name + "=" + r.cookie.Value
		if g := want.Get("Cookie"); g != "" {
			c = g + "; " + c
		}
		want.Set("Cookie", c)
	}
	switch {
	case s.method != http.MethodPost:
		return "the method is " + s.method
	case s.uri != r.path:
		return fmt.Sprintf("posted to %s, arrives at %s", r.path, s.uri)
	case s.tls != r.tls:
		return "the other scheme was used"
	case s.host != host:
		return fmt.Sprintf("the host is %q, want %q", s.host, host)
	case !bytes.Equal(s.body, body):
		return fmt.Sprintf("the body arrives as %s, sent %s", h.B(s.body), h.B(body))
	}
	for k := range want {
		if !slices.Equal(s.header[k], want[k]) {
			return fmt.Sprintf("header %s arrives as %.300q, given %.300q", k, s.header[k], want[k])
		}
	}
	for k := range s.header {
		if _, ok := want[k]; !ok && !slices.Contains(own, k) {
			return fmt.Sprintf("header %s: %q arrives and was not given", k, s.header[k])
		}
	}
	return ""
}

func TestPost(t *testing.T) {
	h.Check(t, 500, 6000, func(t *rapid.T, c *h.C) {
		var rs []request
		n := rapid.IntRange(1, 6).Draw(t, "concurrent")
		big := 30000
		if rapid.IntRange(0, 31).Draw(t, "big") == 17 {
			big = rapid.SampledFrom([]int{3 << 20, 3 << 20, 32 << 20}).Draw(t, "size")
		}
		for i := 0; i < n; i++ {
			rs = append(rs, draw(t, big))
		}
		for i := range rs {
			c.Note("%s", rs[i].String())
			mu.Lock()
			answers[rs[i].id] = rs[i].ans
			mu.Unlock()
		}
		c.NonTrivialIf(n > 1 || len(rs[0].body) > 0 || len(rs[0].header) > 0)
		c.LabelIf(n > 1, "concurrent")
		why := make([]string, n)
		var wg sync.WaitGroup
		for i := range rs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				body := bytes.Clone(rs[i].body)
				header := map[string]string{}
				for k, v := range rs[i].header {
					header[k] = v
				}
				resp, err := rs[i].send()
				why[i] = rs[i].verify(resp, err, body, header)
				if why[i] == "" && (!bytes.Equal(body, rs[i].body) || len(header) != len(rs[i].header)) {
					why[i] = "the caller's body or headers changed"
				}
			}()
		}
		wg.Wait()
		for i := range why {
			h.Must(t, c, why[i] == "", "request %d: %s", i, why[i])
		}
	})
}

// A failed exchange is an error.
func TestFailures(t *testing.T) {
	h.Check(t, 300, 4000, func(t *rapid.T, c *h.C) {
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		body := h.Bytes(t, "body", 3000)
		part := h.Bytes(t, "part", 3000)
		missing := rapid.IntRange(1, 3000).Draw(t, "missing")
		form := rapid.IntRange(0, 2).Draw(t, "form")
		reset := rapid.Bool().Draw(t, "reset")
		what := []string{"nobody listens", "shorter than its length", "chunks without an end", "cut in the header", "no answer", "not HTTP", "bad address", "bad header", "plain server for https", "a chunk cut short"}[kind]
		c.Note("%s form %d body %d part %d missing %d reset %v", what, form, len(body), len(part), missing, reset)
		c.NonTrivial()
		c.Label(what)
		l, err := net.Listen("tcp", "127.0.0.1:0")
		h.Must(t, c, err == nil, "listen: %v", err)
		url := "http://" + l.Addr().String() + "/x"
		var header map[string]string
		served := make(chan bool)
		switch kind {
		case 0:
			l.Close()
			close(served)
		case 6:
			l.Close()
			close(served)
			url = rapid.SampledFrom([]string{"", "://", "http://", "http://127.0.0.1:99999/", "nohttp://127.0.0.1/", "http://[::1", "127.0.0.1:80", "http://a b/", "http://127.0.0.1:1/%zz", "\x7f"}).Draw(t, "url")
		case 7:
			form = 2
			header = rapid.SampledFrom([]map[string]string{{"a b": "c"}, {"": "x"}, {"X": "a\nb"}, {"X": "a\rb"}, {"X:Y": "a"}, {"X": "a\x00"}}).Draw(t, "header")
			fallthrough
		default:
			go func() {
				defer close(served)
				c, err := l.Accept()
				if err != nil {
					return
				}
				defer c.Close()
				c.SetDeadline(time.Now().Add(30 * time.Second))
				buf := make([]byte, 1<<16)
				n, _ := c.Read(buf)
				// Take the whole request, so that closing does not reset the connection early.
				for kind != 8 && !bytes.Contains(buf[:n], []byte("\r\n\r\n")) && n < len(buf) {
					k, err := c.Read(buf[n:])
					if n += k; err != nil {
						break
					}
				}
				if i := bytes.Index(buf[:n], []byte("\r\n\r\n")); i >= 0 && kind != 8 {
					for n < i+4+len(body) {
						k, err := c.Read(buf[n:])
						if n += k; err != nil {
							break
						}
					}
				}
				switch kind {
				case 1:
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(part)+missing, part)
				case 2:
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
					if len(part) > 0 {
						fmt.Fprintf(c, "%x\r\n%s\r\n", len(part), part)
					}
				case 3:
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Le")
				case 5:
					fmt.Fprintf(c, "hello\r\n%s\r\n\r\n", part)
				case 8:
					fmt.Fprintf(c, "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
				case 9:
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(part)+missing, part)
				}
				if reset {
					c.(*net.TCPConn).SetLinger(0)
				}
			}()
			if kind == 8 {
				url = strings.Replace(url, "http:", "https:", 1)
			}
		}
		var resp []byte
		p := h.Catch(func() {
			switch form {
			case 0:
				resp, err = httpclient.Post(body, url)
			case 1:
				resp, err = httpclient.Post2(body, true, url)
			default:
				resp, err = httpclient.Post3(body, false, url, header, nil)
			}
		})
		l.Close()
		<-served
		h.Must(t, c, p == nil, "%s: crashes: %v", what, p)
		h.Must(t, c, err != nil, "%s: no error, response %s", what, h.B(resp))
	})
}

// Bodies and answers beyond 64 MiB.
func TestHuge(t *testing.T) {
	h.Check(t, 2, 12, func(t *rapid.T, c *h.C) {
		big := 64<<20 + h.NewRand(rapid.Uint64().Draw(t, "len")).Intn(80<<20)
		r := draw(t, 100)
		r.form = rapid.IntRange(0, 2).Draw(t, "form2")
		if r.form < 2 {
			r.header, r.cookie = nil, nil
		}
		b := bytes.Repeat([]byte("0123456789abcdefghijklmno"), big/25+1)[:big]
		copy(b[big/2:], "the middle")
		if rapid.Bool().Draw(t, "answer") {
			r.ans.body = b
		} else {
			r.body, r.ans.hops = b, nil
		}
		c.Note("%s", r.String())
		c.NonTrivial()
		c.Label("large")
		mu.Lock()
		answers[r.id] = r.ans
		mu.Unlock()
		resp, err := r.send()
		why := r.verify(resp, err, r.body, r.header)
		h.Must(t, c, why == "", "%s", why)
	})
}
