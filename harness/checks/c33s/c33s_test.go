// Posts to servers that take their time: an answer is returned whenever it comes.
package c33s

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/httpclient"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) {
	h.HangTicks = 240
	os.Unsetenv("HTTP_PROXY")
	h.Main(m)
}

type post struct {
	Form    int
	TLS     bool
	Head    time.Duration // before the header of the answer
	Mid     time.Duration // within its body
	Read    time.Duration // before the body of the request is read
	Hop     time.Duration // before a redirection; < 0: none
	body    []byte
	ans     []byte
	Chunked bool
}

func TestSlow(t *testing.T) {
	var mu sync.Mutex
	posts := map[string]*post{}
	arrived := map[string][]byte{}
	serve := func(w http.ResponseWriter, r *http.Request) {
		id := r.URL.Query().Get("id")
		mu.Lock()
		p := posts[id]
		mu.Unlock()
		if p == nil {
			w.WriteHeader(599)
			return
		}
		if p.Hop >= 0 && r.URL.Query().Get("hop") == "" {
			io.Copy(io.Discard, r.Body)
			time.Sleep(p.Hop)
			w.Header().Set("Location", r.RequestURI+"&hop=1")
			w.WriteHeader(307)
			return
		}
		time.Sleep(p.Read)
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		arrived[id] = b
		mu.Unlock()
		time.Sleep(p.Head)
		if !p.Chunked {
			w.Header().Set("Content-Length", fmt.Sprint(len(p.ans)))
		}
		w.WriteHeader(200)
		k := len(p.ans) / 2
		w.Write(p.ans[:k])
		w.(http.Flusher).Flush()
		time.Sleep(p.Mid)
		w.Write(p.ans[k:])
	}
	start := func(secure bool) *httptest.Server {
		s := httptest.NewUnstartedServer(http.HandlerFunc(serve))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		if secure {
			s.StartTLS()
		} else {
			s.Start()
		}
		return s
	}
	plain, secure := start(false), start(true)
	serial := 0
	h.Check(t, 1, 3, func(t *rapid.T, c *h.C) {
		longest := 63
		if h.Thorough() {
			longest = 130
		}
		var ps []*post
		ids := map[*post]string{}
		for n := 48; n > 0; n-- {
			p := &post{Form: rapid.IntRange(0, 2).Draw(t, "form"), TLS: rapid.Bool().Draw(t, "https"), Chunked: rapid.Bool().Draw(t, "chunked"), Hop: -1, body: h.Bytes(t, "body", 3000), ans: h.Bytes(t, "answer", 3000)}
			d := time.Duration(rapid.SampledFrom([]int{1, 2, 3, 5, 6, 10, 11, 15, 16, 20, 21, 30, 31, 45, 60, longest}).Draw(t, "delay")) * time.Second
			d += time.Duration(rapid.IntRange(1, 900).Draw(t, "more")) * time.Millisecond
			switch rapid.IntRange(0, 4).Draw(t, "where") {
			case 0, 1:
				p.Head = d
			case 2:
				p.Mid = d
			case 3:
				p.Read = d
				p.body = bytes.Repeat([]byte("0123456789abcdef"), 1<<16+len(p.body)) // more than the buffers between take
			default:
				p.Hop = d
			}
			ps = append(ps, p)
			serial++
			ids[p] = fmt.Sprint(serial)
			c.Note("{form %d https %v chunked %v head %v mid %v read %v hop %v}", p.Form, p.TLS, p.Chunked, p.Head, p.Mid, p.Read, p.Hop)
			mu.Lock()
			posts[ids[p]] = p
			mu.Unlock()
		}
		c.NonTrivial()
		why := make([]string, len(ps))
		var wg sync.WaitGroup
		for i, p := range ps {
			wg.Add(1)
			go func() {
				defer wg.Done()
				url := plain.URL
				if p.TLS {
					url = secure.URL
				}
				url += "/x?id=" + ids[p]
				var got []byte
				var err error
				switch p.Form {
				case 0:
					got, err = httpclient.Post(p.body, url)
				case 1:
					got, err = httpclient.Post2(p.body, true, url)
				default:
					got, err = httpclient.Post3(p.body, false, url, map[string]string{"X-A": "b"}, nil)
				}
				mu.Lock()
				body := arrived[ids[p]]
				mu.Unlock()
				switch {
				case err != nil:
					why[i] = fmt.Sprintf("fails: %v", err)
				case !bytes.Equal(got, p.ans):
					why[i] = fmt.Sprintf("returns %s, answered %s", h.B(got), h.B(p.ans))
				case !bytes.Equal(body, p.body):
					why[i] = fmt.Sprintf("carries %s, given %s", h.B(body), h.B(p.body))
				}
			}()
		}
		wg.Wait()
		for i, p := range ps {
			h.Must(t, c, why[i] == "", "a post answered late (head %v mid %v read %v hop %v, form %d, https %v) %s", p.Head, p.Mid, p.Read, p.Hop, p.Form, p.TLS, why[i])
		}
	})
}

// Posts that are over hold no connections: their number does not grow with that of the posts.
func TestConnections(t *testing.T) {
	h.Check(t, 4, 30, func(t *rapid.T, c *h.C) {
		var mu sync.Mutex
		open := map[net.Conn]bool{}
		s := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			io.Copy(io.Discard, r.Body)
			w.WriteHeader(200)
			io.WriteString(w, r.URL.Query().Get("answer"))
		}))
		s.Config.ErrorLog = log.New(io.Discard, "", 0)
		s.Config.ConnState = func(c net.Conn, st http.ConnState) {
			mu.Lock()
			defer mu.Unlock()
			switch st {
			case http.StateNew:
				open[c] = true
			case http.StateClosed, http.StateHijacked:
				delete(open, c)
			}
		}
		tls := rapid.Bool().Draw(t, "https")
		if tls {
			s.StartTLS()
		} else {
			s.Start()
		}
		defer s.Close()
		form := rapid.IntRange(0, 2).Draw(t, "form")
		body := h.Bytes(t, "body", 300)
		answer := rapid.StringMatching(`[a-z]{0,200}`).Draw(t, "answer")
		workers := rapid.SampledFrom([]int{1, 4, 8}).Draw(t, "goroutines")
		each := 96 / workers
		c.Note("https %v form %d body %d answer %d, %d goroutines with %d posts", tls, form, len(body), len(answer), workers, each)
		c.NonTrivial()
		url := s.URL + "/?answer=" + answer
		errs := make([]error, workers)
		var wg sync.WaitGroup
		for w := range workers {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range each {
					var got []byte
					var err error
					switch form {
					case 0:
						got, err = httpclient.Post(body, url)
					case 1:
						got, err = httpclient.Post2(body, false, url)
					default:
						got, err = httpclient.Post3(body, false, url, nil, nil)
					}
					if err == nil && string(got) != answer {
						err = fmt.Errorf("returns %q, answered %q", got, answer)
					}
					if err != nil {
						errs[w] = err
						return
					}
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			h.Must(t, c, err == nil, "a post: %v", err)
		}
		left := func() int { mu.Lock(); defer mu.Unlock(); return len(open) }
		h.Must(t, c, h.Eventually(func() bool { return left() <= 32 }), "after %d posts, %d connections are still open", workers*each, left())
	})
}
