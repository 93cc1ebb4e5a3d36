// WebSocket connections that are idle for long go on as before.
package c34s

import (
	"bytes"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/donnie4w/gofer/websocket"
	ws "golang.org/x/net/websocket"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

func TestMain(m *testing.M) {
	h.HangTicks = 240
	log.SetOutput(io.Discard)
	h.Main(m)
}

func TestIdle(t *testing.T) {
	// The server sends everything back.
	s := httptest.NewUnstartedServer(nil)
	s.Config.ErrorLog = log.New(io.Discard, "", 0)
	s.Config.Handler = ws.Handler(func(c *ws.Conn) {
		for {
			var b []byte
			if ws.Message.Receive(c, &b) != nil || ws.Message.Send(c, b) != nil {
				return
			}
		}
	})
	s.Start()
	secure := httptest.NewUnstartedServer(s.Config.Handler)
	secure.Config = &http.Server{Handler: s.Config.Handler, ErrorLog: s.Config.ErrorLog}
	secure.StartTLS()
	h.Check(t, 1, 3, func(t *rapid.T, c *h.C) {
		longest := 63
		if h.Thorough() {
			longest = 130
		}
		n := 24
		why := make([]string, n)
		var wg sync.WaitGroup
		for i := range n {
			url := s.URL
			if rapid.IntRange(0, 2).Draw(t, "wss") == 0 {
				url = secure.URL
			}
			timeout := rapid.SampledFrom([]time.Duration{0, time.Second, 5 * time.Second, 30 * time.Second}).Draw(t, "timeout")
			idle := time.Duration(rapid.SampledFrom([]int{3, 6, 11, 16, 21, 31, 46, longest, longest}).Draw(t, "idle"))*time.Second + time.Duration(rapid.IntRange(1, 900).Draw(t, "more"))*time.Millisecond
			first, last := h.Bytes(t, "first", 2000), h.Bytes(t, "last", 2000)
			c.Note("{%s connecting within %v, idle %v, %d and %d bytes}", url[:5], timeout, idle, len(first), len(last))
			c.NonTrivial()
			first, last = append([]byte{1}, first...), append([]byte{2}, last...)
			wg.Add(1)
			go func() {
				defer wg.Done()
				got := make(chan []byte, 16)
				ends := make(chan string, 16)
				wh, err := websocket.NewHandler(&websocket.Config{Url: "ws" + strings.TrimPrefix(url, "http"), Origin: "http://localhost/", TimeOut: timeout,
					OnMessage: func(_ *websocket.Handler, b []byte) { got <- bytes.Clone(b) },
					OnError:   func(_ *websocket.Handler, err error) { ends <- "error callback" },
					OnClose:   func(*websocket.Handler) { ends <- "close callback" }})
				if err != nil {
					if timeout == 0 || timeout > 2*time.Second {
						why[i] = "connecting: " + err.Error()
					}
					return
				}
				defer wh.Close()
				for _, m := range [][]byte{first, last} {
					if err := wh.Send(m); err != nil {
						why[i] = "sending: " + err.Error()
						return
					}
					select {
					case b := <-got:
						if !bytes.Equal(b, m) {
							why[i] = "comes back changed: " + h.B(b)
							return
						}
					case e := <-ends:
						why[i] = "it ends: " + e
						return
					case <-time.After(h.Patience(40 * time.Second)):
						why[i] = "a message does not come back"
						return
					}
					if m[0] == 1 {
						select {
						case e := <-ends:
							why[i] = "it ends while idle: " + e
							return
						case <-time.After(idle):
						}
					}
				}
				if len(ends) > 0 {
					why[i] = "it ends: " + <-ends
				}
			}()
		}
		wg.Wait()
		for i, w := range why {
			h.Must(t, c, w == "", "connection %d: %s", i, w)
		}
	})
}
