// WebSocket handlers against recording servers on the loopback interface.
package c34

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha1"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/donnie4w/gofer/websocket"
	ws "golang.org/x/net/websocket"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

// listener remembers its connections so that they can be cut.
type listener struct {
	net.Listener
	conns sync.Map
}

func (l *listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.conns.Store(c.RemoteAddr().String(), c)
	}
	return c, err
}

// Ways to end.
const (
	clientClose = iota // Close by the client, everything having arrived
	serverClose        // closing handshake by the server
	serverFin          // the server ends the TCP connection
	serverReset        // the server resets the TCP connection
	closeInOpen        // Close from within the open callback
	closeInMsg         // Close from within a message callback
	closeMidway        // Close by the client while messages are under way
	bothClose          // both sides at once
	endings
)

var endName = []string{"client closes", "server closes", "server ends TCP", "server resets TCP", "closed in open callback", "closed in message callback", "closed midway", "both close"}

type out struct {
	Text, Ping bool
	data       []byte
	Gap        int
}

type session struct {
	id       string
	send     []out
	mu       sync.Mutex
	received [][]byte
	arrived  atomic.Int64
	badText  atomic.Bool // a text frame is not text
	gone     atomic.Bool // the server sees the connection ended
	sent     chan bool
	stop     chan int
}

var (
	sessions sync.Map
	plain    *httptest.Server
	secure   *httptest.Server
	lis      [2]*listener
	caPEM    []byte
)

func handle(which int) ws.Handler {
	return func(c *ws.Conn) {
		v, ok := sessions.Load(c.Request().URL.Query().Get("id"))
		if !ok {
			return
		}
		s := v.(*session)
		c.MaxPayloadBytes = 64 << 20
		receive := ws.Codec{Unmarshal: func(data []byte, kind byte, v any) error {
			if kind == ws.TextFrame && !utf8.Valid(data) {
				s.badText.Store(true)
			}
			*v.(*[]byte) = data
			return nil
		}}
		go func() {
			defer s.gone.Store(true)
			for {
				var b []byte
				if receive.Receive(c, &b) != nil {
					return
				}
				s.mu.Lock()
				s.received = append(s.received, b)
				s.mu.Unlock()
				s.arrived.Add(1)
			}
		}()
		for _, o := range s.send {
			if o.Gap > 0 {
				time.Sleep(time.Duration(o.Gap) * 50 * time.Microsecond)
			}
			switch {
			case o.Ping:
				if w, err := c.NewFrameWriter(ws.PingFrame); err == nil {
					w.Write(o.data[:min(len(o.data), 100)])
					w.Close()
				}
			case o.Text:
				ws.Message.Send(c, string(o.data))
			default:
				ws.Message.Send(c, o.data)
			}
		}
		close(s.sent)
		how := <-s.stop
		if raw, ok := lis[which].conns.LoadAndDelete(c.Request().RemoteAddr); ok {
			raw := raw.(*net.TCPConn)
			switch how {
			case serverFin:
				raw.Close()
			case serverReset:
				raw.SetLinger(0)
				raw.Close()
			}
		}
	}
}

func TestMain(m *testing.M) {
	quiet := log.New(io.Discard, "", 0)
	log.SetOutput(io.Discard)
	for i := range lis {
		s := httptest.NewUnstartedServer(http.NewServeMux())
		s.Config.Handler.(*http.ServeMux).Handle("/ws", handle(i))
		s.Config.ErrorLog = quiet
		lis[i] = &listener{Listener: s.Listener}
		s.Listener = lis[i]
		if i == 0 {
			s.Start()
			plain = s
		} else {
			s.StartTLS()
			secure = s
			caPEM = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: s.Certificate().Raw})
		}
	}
	h.Main(m)
}

type in struct {
	data []byte
	Gap  int
}

type client struct {
	id      string
	tls     int // 0 ws, 1 wss unchecked, 2 wss with certificate bytes, 3 with certificate files
	senders [][]in
	inOpen  int // messages sent from the open callback
	openLag int
	end     int
	s       *session
	nilCb   bool // no message callback
	more    int  // where a certificate that has nothing to do with it comes
	timeout time.Duration
}

var lens = []int{2, 3, 10, 124, 125, 126, 127, 128, 1000, 4095, 4096, 5000, 65534, 65535, 65536, 70000}

// payload starts with a number that is unique within its direction of the session.
func payload(t *rapid.T, label string, who, seq int) []byte {
	n := rapid.SampledFrom(lens).Draw(t, label+".len")
	if rapid.IntRange(0, 3).Draw(t, label+".small") > 0 {
		n = rapid.IntRange(2, 60).Draw(t, label+".n")
	}
	if rapid.IntRange(0, 255).Draw(t, label+".large") == 137 {
		n = rapid.SampledFrom([]int{200000, 1 << 20, 5 << 20, 20 << 20, 32<<20 - 1}).Draw(t, label+".n")
	}
	b := make([]byte, n)
	h.NewRand(rapid.Uint64().Draw(t, label+".seed")).Fill(b)
	b[0], b[1] = byte(who), byte(seq)
	return b
}

var serial int

func draw(t *rapid.T) *client {
	serial++
	k := &client{id: fmt.Sprint(serial), tls: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3}).Draw(t, "tls"), end: rapid.IntRange(0, endings-1).Draw(t, "end"), openLag: rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "lag"), nilCb: rapid.IntRange(0, 9).Draw(t, "nocallback") == 0, more: rapid.IntRange(0, 2).Draw(t, "more")}
	for g, n := 0, rapid.IntRange(0, 3).Draw(t, "senders"); g < n; g++ {
		var l []in
		for q, n := 0, rapid.IntRange(1, 6).Draw(t, "messages"); q < n; q++ {
			x := in{payload(t, "out", g, q), rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "gap")}
			if rapid.IntRange(0, 12).Draw(t, "empty") == 0 {
				x.data = []byte{}
			}
			l = append(l, x)
		}
		k.senders = append(k.senders, l)
	}
	if k.end != closeInOpen {
		k.inOpen = rapid.IntRange(0, 2).Draw(t, "inopen")
	}
	k.s = &session{id: k.id, sent: make(chan bool), stop: make(chan int, 1)}
	for q, n := 0, rapid.IntRange(0, 6).Draw(t, "incoming"); q < n; q++ {
		o := out{data: payload(t, "in", 100, q), Gap: rapid.SampledFrom([]int{0, 0, 0, 1}).Draw(t, "gap")}
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0:
			o.Ping = true
		case 1:
			o.Text = true
			for i := range o.data { // text is valid UTF-8
				o.data[i] &= 0x7f
			}
			o.data[0] = 100
		case 2:
			if rapid.Bool().Draw(t, "empty") {
				o.data = []byte{}
			}
		}
		k.s.send = append(k.s.send, o)
	}
	return k
}

func (k *client) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s tls %d in open %d lag %d nocallback %v out[", endName[k.end], k.tls, k.inOpen, k.openLag, k.nilCb)
	for _, l := range k.senders {
		for _, x := range l {
			fmt.Fprintf(&b, "%d/%d ", len(x.data), x.Gap)
		}
		b.WriteString("; ")
	}
	b.WriteString("] in[")
	for _, o := range k.s.send {
		fmt.Fprintf(&b, "%d/%d", len(o.data), o.Gap)
		if o.Ping {
			b.WriteString("p")
		}
		if o.Text {
			b.WriteString("t")
		}
		b.WriteString(" ")
	}
	b.WriteString("]")
	return b.String()
}

func (k *client) config(certFile string) *websocket.Config {
	cfg := &websocket.Config{Origin: "http://localhost/", Url: "ws" + strings.TrimPrefix(plain.URL, "http") + "/ws?id=" + k.id}
	if k.tls > 0 {
		cfg.Url = "wss" + strings.TrimPrefix(secure.URL, "https") + "/ws?id=" + k.id
	}
	switch k.tls {
	case 2:
		cfg.CertBytes = [][]byte{caPEM}
		switch k.more { // others given along with the one that counts
		case 1:
			cfg.CertBytes = [][]byte{otherCA(), caPEM}
		case 2:
			cfg.CertBytes = [][]byte{caPEM, otherCA()}
		}
	case 3:
		cfg.CertFiles = []string{certFile}
		switch k.more {
		case 1:
			cfg.CertFiles = []string{certFile + "2", certFile}
		case 2:
			cfg.CertFiles = []string{certFile, certFile + "2"}
		}
	}
	return cfg
}

func (k *client) run(certFile string) (fail string) {
	sessions.Store(k.id, k.s)
	defer sessions.Delete(k.id)
	cfg := k.config(certFile)
	cfg.TimeOut = 30 * time.Second
	if k.timeout > 0 {
		cfg.TimeOut = k.timeout
	}
	var mu sync.Mutex
	var incoming [][]byte
	var problems []string
	problem := func(f string, a ...any) {
		mu.Lock()
		problems = append(problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	var opens, errs, closes, n atomic.Int64
	var opened atomic.Bool
	handed := make(chan *websocket.Handler, 16)
	cfg.OnOpen = func(c *websocket.Handler) {
		opens.Add(1)
		time.Sleep(time.Duration(k.openLag) * 100 * time.Microsecond)
		for q := 0; q < k.inOpen; q++ {
			if err := c.Send([]byte{200, byte(q), 7}); err != nil {
				problem("sending in the open callback: %v", err)
			}
		}
		if k.end == closeInOpen {
			c.Close()
		}
		opened.Store(true)
		select {
		case handed <- c:
		default:
		}
	}
	cfg.OnError = func(c *websocket.Handler, err error) {
		if err == nil {
			problem("the error callback gets no error")
		}
		errs.Add(1)
	}
	cfg.OnClose = func(c *websocket.Handler) {
		closes.Add(1)
		if err := c.Send([]byte("late")); err == nil {
			problem("sending in the close callback reports success")
		}
	}
	if !k.nilCb {
		cfg.OnMessage = func(c *websocket.Handler, msg []byte) {
			if !opened.Load() {
				problem("a message is delivered before the open callback ended")
			}
			mu.Lock()
			incoming = append(incoming, bytes.Clone(msg))
			mu.Unlock()
			if n.Add(1) == 1 && k.end == closeInMsg {
				c.Close()
			}
		}
	}
	began := time.Now()
	wh, err := websocket.NewHandler(cfg)
	took := time.Since(began)
	if err != nil || wh == nil {
		if k.timeout > 0 && err != nil && took > k.timeout*9/10 {
			return "" // a slow machine
		}
		return fmt.Sprintf("connecting: %v", err)
	}
	if opens.Load() != 1 {
		return fmt.Sprintf("connected, the open callback ran %d times", opens.Load())
	}
	if c := <-handed; c != wh {
		return "the open callback gets another handler"
	}
	early := k.end == closeInOpen || k.end == closeInMsg || k.end == closeMidway || k.end == bothClose
	var wg sync.WaitGroup
	total := k.inOpen
	for _, l := range k.senders {
		total += len(l)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for q, x := range l {
				time.Sleep(time.Duration(x.Gap) * 50 * time.Microsecond)
				buf := bytes.Clone(x.data)
				err := wh.Send(buf)
				if err != nil && !early {
					problem("sending message %d: %v", q, err)
				}
				if !bytes.Equal(buf, x.data) {
					problem("sending changes the caller's bytes")
				}
			}
		}()
	}
	want := 0
	for _, o := range k.s.send {
		if !o.Ping {
			want++
		}
	}
	if k.nilCb {
		want = 0
	}
	incame := func() int { mu.Lock(); defer mu.Unlock(); return len(incoming) }
	if k.end == closeInMsg && want == 0 { // nothing will close it
		wh.Close()
	}
	if !early {
		wg.Wait()
		if len(problems) == 0 && !h.Eventually(func() bool { return k.s.arrived.Load() >= int64(total) }) {
			k.s.stop <- clientClose
			return fmt.Sprintf("%d of %d messages arrive at the server", k.s.arrived.Load(), total)
		}
		if !h.Eventually(func() bool { return incame() >= want }) {
			k.s.stop <- clientClose
			return fmt.Sprintf("%d of %d messages of the server are delivered", incame(), want)
		}
		if errs.Load()+closes.Load() != 0 {
			problem("the end is reported while the connection is up")
		}
	}
	stop := func(how int) {
		select {
		case k.s.stop <- how:
		default:
		}
	}
	switch k.end {
	case clientClose:
		wh.Close()
	case serverClose, serverFin, serverReset:
		<-k.s.sent
		stop(k.end)
	case closeMidway:
		time.Sleep(time.Duration(k.openLag) * 100 * time.Microsecond)
		wh.Close()
	case bothClose:
		go wh.Close()
		stop(serverClose)
		wh.Close()
	}
	defer stop(clientClose)
	if !h.Eventually(func() bool { return errs.Load() > 0 && closes.Load() > 0 }) {
		return fmt.Sprintf("the connection ended; the error callback ran %d times, the close callback %d times", errs.Load(), closes.Load())
	}
	wg.Wait()
	if !h.Eventually(k.s.gone.Load) {
		problem("the connection ended, its server still sees it open")
	}
	if k.s.badText.Load() {
		problem("bytes that are no UTF-8 arrive as a text message")
	}
	if wh.Send([]byte("late")) == nil {
		problem("sending after the end reports success")
	}
	if wh.Error() == nil {
		problem("the ended connection has no error")
	}
	wh.Close()
	if wh.Send(nil) == nil {
		problem("sending after closing reports success")
	}
	time.Sleep(2 * time.Millisecond)
	if errs.Load() != 1 || closes.Load() != 1 || opens.Load() != 1 {
		problem("open, error and close callback ran %d, %d and %d times", opens.Load(), errs.Load(), closes.Load())
	}
	// What arrived at the server.
	k.s.mu.Lock()
	defer k.s.mu.Unlock()
	next := make([]int, len(k.senders))
	seenOpen, empties := 0, 0
	for i, b := range k.s.received {
		// A message that was under way when this side closed is cut off, and the library the
		// server uses hands over the part it has.
		torn := func(want []byte) bool {
			return early && i == len(k.s.received)-1 && len(b) < len(want) && bytes.HasPrefix(want, b)
		}
		if len(b) == 0 {
			empties++
			continue
		}
		if b[0] == 200 {
			if want := []byte{200, byte(seenOpen), 7}; !bytes.Equal(b, want) && !torn(want) {
				problem("the server gets %s from the open callback, want number %d", h.B(b), seenOpen)
			}
			seenOpen++
			continue
		}
		g := int(b[0])
		if g >= len(next) {
			problem("the server gets %s, which nobody sent", h.B(b))
			continue
		}
		for next[g] < len(k.senders[g]) && len(k.senders[g][next[g]].data) == 0 {
			next[g]++
		}
		if next[g] < len(k.senders[g]) && torn(k.senders[g][next[g]].data) {
			continue
		}
		if next[g] >= len(k.senders[g]) || !bytes.Equal(k.senders[g][next[g]].data, b) {
			problem("message %s of sender %d arrives twice, damaged or out of order", h.B(b), g)
			continue
		}
		next[g]++
	}
	sentEmpties := 0
	for _, l := range k.senders {
		for _, x := range l {
			if len(x.data) == 0 {
				sentEmpties++
			}
		}
	}
	if n := len(k.s.received); early && n > 0 && len(k.s.received[n-1]) == 0 {
		sentEmpties++ // it may be what is left of another message
	}
	if empties > sentEmpties || !early && empties != sentEmpties {
		problem("%d empty messages arrive, %d were sent", empties, sentEmpties)
	}
	if !early && len(k.s.received) != total {
		problem("%d messages arrive at the server, %d were sent", len(k.s.received), total)
	}
	// What the callback got.
	mu.Lock()
	left := map[string]int{}
	for _, o := range k.s.send {
		if !o.Ping {
			left[string(o.data)]++
		}
	}
	var more string
	for _, b := range incoming {
		if left[string(b)]--; left[string(b)] < 0 {
			more = fmt.Sprintf("message %s of the server is delivered twice or damaged", h.B(b))
		}
	}
	for s, n := range left {
		if n > 0 && !early && !k.nilCb {
			more = fmt.Sprintf("message %s of the server is not delivered", h.B([]byte(s)))
		}
	}
	mu.Unlock()
	if more != "" {
		problem("%s", more)
	}
	mu.Lock()
	defer mu.Unlock()
	if len(problems) > 0 {
		return problems[0]
	}
	return ""
}

func certFile(dir string) string {
	p := filepath.Join(dir, "ca.pem")
	os.WriteFile(p, caPEM, 0o644)
	os.WriteFile(p+"2", otherCA(), 0o644)
	return p
}

func TestSessions(t *testing.T) {
	h.Check(t, 500, 6000, func(t *rapid.T, c *h.C) {
		dir, err := os.MkdirTemp("", "c34")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		file := certFile(dir)
		var ks []*client
		for n := rapid.IntRange(1, 3).Draw(t, "clients"); n > 0; n-- {
			k := draw(t)
			ks = append(ks, k)
			c.Note("{%s}", k)
			c.Label(endName[k.end])
			c.NonTrivialIf(len(k.senders)+len(k.s.send) > 0)
		}
		fails := make([]string, len(ks))
		var wg sync.WaitGroup
		for i, k := range ks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := h.Catch(func() { fails[i] = k.run(file) }); p != nil {
					fails[i] = fmt.Sprintf("crashes: %v", p)
				}
			}()
		}
		wg.Wait()
		for i, f := range fails {
			h.Must(t, c, f == "", "client %d: %s", i, f)
		}
	})
}

// The timeout is one of connecting: a connection that lasts longer goes on as before.
func TestLasting(t *testing.T) {
	h.Check(t, 1, 8, func(t *rapid.T, c *h.C) {
		dir, err := os.MkdirTemp("", "c34")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		file := certFile(dir)
		var ks []*client
		for n := 8; n > 0; n-- {
			k := draw(t)
			k.timeout = time.Duration(rapid.IntRange(4, 8).Draw(t, "timeout")) * 250 * time.Millisecond
			k.end = rapid.SampledFrom([]int{clientClose, serverClose, serverFin, serverReset, bothClose}).Draw(t, "end")
			lag := int(k.timeout/(50*time.Microsecond)) + rapid.IntRange(2000, 6000).Draw(t, "longer")
			if rapid.Bool().Draw(t, "server") || len(k.senders) == 0 {
				k.s.send = append(k.s.send, out{data: payload(t, "in", 100, 99), Gap: lag})
			} else {
				k.senders[0] = append(k.senders[0], in{payload(t, "out", 0, 99), lag})
			}
			ks = append(ks, k)
			c.Note("{%v %s}", k.timeout, k)
			c.NonTrivial()
		}
		fails := make([]string, len(ks))
		var wg sync.WaitGroup
		for i, k := range ks {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := h.Catch(func() { fails[i] = k.run(file) }); p != nil {
					fails[i] = fmt.Sprintf("crashes: %v", p)
				}
			}()
		}
		wg.Wait()
		for i, f := range fails {
			h.Must(t, c, f == "", "client %d, timeout of connecting %v: %s", i, ks[i].timeout, f)
		}
	})
}

// otherCA is a certificate that has nothing to do with the server's.
var otherCA = sync.OnceValue(func() []byte {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, _ := x509.CreateCertificate(rand.Reader, tpl, tpl, &key.PublicKey, key)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
})

// Connections that cannot be made are errors and call nothing back.
func TestRefused(t *testing.T) {
	h.Check(t, 120, 1200, func(t *rapid.T, c *h.C) {
		dir, err := os.MkdirTemp("", "c34")
		h.Must(t, c, err == nil, "scratch: %v", err)
		defer os.RemoveAll(dir)
		kind := rapid.IntRange(0, 8).Draw(t, "kind")
		k := &client{id: "none", tls: 0}
		cfg := k.config("")
		what := []string{"scheme", "no such path", "nobody listens", "no origin", "certificate missing", "certificate unreadable", "certificate not PEM", "other certificate", "plain for wss"}[kind]
		c.Note("%s", what)
		c.Label(what)
		c.NonTrivial()
		wss := "wss" + strings.TrimPrefix(secure.URL, "https") + "/ws?id=none"
		switch kind {
		case 0:
			cfg.Url = rapid.SampledFrom([]string{"", "http://127.0.0.1/", "w", "ws", "127.0.0.1", "xws://127.0.0.1"}).Draw(t, "url")
		case 1:
			cfg.Url = strings.Replace(cfg.Url, "/ws?", "/other?", 1)
		case 2:
			l, _ := net.Listen("tcp", "127.0.0.1:0")
			cfg.Url = "ws://" + l.Addr().String() + "/ws"
			l.Close()
		case 3:
			cfg.Origin = rapid.SampledFrom([]string{"", "localhost", "%zz"}).Draw(t, "origin")
		case 4:
			cfg.Url, cfg.CertFiles = wss, []string{filepath.Join(dir, "none")}
		case 5:
			cfg.Url, cfg.CertFiles = wss, []string{dir}
		case 6:
			cfg.Url = wss
			if rapid.Bool().Draw(t, "bytes") {
				cfg.CertBytes = [][]byte{h.Bytes(t, "pem", 40)}
			} else {
				os.WriteFile(filepath.Join(dir, "x"), h.Bytes(t, "pem", 40), 0o644)
				cfg.CertFiles = []string{filepath.Join(dir, "x")}
			}
		case 7:
			cfg.Url = wss
			inBytes := rapid.Bool().Draw(t, "bytes")
			for n := rapid.IntRange(1, 3).Draw(t, "certificates"); n > 0; n-- {
				if inBytes {
					cfg.CertBytes = append(cfg.CertBytes, otherCA())
				} else {
					x := filepath.Join(dir, fmt.Sprint("x", n))
					os.WriteFile(x, otherCA(), 0o644)
					cfg.CertFiles = append(cfg.CertFiles, x)
				}
			}
		case 8:
			cfg.Url = strings.Replace(cfg.Url, "ws:", "wss:", 1)
		}
		var calls atomic.Int64
		cfg.OnOpen = func(*websocket.Handler) { calls.Add(1) }
		cfg.OnError = func(*websocket.Handler, error) { calls.Add(1) }
		cfg.OnClose = func(*websocket.Handler) { calls.Add(1) }
		var wh *websocket.Handler
		p := h.Catch(func() { wh, err = websocket.NewHandler(cfg) })
		h.Must(t, c, p == nil, "%s: crashes: %v", what, p)
		h.Must(t, c, err != nil && wh == nil, "%s: connects", what)
		h.Must(t, c, calls.Load() == 0, "%s: %d callbacks ran", what, calls.Load())
	})
}

// full is an address where connections are neither accepted nor refused: its queue is full.
func full() (addr string, done func()) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		panic(err)
	}
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
		panic(err)
	}
	if err = syscall.Listen(fd, 0); err != nil {
		panic(err)
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		panic(err)
	}
	addr = fmt.Sprintf("127.0.0.1:%d", sa.(*syscall.SockaddrInet4).Port)
	var taken []net.Conn
	done = func() {
		for _, c := range taken {
			c.Close()
		}
		syscall.Close(fd)
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 200*time.Millisecond)
		if err != nil {
			return addr, done
		}
		taken = append(taken, c)
	}
	done()
	return "", func() {}
}

// A server that does not answer is an error once the time of connecting is over.
func TestUnanswered(t *testing.T) {
	h.Check(t, 3, 20, func(t *rapid.T, c *h.C) {
		queue, done := full()
		defer done()
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		defer l.Close()
		silent := make(chan net.Conn, 100)
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				silent <- c
			}
		}()
		defer func() {
			for len(silent) > 0 {
				(<-silent).Close()
			}
		}()
		type result struct {
			wh    *websocket.Handler
			err   error
			calls int64
			crash any
		}
		n := rapid.IntRange(2, 8).Draw(t, "clients")
		results := make([]chan result, n)
		what := make([]string, n)
		for i := range n {
			url := rapid.SampledFrom([]string{"ws://", "wss://"}).Draw(t, "scheme")
			addr := l.Addr().String()
			if queue != "" && rapid.Bool().Draw(t, "queue full") {
				addr = queue
				c.Label("connections are not accepted")
			} else {
				c.Label("the handshake is not answered")
			}
			limit := time.Duration(rapid.IntRange(50, 600).Draw(t, "timeout")) * time.Millisecond
			what[i] = fmt.Sprintf("timeout %v, %s, accepting %v", limit, url, addr != queue)
			c.Note("%s", what[i])
			results[i] = make(chan result, 1)
			go func() {
				var r result
				var calls atomic.Int64
				r.crash = h.Catch(func() {
					r.wh, r.err = websocket.NewHandler(&websocket.Config{Url: url + addr + "/ws", Origin: "http://localhost/", TimeOut: limit,
						OnOpen: func(*websocket.Handler) { calls.Add(1) }, OnError: func(*websocket.Handler, error) { calls.Add(1) }, OnClose: func(*websocket.Handler) { calls.Add(1) }})
				})
				r.calls = calls.Load()
				results[i] <- r
			}()
		}
		c.NonTrivial()
		late := time.After(h.Patience(30 * time.Second))
		for i := range n {
			select {
			case r := <-results[i]:
				h.Must(t, c, r.crash == nil, "%s: crashes: %v", what[i], r.crash)
				h.Must(t, c, r.err != nil && r.wh == nil && r.calls == 0, "%s: connects (error %v, %d callbacks)", what[i], r.err, r.calls)
			case <-late:
				h.Must(t, c, false, "%s: still connecting after 30 s", what[i])
			}
		}
	})
}

// Any callback may be missing.
func TestMissingCallbacks(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		serial++
		s := &session{id: fmt.Sprint(serial), sent: make(chan bool), stop: make(chan int, 1)}
		sessions.Store(s.id, s)
		defer sessions.Delete(s.id)
		for q, n := 0, rapid.IntRange(0, 3).Draw(t, "incoming"); q < n; q++ {
			s.send = append(s.send, out{data: payload(t, "in", 100, q)})
		}
		which := rapid.IntRange(0, 15).Draw(t, "callbacks")
		how := rapid.SampledFrom([]int{clientClose, serverClose, serverFin, serverReset}).Draw(t, "end")
		c.Note("callbacks %04b, %s, %d messages", which, endName[how], len(s.send))
		c.Label(endName[how])
		c.NonTrivial()
		cfg := (&client{id: s.id}).config("")
		var opens, msgs, errs, closes atomic.Int64
		if which&1 != 0 {
			cfg.OnOpen = func(*websocket.Handler) { opens.Add(1) }
		}
		if which&2 != 0 {
			cfg.OnMessage = func(*websocket.Handler, []byte) { msgs.Add(1) }
		}
		if which&4 != 0 {
			cfg.OnError = func(*websocket.Handler, error) { errs.Add(1) }
		}
		if which&8 != 0 {
			cfg.OnClose = func(*websocket.Handler) { closes.Add(1) }
		}
		wh, err := websocket.NewHandler(cfg)
		h.Must(t, c, err == nil && wh != nil, "connecting: %v", err)
		defer wh.Close()
		err = wh.Send([]byte{1, 2, 3})
		h.Must(t, c, err == nil, "sending: %v", err)
		h.Must(t, c, h.Eventually(func() bool { return s.arrived.Load() == 1 }), "the message does not arrive")
		<-s.sent
		if which&2 != 0 {
			h.Must(t, c, h.Eventually(func() bool { return msgs.Load() >= int64(len(s.send)) }), "%d of %d messages of the server are delivered", msgs.Load(), len(s.send))
		}
		if how == clientClose {
			wh.Close()
			defer func() { s.stop <- how }()
		} else {
			s.stop <- how
		}
		h.Must(t, c, h.Eventually(func() bool { return wh.Error() != nil }), "the connection ended without an error")
		h.Must(t, c, wh.Send([]byte{1}) != nil, "sending after the end reports success")
		b := func(bit int) int64 { return int64(which >> bit & 1) }
		done := h.Eventually(func() bool { return errs.Load() >= b(2) && closes.Load() >= b(3) })
		h.Must(t, c, done, "the connection ended; the error callback ran %d times, the close callback %d times", errs.Load(), closes.Load())
		time.Sleep(200 * time.Microsecond)
		h.Must(t, c, opens.Load() == b(0) && errs.Load() == b(2) && closes.Load() == b(3) && msgs.Load() == b(1)*int64(len(s.send)), "open, message, error and close callbacks ran %d, %d, %d and %d times", opens.Load(), msgs.Load(), errs.Load(), closes.Load())
	})
}

// A message callback that waits, for an answer over the same connection say, keeps neither the
// following messages nor the report of the end waiting.
func TestBusy(t *testing.T) {
	h.Check(t, 60, 800, func(t *rapid.T, c *h.C) {
		serial++
		s := &session{id: fmt.Sprint(serial), sent: make(chan bool), stop: make(chan int, 1)}
		sessions.Store(s.id, s)
		defer sessions.Delete(s.id)
		for q, n := 0, rapid.IntRange(1, 12).Draw(t, "incoming"); q < n; q++ {
			s.send = append(s.send, out{data: payload(t, "in", 100, q)})
		}
		how := rapid.SampledFrom([]int{clientClose, serverClose, serverFin, serverReset}).Draw(t, "end")
		c.Note("%s, %d messages", endName[how], len(s.send))
		c.Label(endName[how])
		c.NonTrivialIf(len(s.send) > 1)
		cfg := (&client{id: s.id}).config("")
		release := make(chan bool)
		defer close(release)
		var msgs, errs, closes atomic.Int64
		cfg.OnMessage = func(*websocket.Handler, []byte) {
			msgs.Add(1)
			<-release
		}
		cfg.OnError = func(*websocket.Handler, error) { errs.Add(1) }
		cfg.OnClose = func(*websocket.Handler) { closes.Add(1) }
		wh, err := websocket.NewHandler(cfg)
		h.Must(t, c, err == nil && wh != nil, "connecting: %v", err)
		defer wh.Close()
		<-s.sent
		h.Must(t, c, h.Eventually(func() bool { return msgs.Load() == int64(len(s.send)) }), "while the message callback waits, %d of %d messages are delivered", msgs.Load(), len(s.send))
		err = wh.Send([]byte{1, 2, 3})
		h.Must(t, c, err == nil, "sending while the message callback waits: %v", err)
		h.Must(t, c, h.Eventually(func() bool { return s.arrived.Load() == 1 }), "a message sent while the message callback waits does not arrive")
		if how == clientClose {
			wh.Close()
			defer func() { s.stop <- how }()
		} else {
			s.stop <- how
		}
		h.Must(t, c, h.Eventually(func() bool { return errs.Load() == 1 && closes.Load() == 1 }), "the connection ended while the message callback waits; the error callback ran %d times, the close callback %d times", errs.Load(), closes.Load())
	})
}

// rawServer answers one handshake and then writes what it is given, byte for byte.
func rawServer(frames []byte) (url string, released *atomic.Bool) {
	released = &atomic.Bool{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	go func() {
		defer l.Close()
		c, err := l.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		c.SetDeadline(time.Now().Add(60 * time.Second))
		r, err := http.ReadRequest(bufio.NewReader(c))
		if err != nil {
			return
		}
		s := sha1.Sum([]byte(r.Header.Get("Sec-WebSocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
		fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(s[:]))
		c.Write(frames)
		c.(*net.TCPConn).CloseWrite() // and take the answers, so that nothing is reset
		if _, err := io.Copy(io.Discard, c); !errors.Is(err, os.ErrDeadlineExceeded) {
			released.Store(true)
		}
	}()
	return "ws://" + l.Addr().String() + "/", released
}

func frame(op byte, fin bool, data []byte) []byte {
	if fin {
		op |= 0x80
	}
	b := []byte{op}
	switch n := len(data); {
	case n < 126:
		b = append(b, byte(n))
	case n < 65536:
		b = append(b, 126, byte(n>>8), byte(n))
	default:
		b = append(b, 127, 0, 0, 0, 0, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
	return append(b, data...)
}

// Hand-made frames: messages in several frames, control frames anywhere, and connections
// cut within a frame.
func TestFrames(t *testing.T) {
	h.Check(t, 250, 3000, func(t *rapid.T, c *h.C) {
		var wire []byte
		var whole, pieces [][]byte
		fragmented := 0
		for q, n := 0, rapid.IntRange(1, 5).Draw(t, "messages"); q < n; q++ {
			data := payload(t, "message", 1, q)
			op := byte(2)
			parts := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(t, "frames")
			whole = append(whole, data)
			if parts > 1 {
				fragmented++
			}
			for i := parts; i > 0; i-- {
				p := data[:len(data)/i]
				data = data[len(p):]
				wire = append(wire, frame(op, i == 1, p)...)
				pieces = append(pieces, p)
				op = 0
				if rapid.IntRange(0, 4).Draw(t, "ping") == 0 {
					wire = append(wire, frame(9, true, []byte("ping"))...)
				}
			}
		}
		cut := rapid.IntRange(0, 2).Draw(t, "end")
		var torn []byte
		switch cut {
		case 0: // closing handshake
			wire = append(wire, frame(8, true, []byte{3, 232})...)
		case 1: // the connection ends between frames
		case 2: // the connection ends within a frame
			data := payload(t, "torn", 2, 0)
			f := frame(2, true, data)
			k := len(f) - rapid.IntRange(1, len(data)-1).Draw(t, "missing")
			wire = append(wire, f[:k]...)
			torn = f[len(f)-len(data) : k]
		}
		c.Note("%d messages, %d frames, end %d, torn %d, %d bytes", len(whole), len(pieces), cut, len(torn), len(wire))
		c.NonTrivial()
		c.LabelIf(fragmented > 0, "fragmented")
		c.LabelIf(cut == 2, "cut within a frame")
		url, released := rawServer(wire)
		var mu sync.Mutex
		var got [][]byte
		var errs, closes, nilErrs atomic.Int64
		_, err := websocket.NewHandler(&websocket.Config{Url: url, Origin: "http://localhost/",
			OnMessage: func(_ *websocket.Handler, b []byte) {
				mu.Lock()
				got = append(got, b)
				mu.Unlock()
			},
			OnError: func(_ *websocket.Handler, err error) {
				if err == nil {
					nilErrs.Add(1)
				}
				errs.Add(1)
			},
			OnClose: func(*websocket.Handler) { closes.Add(1) },
		})
		h.Must(t, c, err == nil, "connecting: %v", err)
		ended := h.Eventually(func() bool { return errs.Load() > 0 && closes.Load() > 0 })
		h.Must(t, c, ended, "the connection ended; the error callback ran %d times, the close callback %d times", errs.Load(), closes.Load())
		same := func(want [][]byte) bool {
			if len(want) != len(got) {
				return false
			}
			m := map[string]int{}
			for _, b := range want {
				m[string(b)]++
			}
			for _, b := range got {
				m[string(b)]--
			}
			for _, n := range m {
				if n != 0 {
					return false
				}
			}
			return true
		}
		withTorn := func(l [][]byte) [][]byte { return append(append([][]byte{}, l...), torn) }
		const bad, good, byFrame, partly, both = 0, 1, 2, 3, 4
		verdict := func() int {
			mu.Lock()
			defer mu.Unlock()
			switch {
			case same(whole):
				return good
			case fragmented > 0 && same(pieces):
				return byFrame
			case cut == 2 && same(withTorn(whole)):
				return partly
			case cut == 2 && fragmented > 0 && same(withTorn(pieces)):
				return both
			}
			return bad
		}
		h.Eventually(func() bool { return verdict() != bad })
		time.Sleep(time.Millisecond)
		h.Must(t, c, errs.Load() == 1 && closes.Load() == 1 && nilErrs.Load() == 0, "error and close callback ran %d and %d times, %d without an error", errs.Load(), closes.Load(), nilErrs.Load())
		h.Must(t, c, h.Eventually(released.Load), "the connection ended; the handler has not closed it")
		v := verdict()
		if v == byFrame || v == both {
			h.Finding("websocket-fragments", "a message in several frames is delivered frame by frame")
		}
		if v == partly || v == both {
			h.Finding("websocket-torn-frame", "a message cut off by the end of the connection is delivered in part")
		}
		if v == bad {
			mu.Lock()
			defer mu.Unlock()
			var ls []int
			for _, b := range got {
				ls = append(ls, len(b))
			}
			var ws []int
			for _, b := range whole {
				ws = append(ws, len(b))
			}
			h.Must(t, c, false, "messages of %v bytes are delivered for sent ones of %v", ls, ws)
		}
	})
}
