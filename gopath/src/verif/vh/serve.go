package vh

import (
	"context"
	"errors"
	"io"
	"log"
	"net"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
)

// pipes is a listener whose connections are in memory.
type pipes chan net.Conn

func (p pipes) Accept() (net.Conn, error) {
	c, ok := <-p
	if !ok {
		return nil, errors.New("closed")
	}
	return c, nil
}

func (p pipes) Close() error   { return nil }
func (p pipes) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "unix"} }

var (
	serveOnce sync.Once
	listener  pipes
	serve     *http.Client
	served    atomic.Bool
)

func serverClient() *http.Client {
	serveOnce.Do(func() {
		l := make(pipes)
		listener = l
		go (&http.Server{ErrorLog: log.New(io.Discard, "", 0)}).Serve(l)
		serve = &http.Client{
			Transport: &http.Transport{
				DisableCompression: true,
				DialContext: func(context.Context, string, string) (net.Conn, error) {
					a, b := net.Pipe()
					l <- b
					return a, nil
				},
				MaxIdleConnsPerHost: 64,
			},
			CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		}
	})
	return serve
}

// Dial connects to the server.
func Dial() net.Conn {
	serverClient()
	a, b := net.Pipe()
	listener <- b
	return a
}

// Serve makes a request of a real net/http server on the default mux, through
// an in-memory connection. The status is -1 if the response is broken.
func Serve(method, rawurl string, hdr ...string) Resp {
	req, err := http.NewRequest(method, "http://example.com"+rawurl, nil)
	if err != nil {
		panic(err)
	}
	for i := 0; i+1 < len(hdr); i += 2 {
		req.Header.Set(hdr[i], hdr[i+1])
	}
	r, err := serverClient().Do(req)
	if err != nil {
		return Resp{-1, http.Header{}, err.Error()}
	}
	defer r.Body.Close()
	var b strings.Builder
	if _, err := io.Copy(&b, r.Body); err != nil {
		return Resp{-1, r.Header, err.Error()}
	}
	return Resp{r.StatusCode, r.Header, b.String()}
}

// Real makes, in about one case of eight of the Checks that follow, Get go through a real server.
var Real bool
