//go:build go1.21

// Package vhttp models the serving loop of net/http.
package vhttp

import (
	"context"
	"errors"
	"net"
	"net/http"

	"github.com/vivint/rothko/zz_verif/vctx"
	"github.com/vivint/rothko/zz_verif/vnet"
	"github.com/vivint/rothko/zz_verif/vs"
)

// model is the state of a server.
type model struct {
	s      *http.Server
	down   bool
	lis    []net.Listener
	active int
	tls    bool
	cert   string
	key    string
}

type state struct {
	owner  *vs.Exec
	models []*model
}

var st state

//go:noinline
func cur() *state {
	if st.owner != vs.Cur() {
		st = state{owner: vs.Cur()}
	}
	return &st
}

//go:noinline
func of(s *http.Server) *model {
	c := cur()
	for _, m := range c.models {
		if m.s == s {
			return m
		}
	}
	m := &model{s: s}
	c.models = append(c.models, m)
	return m
}

// Servers are the servers that serve or did.
//
//go:noinline
func Servers() (out []*http.Server) {
	for _, m := range cur().models {
		out = append(out, m.s)
	}
	return out
}

// Active counts the connections that are served.
//
//go:noinline
func Active() (n int) {
	for _, m := range cur().models {
		n += m.active
	}
	return n
}

type server struct{ s *http.Server }

// Wrap gives the modelled methods of a server.
func Wrap(s *http.Server) server { return server{s} }

// Serve accepts connections until the server is shut down or the listener
// fails. A connection is served until its peer closes it.
func (s server) Serve(l net.Listener) error {
	m := of(s.s)
	vs.Point("serve")
	defer l.Close()
	if m.down {
		return http.ErrServerClosed
	}
	m.lis = append(m.lis, l)
	for {
		c, err := l.Accept()
		if err != nil {
			if m.down {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				continue
			}
			return err
		}
		m.active++
		vs.GoNamed("http connection", func() {
			var b [64]byte
			for {
				if _, err := c.Read(b[:]); err != nil {
					break
				}
			}
			c.Close()
			m.active--
		})
	}
}

// ServeTLS is like Serve. It fails without a certificate and a key.
func (s server) ServeTLS(l net.Listener, cert, key string) error {
	m := of(s.s)
	m.tls, m.cert, m.key = true, cert, key
	if cert == "" || key == "" {
		return errors.New("open : no such file or directory")
	}
	return s.Serve(l)
}

// ListenAndServe listens on the address of the server.
func (s server) ListenAndServe() error {
	return s.listen(":http", s.Serve)
}

// ListenAndServeTLS listens on the address of the server.
func (s server) ListenAndServeTLS(cert, key string) error {
	return s.listen(":https", func(l net.Listener) error { return s.ServeTLS(l, cert, key) })
}

func (s server) listen(def string, serve func(net.Listener) error) error {
	if of(s.s).down {
		return http.ErrServerClosed
	}
	addr := s.s.Addr
	if addr == "" {
		addr = def
	}
	l, err := vnet.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return serve(l)
}

// TLS tells how the server serves.
//
//go:noinline
func TLS(s *http.Server) (tls bool, cert, key string) {
	m := of(s)
	return m.tls, m.cert, m.key
}

// Shutdown closes the listeners and waits for the connections.
func (s server) Shutdown(ctx context.Context) error {
	m := of(s.s)
	vs.Point("shutdown")
	m.down = true
	for _, l := range m.lis {
		l.Close()
	}
	vs.Wait("shutdown", func() bool { return m.active == 0 || vctx.Ended(ctx) })
	if m.active != 0 {
		return ctx.Err()
	}
	return nil
}

// Close closes the listeners.
func (s server) Close() error {
	m := of(s.s)
	vs.Point("close server")
	m.down = true
	for _, l := range m.lis {
		l.Close()
	}
	return nil
}
