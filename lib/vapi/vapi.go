//go:build go1.21

// Package vapi has what the checks of the HTTP interface share: a database
// that is a list of records, and requests.
package vapi

import (
	"context"
	"errors"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/vivint/rothko/database"
)

// ErrFault is a failure of the database.
var ErrFault = errors.New("the database has failed")

// Rec is a stored value.
type Rec struct {
	Start, End int64
	Data       []byte
}

// DB is a database with a fixed content, records by decreasing end.
type DB struct {
	database.DB
	Names   []string
	Recs    map[string][]Rec
	FailAt  int // which step of a query or listing fails, from 1
	Queries int
	Lists   int
	Given   []Rec // records that the last query gave
}

// Calls is how often it was used.
func (d *DB) Calls() int { return d.Queries + d.Lists }

// Query implements database.Source. The memory of the values is reused, as a
// mapped file's may.
func (d *DB) Query(ctx context.Context, metric string, end int64, buf []byte, cb database.ResultCallback) error {
	d.Queries++
	d.Given = nil
	step := 0
	fault := func() bool { step++; return step == d.FailAt }
	if fault() {
		return ErrFault
	}
	var mem []byte
	for _, r := range d.Recs[metric] {
		if r.End >= end {
			continue
		}
		d.Given = append(d.Given, r)
		for i := range mem {
			mem[i] = 0xAA
		}
		mem = append([]byte(nil), r.Data...)
		ok, err := cb(ctx, r.Start, r.End, mem)
		for i := range mem {
			mem[i] = 0x55
		}
		if err != nil {
			return err
		}
		if fault() {
			return ErrFault
		}
		if !ok {
			return nil
		}
	}
	return nil
}

// Metrics implements database.Source.
func (d *DB) Metrics(ctx context.Context, cb func(string) (bool, error)) error {
	d.Lists++
	for i, n := range d.Names {
		if i+1 == d.FailAt {
			return ErrFault
		}
		ok, err := cb(n)
		if err != nil || !ok {
			return err
		}
	}
	return nil
}

// Request makes a request without interpretation of its parts.
func Request(method, path, query string, headers ...string) *http.Request {
	req := &http.Request{Method: method, URL: &url.URL{Path: path, RawQuery: query}, Header: http.Header{},
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Body: http.NoBody, RemoteAddr: "192.0.2.1:1"}
	for i := 0; i+1 < len(headers); i += 2 {
		req.Header.Add(headers[i], headers[i+1])
	}
	return req
}

// Answer is what a client sees.
type Answer struct {
	Code   int
	Header http.Header
	Body   string
}

// Ask gives the request to the handler.
func Ask(h http.Handler, req *http.Request) Answer {
	rec := httptest.NewRecorder()
	h.ServeHTTP(rec, req)
	res := rec.Result()
	return Answer{res.StatusCode, res.Header, rec.Body.String()}
}

// FirstLine of a body; the rest of an error is where it was made.
func (a Answer) FirstLine() string {
	line, _, _ := strings.Cut(a.Body, "\n")
	return line
}

// Static stands for the files of the user interface.
type Static struct{ Calls int }

// Text is what the static files have.
const Text = "static content of "

func (s *Static) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	s.Calls++
	if strings.HasSuffix(req.URL.Path, "/missing") {
		http.Error(w, "nothing here", 404)
		return
	}
	w.Header().Set("X-Static", "yes")
	w.Write([]byte(Text + req.URL.Path))
}
