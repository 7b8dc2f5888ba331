//go:build go1.21

// Package vdata has a distribution that keeps every observation, with
// scheduling points inside of its operations, and checks of records.
package vdata

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/zz_verif/vs"
)

// Params makes exact distributions. The first Fail calls of New fail.
type Params struct {
	Fail   *int
	Points bool
}

func (p Params) Kind() string { return "exact" }

func (p Params) New() (dist.Dist, error) {
	if p.Fail != nil && *p.Fail > 0 {
		*p.Fail--
		return nil, errors.New("no distribution")
	}
	return &Dist{points: p.Points}, nil
}

func (p Params) Unmarshal(b []byte) (dist.Dist, error) {
	return &Dist{vals: Values(b)}, nil
}

// Dist is an exact distribution.
type Dist struct {
	vals   []float64
	busy   bool
	points bool
}

// enter reports operations that overlap.
func (d *Dist) enter(op string) {
	if d.busy {
		vs.Fail("overlap", "%s of a distribution during another operation", op)
	}
	d.busy = true
	if d.points {
		vs.Point("dist")
	}
}

func (d *Dist) Kind() string { return "exact" }
func (d *Dist) Len() int64   { return int64(len(d.vals)) }

func (d *Dist) Observe(v float64) {
	d.enter("Observe")
	d.vals = append(d.vals, v)
	d.busy = false
}

func (d *Dist) Marshal(buf []byte) []byte {
	d.enter("Marshal")
	for _, v := range d.vals {
		buf = binary.LittleEndian.AppendUint64(buf, math.Float64bits(v))
	}
	d.busy = false
	return buf
}

func (d *Dist) Query(x float64) float64 {
	v := append([]float64(nil), d.vals...)
	sort.Float64s(v)
	if len(v) == 0 {
		return math.NaN()
	}
	return v[int(x*float64(len(v)-1))]
}

func (d *Dist) CDF(x float64) float64 {
	n := 0
	for _, v := range d.vals {
		if v <= x {
			n++
		}
	}
	return float64(n) / float64(len(d.vals))
}

// Values decodes a marshalled distribution.
func Values(b []byte) (out []float64) {
	for len(b) >= 8 {
		out = append(out, math.Float64frombits(binary.LittleEndian.Uint64(b)))
		b = b[8:]
	}
	return out
}

// Obs is an observation.
type Obs struct {
	Val float64
	ID  string // empty: none
}

// Copy makes a record that may be kept.
func Copy(r data.Record) data.Record {
	r.Distribution = append([]byte(nil), r.Distribution...)
	r.MinId = append([]byte(nil), r.MinId...)
	r.MaxId = append([]byte(nil), r.MaxId...)
	return r
}

// Consistent compares the fields of a record of an exact distribution with
// each other and the observations that were made: all of them if all is set,
// some of them otherwise.
func Consistent(r data.Record, made []Obs, all bool) string {
	vals := Values(r.Distribution)
	if r.Kind != "exact" {
		return fmt.Sprintf("kind is %q", r.Kind)
	}
	if r.Merged != 1 {
		return fmt.Sprintf("merged is %d", r.Merged)
	}
	if len(vals) == 0 {
		return "record without observations"
	}
	if int(r.Observations) != len(vals) {
		return fmt.Sprintf("%d observations are counted, the distribution has %d", r.Observations, len(vals))
	}
	rest := append([]Obs(nil), made...)
	min, max := vals[0], vals[0]
	for _, v := range vals {
		min, max = math.Min(min, v), math.Max(max, v)
		found := false
		for i, o := range rest {
			if math.Float64bits(o.Val) == math.Float64bits(v) {
				rest = append(rest[:i], rest[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return fmt.Sprintf("%v is in the distribution %v and was not observed that often: %v", v, vals, made)
		}
	}
	if all && len(rest) > 0 {
		return fmt.Sprintf("%v is missing in %v", rest, vals)
	}
	for _, c := range []struct {
		what      string
		got, want float64
		id        []byte
	}{{"minimum", r.Min, min, r.MinId}, {"maximum", r.Max, max, r.MaxId}} {
		if c.got != c.want {
			return fmt.Sprintf("%s is %v, observations are %v", c.what, c.got, vals)
		}
		ok := false
		for _, o := range made {
			ok = ok || o.Val == c.want && o.ID == string(c.id)
		}
		if !ok {
			return fmt.Sprintf("%s %v has the identifier %q, observations are %v", c.what, c.got, c.id, made)
		}
	}
	if r.StartTime > r.EndTime {
		return fmt.Sprintf("starts at %d, ends at %d", r.StartTime, r.EndTime)
	}
	return ""
}
