//go:build go1.21

// M04: damaged values are refused or can be used.
package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"image/png"
	"math"
	"math/rand"
	"runtime"
	"strings"

	"github.com/vivint/rothko/api"
	"github.com/vivint/rothko/data"
	"github.com/vivint/rothko/data/load"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/dist/tdigest"
	"github.com/vivint/rothko/merge"
	"github.com/vivint/rothko/zz_verif/vapi"
	"github.com/vivint/rothko/zz_verif/vh"
)

var ctx = context.Background()

// limit is what reading a value may allocate.
const limit = 256 << 20

func digest(comp float64, vals ...float64) []byte {
	d, err := tdigest.Params{Compression: comp}.New()
	if err != nil {
		panic(err)
	}
	for _, v := range vals {
		d.Observe(v)
	}
	return d.Marshal(nil)
}

func upTo(n int) (out []float64) {
	for i := 0; i < n; i++ {
		out = append(out, float64(i*7919%1009))
	}
	return out
}

func digests() [][]byte {
	return [][]byte{
		digest(5), digest(5, 1), digest(5, 1, 2), digest(100, -4096.5, 0, 1e30, 3), digest(0.1, 1, 2, 3), digest(1, upTo(300)...),
	}
}

// record makes a stored record around a digest.
func record(b []byte, n int64) data.Record {
	return data.Record{StartTime: 100, EndTime: 200, Observations: n, Distribution: b, Kind: "tdigest", Merged: 1, Min: 1, Max: 9, MinId: []byte("min"), MaxId: []byte("max")}
}

var goodRec = record(digest(5, 4, 5, 6, 7), 4)

// use asks everything of a distribution that could be loaded.
func use(d dist.Dist) {
	for i := 0; i <= 16; i++ {
		d.Query(float64(i) / 16)
	}
	for _, x := range []float64{math.Inf(-1), -1e300, -1, 0, 1, 5, 1e300, math.Inf(1), math.NaN()} {
		d.CDF(x)
	}
	d.Len()
	b := d.Marshal(nil)
	if again, err := load.Load(ctx, data.Record{Kind: d.Kind(), Distribution: b}); err == nil {
		again.Query(0.5)
	}
	d.Observe(3)
	d.Query(0.25)
}

// beyond tells that a digest is small and counts more than 32 bits can count,
// which the t-digest does not support.
func beyond(b []byte) bool {
	if len(b) < 16 || math.Float64frombits(binary.BigEndian.Uint64(b[4:])) >= 1 {
		return false
	}
	n := int64(int32(binary.BigEndian.Uint32(b[12:])))
	total := uint64(8)
	if n < 0 || 16+4*n > int64(len(b)) {
		return false
	}
	b = b[16+4*n:]
	for ; n > 0; n-- {
		c, l := binary.Uvarint(b)
		if l <= 0 || c > math.MaxUint32 {
			return false
		}
		total += 2 * c // merged with itself
		b = b[l:]
	}
	return total > math.MaxUint32
}

// exam reads a damaged digest in all ways.
func exam(e *vh.Enum, what string, b []byte) {
	if !e.Next() || beyond(b) {
		return
	}
	e.Try(what, func() {
		rand.Seed(1)
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		d, err := load.Load(ctx, data.Record{Kind: "tdigest", Distribution: append([]byte(nil), b...)})
		runtime.ReadMemStats(&after)
		if n := after.TotalAlloc - before.TotalAlloc; n > limit {
			e.Failf("memory", "%s: reading %d bytes allocates %d", what, len(b), n)
		}
		if (d == nil) == (err == nil) {
			e.Failf("result", "%s: %v, %v", what, d, err)
		}
		bad := record(b, 3)
		for _, recs := range [][]data.Record{{bad}, {bad, goodRec}, {goodRec, bad}, {bad, bad}} {
			out, merr := merge.Merge(ctx, merge.MergeOptions{Params: tdigest.Params{Compression: 5}, Records: recs})
			if err != nil && merr == nil {
				e.Failf("merged", "%s can not be loaded (%v), but is merged to %+v", what, err, out)
			}
			if merr == nil {
				if md, err := load.Load(ctx, out); err == nil {
					use(md)
				}
			}
		}
		if err == nil {
			use(d)
			e.Outcome("usable")
		} else {
			e.Outcome("refused: " + strings.Map(func(r rune) rune {
				if r >= '0' && r <= '9' {
					return '0'
				}
				return r
			}, err.Error()))
		}
	})
}

// bytesOf: every change of one byte, and of the length.
func bytesOf() vh.Scenario {
	return vh.Scenario{Name: "digest-bytes", Enum: func(e *vh.Enum) {
		for k, b := range digests() {
			for i := range b {
				for v := 0; v < 256; v++ {
					if byte(v) == b[i] {
						continue
					}
					c := append([]byte(nil), b...)
					c[i] = byte(v)
					exam(e, fmt.Sprintf("digest %d of %d bytes with byte %d = %d", k, len(b), i, v), c)
				}
			}
			for n := 0; n <= len(b); n++ {
				exam(e, fmt.Sprintf("digest %d of %d bytes cut to %d", k, len(b), n), b[:n])
				for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
					exam(e, fmt.Sprintf("digest %d of %d bytes, from %d on %d", k, len(b), n, v), append(append([]byte(nil), b[:n]...), bytes.Repeat([]byte{v}, len(b)-n+8)...))
				}
			}
		}
	}}
}

// fields: combinations of the fields of a digest.
func fields(thorough bool) vh.Scenario {
	comps := []float64{5, 0, 1, 0.01, 1e-300, 1e3, 65536, 65537, 1e6, 1e9, 1e12, 1e18, 1e300, math.Inf(1), -1, -1e18, math.Inf(-1), math.NaN(), math.Float64frombits(1)}
	counts := []uint32{0, 1, 2, 3, 1 << 16, 1 << 22, 1<<22 + 1, 1 << 31, math.MaxUint32}
	deltas := []float32{0, 1, -1, float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), math.MaxFloat32, -math.MaxFloat32, 1e-45}
	weights := [][]byte{{1}, {0}, {2}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {0xff, 0xff, 0xff, 0xff, 0x07}, nil}
	name := "digest-fields"
	n := 2
	if thorough {
		n = 3
	}
	return vh.Scenario{Name: name, Enum: func(e *vh.Enum) {
		for _, version := range []uint32{2, 1, 0, 3, 1 << 31} {
			for _, comp := range comps {
				for _, count := range counts {
					head := binary.BigEndian.AppendUint32(nil, version)
					head = binary.BigEndian.AppendUint64(head, math.Float64bits(comp))
					head = binary.BigEndian.AppendUint32(head, count)
					what := fmt.Sprintf("version %d, compression %v, %d centroids", version, comp, count)
					exam(e, what+", no more", head)
					if version != 2 || int(count) > n {
						exam(e, what+", short", append(head[:len(head):len(head)], 1, 2, 3))
						continue
					}
					if comp != 5 && comp != 0.01 && comp != 65536 {
						if count < 2 {
							continue
						}
						b := head[:len(head):len(head)]
						for i := 0; i < int(count); i++ {
							b = binary.BigEndian.AppendUint32(b, math.Float32bits(float32(i)))
						}
						exam(e, what, append(b, bytes.Repeat([]byte{1}, int(count))...))
						continue
					}
					idx := make([]int, 2*count)
					for {
						b := head[:len(head):len(head)]
						for i := 0; i < int(count); i++ {
							b = binary.BigEndian.AppendUint32(b, math.Float32bits(deltas[idx[i]]))
						}
						for i := 0; i < int(count); i++ {
							b = append(b, weights[idx[int(count)+i]]...)
						}
						exam(e, fmt.Sprintf("%s, fields %v", what, idx), b)
						i := len(idx) - 1
						for ; i >= 0; i-- {
							if idx[i]++; idx[i] < len(deltas) && i < int(count) || idx[i] < len(weights) && i >= int(count) {
								break
							}
							idx[i] = 0
						}
						if i < 0 {
							break
						}
					}
				}
			}
		}
	}}
}

const now = int64(1000)

// decode is what a stored record means: a sequence of fields, the last of each
// counts, unknown ones (and groups of them) do not.
func decode(b []byte) (r data.Record, ok bool) {
	varint := func() (v uint64) {
		for shift := uint(0); ok; shift += 7 {
			if shift >= 70 || len(b) == 0 {
				ok = false
				break
			}
			c := b[0]
			b = b[1:]
			v |= uint64(c&0x7f) << shift
			if c < 0x80 {
				break
			}
		}
		return v
	}
	take := func(n uint64) (out []byte) {
		if !ok || n > uint64(len(b)) {
			ok = false
			return nil
		}
		out, b = b[:n:n], b[n:]
		return append([]byte{}, out...)
	}
	groups := 0
	for ok = true; len(b) > 0 && ok; {
		tag := varint()
		num, wire := int32(tag>>3), tag&7
		if groups == 0 && ok {
			if num <= 0 || wire == 4 {
				return r, false
			}
			wants := map[int32]uint64{1: 0, 2: 0, 3: 0, 4: 2, 5: 2, 6: 1, 7: 1, 8: 2, 9: 2, 10: 0}
			if want, known := wants[num]; known && want != wire {
				return r, false
			}
		} else {
			num = 0
		}
		var v uint64
		var data []byte
		switch wire {
		case 0:
			v = varint()
		case 1:
			if data = take(8); ok {
				v = binary.LittleEndian.Uint64(data)
			}
		case 2:
			n := varint()
			data = take(n)
		case 3:
			groups++
		case 4:
			groups--
		case 5:
			take(4)
		default:
			ok = false
		}
		if !ok {
			break
		}
		switch num {
		case 1:
			r.StartTime = int64(v)
		case 2:
			r.EndTime = int64(v)
		case 3:
			r.Observations = int64(v)
		case 4:
			r.Distribution = data
		case 5:
			r.Kind = string(data)
		case 6:
			r.Min = math.Float64frombits(v)
		case 7:
			r.Max = math.Float64frombits(v)
		case 8:
			r.MinId = data
		case 9:
			r.MaxId = data
		case 10:
			r.Merged = int64(v)
		}
	}
	return r, ok && groups == 0
}

// deep: groups in groups.
func deep() vh.Scenario {
	return vh.Scenario{Name: "deep", Enum: func(e *vh.Enum) {
		for _, n := range []int{1, 2, 3, 1000, 1 << 23} {
			for _, tag := range []byte{0x0b, 0x5b, 0x7b} {
				for _, ends := range []int{0, n - 1, n, n + 1} {
					if ends > 1000 && tag != 0x7b {
						continue
					}
					b := append(bytes.Repeat([]byte{tag}, n), bytes.Repeat([]byte{tag + 1}, ends)...)
					asked(e, fmt.Sprintf("%d begins of groups of tag %d and %d ends", n, tag, ends), b)
				}
			}
		}
	}}
}

func sum(b []byte) (n int) {
	for _, c := range b {
		n += int(c)
	}
	return n
}

// asked reads a damaged record by itself and through the web.
func asked(e *vh.Enum, what string, b []byte) {
	if !e.Next() {
		return
	}
	e.Try(what, func() {
		rand.Seed(1)
		var r data.Record
		err := r.Unmarshal(append([]byte(nil), b...))
		if want, ok := decode(b); ok != (err == nil) || ok && fmt.Sprint(want) != fmt.Sprint(r) {
			e.Failf("decode", "%s: %.300v, %v, want %.300v, %v", what, fmt.Sprint(r), err, fmt.Sprint(want), ok)
		}
		unusable := err != nil
		if err == nil && len(b) < 1<<20 {
			_, lerr := load.Load(ctx, r)
			if unusable = lerr != nil; unusable {
				for _, recs := range [][]data.Record{{r}, {r, goodRec}, {goodRec, r}} {
					if out, err := merge.Merge(ctx, merge.MergeOptions{Params: tdigest.Params{Compression: 5}, Records: recs}); err == nil {
						e.Failf("merged", "%s can not be loaded (%v), but is merged to %+v", what, lerr, out)
					}
				}
			}
			// it is what it was decoded to
			again, merr := r.Marshal()
			var r2 data.Record
			if merr != nil || r2.Unmarshal(again) != nil || fmt.Sprint(r) != fmt.Sprint(r2) {
				e.Failf("again", "%s: decoded to %+v, which is stored as %x", what, r, again)
			}
		}
		gb, _ := goodRec.Marshal()
		good := vapi.Rec{Start: 100, End: 200, Data: gb}
		bad := vapi.Rec{Start: 100, End: 200, Data: b}
		for _, recs := range [][]vapi.Rec{{bad}, {good, bad}} {
			for _, accept := range []string{"application/json", ""} {
				if accept == "" && sum(b)%8 != 0 {
					continue // pictures are slow
				}
				db := &vapi.DB{Recs: map[string][]vapi.Rec{"m": recs}}
				req := vapi.Request("GET", "/api/render", fmt.Sprintf("metric=m&now=%d&duration=1us&width=150&height=80&samples=3", now), "Accept", accept)
				got := vapi.Ask(api.New(db, nil, api.Options{}), req)
				switch {
				case got.Code == 500 && err != nil:
				case got.Code == 500:
					// a distribution or times without sense
				case got.Code != 200 || err != nil || unusable && r.StartTime == 100 && r.EndTime == 200:
					e.Failf("status", "%s: status %d, the record fails with %v", what, got.Code, err)
				case accept == "":
					if _, err := png.Decode(strings.NewReader(got.Body)); err != nil {
						e.Failf("picture", "%s: %v", what, err)
					}
				default:
					var v map[string]interface{}
					if err := json.Unmarshal([]byte(got.Body), &v); err != nil {
						e.Failf("json", "%s: %v in %.300q", what, err, got.Body)
					}
				}
				e.Outcome(fmt.Sprint(got.Code, err == nil))
			}
		}
	})
}

func records(bytesEach []int) vh.Scenario {
	return vh.Scenario{Name: "record-bytes", Enum: func(e *vh.Enum) {
		var base [][]byte
		for _, r := range []data.Record{record(digest(5, 1, 2), 2), {}, {Kind: "tdigest", Distribution: digest(5, 1), Observations: 1, EndTime: 5}} {
			b, err := r.Marshal()
			if err != nil {
				panic(err)
			}
			base = append(base, b)
		}
		for k, b := range base {
			for i := range b {
				for _, v := range bytesEach {
					if byte(v) == b[i] {
						continue
					}
					c := append([]byte(nil), b...)
					c[i] = byte(v)
					asked(e, fmt.Sprintf("record %d of %d bytes with byte %d = %d", k, len(b), i, v), c)
				}
			}
			for n := 0; n <= len(b); n++ {
				asked(e, fmt.Sprintf("record %d of %d bytes cut to %d", k, len(b), n), b[:n])
				for _, add := range [][]byte{{0}, {0xff}, {0x08}, {0x08, 0xff}, {0x0a, 0xff, 0xff, 0xff, 0xff, 0x0f}, {0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0x0b}, {0x0c}, {0x78, 1}, {0x7a, 1, 2}} {
					asked(e, fmt.Sprintf("record %d of %d bytes cut to %d with %x", k, len(b), n, add), append(append([]byte(nil), b[:n]...), add...))
				}
			}
			// every field once more, with values that are rare
			for field := uint64(1); field < 16; field++ {
				for wire := uint64(0); wire < 8; wire++ {
					for _, tail := range [][]byte{nil, {0}, {1}, {0x7f}, {0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1}, {0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 1}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, bytes.Repeat([]byte{0xff}, 12), {0, 0, 0, 0, 0, 0, 0xf8, 0x7f}, {0, 0, 0, 0, 0, 0, 0xf0, 0xff}, {3, 1, 2, 3}} {
						c := append(b[:len(b):len(b)], binary.AppendUvarint(nil, field<<3|wire)...)
						asked(e, fmt.Sprintf("record %d with field %d of type %d and %x", k, field, wire, tail), append(c, tail...))
					}
				}
			}
		}
	}}
}

// short: every short string is a digest or a record.
func short(n int) vh.Scenario {
	return vh.Scenario{Name: fmt.Sprintf("short-%d", n), Enum: func(e *vh.Enum) {
		b := make([]byte, n)
		var rec func(i int)
		rec = func(i int) {
			exam(e, fmt.Sprintf("digest %x", b[:i]), b[:i])
			asked(e, fmt.Sprintf("record %x", b[:i]), b[:i])
			if i == n {
				return
			}
			for v := 0; v < 256; v++ {
				b[i] = byte(v)
				rec(i + 1)
			}
		}
		rec(0)
	}}
}

// whole: records survive storage, whatever they have.
func whole() vh.Scenario {
	return vh.Scenario{Name: "whole", Enum: func(e *vh.Enum) {
		ints := []int64{0, 1, -1, 127, 128, math.MaxInt64, math.MinInt64, 1500000000123456789}
		floats := []float64{0, 1, -1.5, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1)}
		byts := [][]byte{nil, {0}, []byte("id"), bytes.Repeat([]byte{0xff}, 200), bytes.Repeat([]byte{0}, 20000)}
		kinds := []string{"", "tdigest", "größe", strings.Repeat("k", 300), "\xff"}
		for _, a := range ints {
			for _, b := range ints {
				for _, c := range ints {
					for _, d := range ints {
						for i := 0; i < len(floats)*len(byts); i++ {
							if !e.Next() {
								continue
							}
							f, g := floats[i%len(floats)], floats[(i+3)%len(floats)]
							r := data.Record{StartTime: a, EndTime: b, Observations: c, Merged: d, Min: f, Max: g, MinId: byts[i/len(floats)], MaxId: byts[(i/len(floats)+2)%len(byts)], Distribution: byts[(i+1)%len(byts)], Kind: kinds[i%len(kinds)]}
							what := fmt.Sprintf("%.300v", fmt.Sprint(r))
							e.Try(what, func() {
								buf, err := r.Marshal()
								if err != nil || len(buf) != r.Size() {
									e.Failf("stored", "%s: %d bytes of %d, %v", what, len(buf), r.Size(), err)
								}
								mem := append([]byte(nil), buf...)
								var r2 data.Record
								if err := r2.Unmarshal(mem); err != nil {
									e.Failf("stored", "%s: %v", what, err)
								}
								for i := range mem {
									mem[i] = 0xAA // the memory of a database is its own
								}
								if r2.StartTime != a || r2.EndTime != b || r2.Observations != c || r2.Merged != d || r2.Min != f || r2.Max != g || r2.Kind != r.Kind ||
									!bytes.Equal(r2.MinId, r.MinId) || !bytes.Equal(r2.MaxId, r.MaxId) || !bytes.Equal(r2.Distribution, r.Distribution) {
									e.Failf("stored", "%s is loaded as %.300v", what, fmt.Sprint(r2))
								}
								small := make([]byte, len(buf))
								if n, err := r.MarshalTo(small); err != nil || n != len(buf) || !bytes.Equal(small, buf) {
									e.Failf("stored", "%s: MarshalTo gives %d, %v", what, n, err)
								}
							})
						}
					}
				}
			}
		}
	}}
}

func main() {
	vh.Main(vh.Check{ID: "M04", Level: "fault_enumeration",
		Assumptions: []string{"digests of a compression below 1 do not count 2^31 observations or more"},
		Rule:        "every change of a byte and of the length of stored digests and records, combinations of their fields, every short string, each read alone, merged with others, and through the web; every combination of boundary values of a record stored and loaded",
		Scenarios: func(tier string) (out []vh.Scenario) {
			few := []int{0, 1, 2, 0x0a, 0x7f, 0x80, 0xff}
			if tier == "thorough" {
				few = nil
				for i := 0; i < 256; i++ {
					few = append(few, i)
				}
			}
			return []vh.Scenario{bytesOf(), fields(tier == "thorough"), records(few), short(2), whole(), deep()}
		}})
}
