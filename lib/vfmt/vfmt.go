//go:build go1.21

// Package vfmt is an independent reader and writer of the format in which
// rothko stores data: the directories of metrics, the data files with their
// records and metadata, the encoding of an aggregated record, and the one of a
// distribution.
package vfmt

import (
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// Header is the size of the header of a record: version, kind, start, end,
// size and checksum.
const Header = 1 + 1 + 8 + 8 + 2 + 4

const (
	version = 1

	kindComplete = 2
	kindBegin    = 3
	kindContinue = 4
	kindEnd      = 5
)

var table = crc32.MakeTable(crc32.Castagnoli)

// Value is a stored value.
type Value struct {
	Start, End int64
	Data       []byte
}

// Dir is the directory of a metric. The first dot of a run of dots separates
// directories, the other ones are encoded. Runs at the begin and at the end of a
// name are encoded completely.
func Dir(name string) string {
	enc := strings.NewReplacer("/", "%2f", "%", "%25")
	dots := func(n int) string { return strings.Repeat("%2e", n) }
	lead := len(name) - len(strings.TrimLeft(name, "."))
	if lead == len(name) {
		return dots(lead)
	}
	trail := len(name) - len(strings.TrimRight(name, "."))
	out := ""
	if lead > 0 {
		out = dots(lead) + "/"
	}
	run := 0
	for _, part := range strings.Split(name[lead:len(name)-trail], ".") {
		if part == "" {
			run++
			continue
		}
		if out != "" && !strings.HasSuffix(out, "/") {
			out += "/"
		}
		out += dots(run) + enc.Replace(part)
		run = 0
	}
	if trail > 0 {
		out += "/" + dots(trail)
	}
	return out
}

type record struct {
	kind       byte
	start, end int64
	data       []byte
}

func readRecord(b []byte) (r record, err error) {
	if len(b) < Header {
		return r, errors.New("short record")
	}
	if b[0] != version {
		return r, fmt.Errorf("version %d", b[0])
	}
	r.kind = b[1]
	r.start = int64(binary.BigEndian.Uint64(b[2:]))
	r.end = int64(binary.BigEndian.Uint64(b[10:]))
	n := int(binary.BigEndian.Uint16(b[18:]))
	if Header+n > len(b) {
		return r, errors.New("record longer than its slot")
	}
	r.data = b[Header : Header+n]
	crc := crc32.Update(crc32.Update(0, table, b[:Header-4]), table, r.data)
	if got := binary.BigEndian.Uint32(b[Header-4:]); got != crc {
		return r, fmt.Errorf("checksum %x instead of %x", got, crc)
	}
	return r, nil
}

func writeRecord(b []byte, r record) {
	b[0], b[1] = version, r.kind
	binary.BigEndian.PutUint64(b[2:], uint64(r.start))
	binary.BigEndian.PutUint64(b[10:], uint64(r.end))
	binary.BigEndian.PutUint16(b[18:], uint16(len(r.data)))
	crc := crc32.Update(crc32.Update(0, table, b[:Header-4]), table, r.data)
	binary.BigEndian.PutUint32(b[Header-4:], crc)
	copy(b[Header:], r.data)
}

// Meta is the metadata of a data file.
type Meta struct {
	Size, Head         int
	Start, End, MinEnd int64
}

func readMeta(b []byte) (m Meta, err error) {
	r, err := readRecord(b)
	if err != nil {
		return m, err
	}
	fs, err := Fields(r.data)
	if err != nil {
		return m, err
	}
	for _, f := range fs {
		if f.Wire != 0 {
			return m, fmt.Errorf("field %d of the metadata has wire type %d", f.Num, f.Wire)
		}
		switch f.Num {
		case 1:
			m.Size = int(int32(f.Int))
		case 2:
			m.Head = int(int32(f.Int))
		case 3:
			m.Start = int64(f.Int)
		case 4:
			m.End = int64(f.Int)
		case 5:
			m.MinEnd = int64(f.Int)
		}
	}
	return m, nil
}

func writeMeta(b []byte, m Meta) {
	var d []byte
	for i, v := range []int64{int64(m.Size), int64(m.Head), m.Start, m.End, m.MinEnd} {
		if v != 0 {
			d = binary.AppendUvarint(append(d, byte((i+1)<<3)), uint64(v))
		}
	}
	writeRecord(b, record{kind: kindComplete, data: d})
}

// file is a data file in memory.
type file struct {
	path string
	b    []byte
	meta Meta
	cap  int
}

func load(path string) (f file, err error) {
	if f.b, err = os.ReadFile(path); err != nil {
		return f, err
	}
	f.path = path
	if f.meta, err = readMeta(f.b); err != nil {
		return f, fmt.Errorf("%s: metadata: %v", filepath.Base(path), err)
	}
	if f.meta.Size < Header || len(f.b)%f.meta.Size != 0 {
		return f, fmt.Errorf("%s: %d bytes with records of %d", filepath.Base(path), len(f.b), f.meta.Size)
	}
	f.cap = len(f.b)/f.meta.Size - 1
	return f, nil
}

func (f file) slot(n int) []byte { return f.b[(n+1)*f.meta.Size : (n+2)*f.meta.Size] }

func (f file) has(n int) bool { return n >= 0 && n < f.cap && f.slot(n)[0] != 0 }

// head is the slot before the newest value: values are written from the end of
// the file to the begin. The head of the metadata only says where to look first.
func (f file) head() int {
	h := f.meta.Head
	if h < 0 {
		return -1
	}
	if f.has(h) {
		for h >= 0 && f.has(h) {
			h--
		}
		return h
	}
	for h < f.cap && !f.has(h) {
		h++
	}
	return h - 1
}

// numbers are the first and the last number of the data files.
func numbers(dir string) (first, last int, err error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return 0, 0, err
	}
	for _, e := range es {
		base, ok := strings.CutSuffix(e.Name(), ".data")
		if !ok {
			continue
		}
		n, err := strconv.Atoi(base)
		if err != nil {
			return 0, 0, fmt.Errorf("data file %q", e.Name())
		}
		if first == 0 || n < first {
			first = n
		}
		if n > last {
			last = n
		}
	}
	return first, last, nil
}

func dataFile(dir string, n int) string { return filepath.Join(dir, strconv.Itoa(n)+".data") }

// Read returns the values of the metric in the directory that end before the
// end, newest first. Anything that is not in order is an error.
func Read(dir string, end int64) (out []Value, err error) {
	first, last, err := numbers(dir)
	if err != nil {
		return nil, err
	}
	for n := last; n >= first && last > 0; n-- {
		f, err := load(dataFile(dir, n))
		if err != nil {
			return nil, err
		}
		if f.meta.MinEnd >= end {
			continue
		}
		for s := f.head() + 1; s < f.cap; {
			var v Value
			for begin := s; ; s++ {
				if s == f.cap {
					return nil, fmt.Errorf("%d.data: the value at %d does not end", n, begin)
				}
				r, err := readRecord(f.slot(s))
				if err != nil {
					return nil, fmt.Errorf("%d.data: record %d: %v", n, s, err)
				}
				if s == begin {
					v.Start, v.End = r.start, r.end
				}
				switch {
				case r.start != v.Start || r.end != v.End:
					return nil, fmt.Errorf("%d.data: record %d of the value at %d has other times", n, s, begin)
				case s == begin && r.kind != kindComplete && r.kind != kindBegin,
					s > begin && r.kind != kindContinue && r.kind != kindEnd:
					return nil, fmt.Errorf("%d.data: record %d of the value at %d is of kind %d", n, s, begin, r.kind)
				}
				v.Data = append(v.Data, r.data...)
				if r.kind == kindComplete || r.kind == kindEnd {
					s++
					break
				}
			}
			if v.End < end {
				out = append(out, v)
			}
		}
	}
	return out, nil
}

// Append stores the value, which has to be newer than the others, in the metric
// of the directory. Records of new files are of the given size; they have room
// for the number of records; with more than files further ones, the oldest file
// is removed.
func Append(dir string, size, capacity, files int, v Value) error {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	first, last, err := numbers(dir)
	if err != nil {
		return err
	}
	create := func(n int) file {
		f := file{path: dataFile(dir, n), b: make([]byte, size*(capacity+1)), cap: capacity}
		f.meta = Meta{Size: size, Head: capacity - 1}
		return f
	}
	var f file
	if last == 0 {
		f = create(1)
	} else if f, err = load(dataFile(dir, last)); err != nil {
		return err
	}
	count := func() int {
		c := f.meta.Size - Header
		if len(v.Data) == 0 {
			return 1
		}
		return (len(v.Data) + c - 1) / c
	}
	head := f.head() + 1
	if head < count() {
		for files > 0 && last-first >= files {
			if err := os.Remove(dataFile(dir, first)); err != nil {
				return err
			}
			first++
		}
		f = create(last + 1)
		head = f.cap
	}
	if head == f.cap {
		f.meta.Start, f.meta.MinEnd = v.Start, v.End
	}
	nr := count()
	chunk := f.meta.Size - Header
	for i, d := 0, v.Data; i < nr; i++ {
		r := record{kind: kindContinue, start: v.Start, end: v.End, data: d}
		if len(d) > chunk {
			r.data = d[:chunk]
		}
		d = d[len(r.data):]
		switch {
		case nr == 1:
			r.kind = kindComplete
		case i == 0:
			r.kind = kindBegin
		case i == nr-1:
			r.kind = kindEnd
		}
		writeRecord(f.slot(head-nr+i), r)
	}
	f.meta.Head = head - nr - 1
	f.meta.End = v.End
	if v.End < f.meta.MinEnd {
		f.meta.MinEnd = v.End
	}
	writeMeta(f.b, f.meta)
	return os.WriteFile(f.path, f.b, 0644)
}

// Field is a field of a protobuf message.
type Field struct {
	Num, Wire int
	Int       uint64
	Data      []byte
}

// Fields splits a protobuf message.
func Fields(b []byte) (out []Field, err error) {
	for len(b) > 0 {
		key, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errors.New("damaged key")
		}
		b = b[n:]
		f := Field{Num: int(key >> 3), Wire: int(key & 7)}
		switch f.Wire {
		case 0:
			if f.Int, n = binary.Uvarint(b); n <= 0 {
				return nil, errors.New("damaged number")
			}
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return nil, errors.New("damaged fixed number")
			}
			f.Int, b = binary.LittleEndian.Uint64(b), b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || l > uint64(len(b)-n) {
				return nil, errors.New("damaged bytes")
			}
			f.Data, b = b[n:n+int(l)], b[n+int(l):]
		default:
			return nil, fmt.Errorf("wire type %d", f.Wire)
		}
		out = append(out, f)
	}
	return out, nil
}

// Record is an aggregated record.
type Record struct {
	Start, End, Obs int64
	Dist            []byte
	Kind            string
	Min, Max        float64
	MinID, MaxID    []byte
	Merged          int64
}

// Encode is the stored form of the record: fields without a value are left out.
func (r Record) Encode() (b []byte) {
	num := func(field int, v int64) {
		if v != 0 {
			b = binary.AppendUvarint(append(b, byte(field<<3)), uint64(v))
		}
	}
	bytes := func(field int, v []byte) {
		if len(v) > 0 {
			b = append(binary.AppendUvarint(append(b, byte(field<<3|2)), uint64(len(v))), v...)
		}
	}
	float := func(field int, v float64) {
		if v != 0 {
			b = binary.LittleEndian.AppendUint64(append(b, byte(field<<3|1)), math.Float64bits(v))
		}
	}
	num(1, r.Start)
	num(2, r.End)
	num(3, r.Obs)
	bytes(4, r.Dist)
	bytes(5, []byte(r.Kind))
	float(6, r.Min)
	float(7, r.Max)
	bytes(8, r.MinID)
	bytes(9, r.MaxID)
	num(10, r.Merged)
	return b
}

// DecodeRecord reads the stored form of a record.
func DecodeRecord(b []byte) (r Record, err error) {
	fs, err := Fields(b)
	if err != nil {
		return r, err
	}
	for _, f := range fs {
		wire := 0
		switch f.Num {
		case 1:
			r.Start = int64(f.Int)
		case 2:
			r.End = int64(f.Int)
		case 3:
			r.Obs = int64(f.Int)
		case 4:
			r.Dist, wire = f.Data, 2
		case 5:
			r.Kind, wire = string(f.Data), 2
		case 6:
			r.Min, wire = math.Float64frombits(f.Int), 1
		case 7:
			r.Max, wire = math.Float64frombits(f.Int), 1
		case 8:
			r.MinID, wire = f.Data, 2
		case 9:
			r.MaxID, wire = f.Data, 2
		case 10:
			r.Merged = int64(f.Int)
		default:
			wire = f.Wire
		}
		if f.Wire != wire {
			return r, fmt.Errorf("field %d has wire type %d", f.Num, f.Wire)
		}
	}
	return r, nil
}

// Centroid is a part of a t-digest.
type Centroid struct {
	Mean  float64
	Count uint32
}

// EncodeDigest is the stored form of a t-digest.
func EncodeDigest(compression float64, cs []Centroid) (b []byte) {
	b = binary.BigEndian.AppendUint32(b, 2)
	b = binary.BigEndian.AppendUint64(b, math.Float64bits(compression))
	b = binary.BigEndian.AppendUint32(b, uint32(len(cs)))
	x := 0.0
	for _, c := range cs {
		b = binary.BigEndian.AppendUint32(b, math.Float32bits(float32(c.Mean-x)))
		x = c.Mean
	}
	for _, c := range cs {
		b = binary.AppendUvarint(b, uint64(c.Count))
	}
	return b
}

// DecodeDigest reads the stored form of a t-digest.
func DecodeDigest(b []byte) (compression float64, cs []Centroid, err error) {
	if len(b) < 16 || binary.BigEndian.Uint32(b) != 2 {
		return 0, nil, errors.New("damaged header")
	}
	compression = math.Float64frombits(binary.BigEndian.Uint64(b[4:]))
	n := int(binary.BigEndian.Uint32(b[12:]))
	if b = b[16:]; len(b) < 5*n {
		return 0, nil, errors.New("too short")
	}
	x := 0.0
	for i := 0; i < n; i++ {
		x += float64(math.Float32frombits(binary.BigEndian.Uint32(b)))
		cs = append(cs, Centroid{Mean: x})
		b = b[4:]
	}
	for i := range cs {
		v, k := binary.Uvarint(b)
		if k <= 0 || v > math.MaxUint32 {
			return 0, nil, errors.New("damaged count")
		}
		cs[i].Count = uint32(v)
		b = b[k:]
	}
	if len(b) > 0 {
		return 0, nil, errors.New("too long")
	}
	return compression, cs, nil
}
