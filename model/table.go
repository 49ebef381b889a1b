package model

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
)

// Entry is one entry of a lookup table.
type Entry struct {
	Key  int
	Vals []string
}

// EncodeTable writes a table: the values, joined by newlines, then the entries
// in key order, as differences; lists carry their length.
func EncodeTable(es []Entry, lists bool) []byte {
	es = append([]Entry{}, es...)
	sort.Slice(es, func(i, j int) bool { return es[i].Key < es[j].Key })
	idx := map[string]int{}
	var vals []string
	for _, e := range es {
		for _, v := range e.Vals {
			if _, ok := idx[v]; !ok {
				idx[v] = 0
				vals = append(vals, v)
			}
		}
	}
	sort.Strings(vals)
	for i, v := range vals {
		idx[v] = i
	}
	joined := strings.Join(vals, "\n")
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(joined)))
	b = append(b, joined...)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(es)))
	last := 0
	for _, e := range es {
		b = binary.AppendUvarint(b, uint64(e.Key-last))
		last = e.Key
		if lists {
			b = append(b, byte(len(e.Vals)))
		}
		for _, v := range e.Vals {
			b = binary.LittleEndian.AppendUint16(b, uint16(idx[v]))
		}
	}
	return b
}

// ErrAmbiguous marks bytes whose meaning is not settled: keys that repeat or
// leave the range of integers.
var ErrAmbiguous = errors.New("ambiguous")

// DecodeTable is a strict decoder of possibly damaged bytes.
func DecodeTable(b []byte, lists bool) (map[int][]string, error) {
	short := errors.New("truncated")
	u32 := func() (int, error) {
		if len(b) < 4 {
			return 0, short
		}
		v := binary.LittleEndian.Uint32(b)
		b = b[4:]
		return int(v), nil
	}
	n, err := u32()
	if err != nil {
		return nil, err
	}
	if n > len(b) {
		return nil, short
	}
	vals := strings.Split(string(b[:n]), "\n")
	b = b[n:]
	if n, err = u32(); err != nil {
		return nil, err
	}
	out := map[int][]string{}
	var key uint64
	ambiguous := false
	for i := 0; i < n; i++ {
		d, l := binary.Uvarint(b)
		if l == 0 {
			return nil, short
		}
		if l < 0 {
			return nil, errors.New("key too long")
		}
		b = b[l:]
		sum := key + d
		if sum < key || sum > 1<<62 || i > 0 && d == 0 {
			ambiguous = true
		}
		key = sum
		k := 1
		if lists {
			if len(b) == 0 {
				return nil, short
			}
			k = int(b[0])
			b = b[1:]
		}
		vs := []string{}
		for j := 0; j < k; j++ {
			if len(b) < 2 {
				return nil, short
			}
			x := int(binary.LittleEndian.Uint16(b))
			b = b[2:]
			if x >= len(vals) {
				return nil, fmt.Errorf("value %d of %d", x, len(vals))
			}
			vs = append(vs, vals[x])
		}
		out[int(key)] = vs
	}
	if ambiguous {
		return out, ErrAmbiguous
	}
	return out, nil
}
