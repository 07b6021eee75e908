// Package htfd drives the scalar and vector lanes.
package htfd

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"unsafe"

	"vsa/internal/zzverif/kit"
	"vsa/plugin/tfd"
)

const mulC = 0x9e3779b97f4a7c15

// cellGen draws cells: few and hot, colliding in every way the packing allows, extreme, or all different.
type cellGen struct {
	c    *kit.C
	mode int
	pool [][2]uint64
}

// pack is the packing of the current code; it only steers generation towards collisions.
func pack(k, b uint64) uint64 { return (b << 1) ^ (k * mulC) }

func newCells(c *kit.C, n int) *cellGen {
	g := &cellGen{c: c, mode: c.IntN(6)}
	base := [2]uint64{c.Uint64(), c.Uint64()}
	for i := 0; i < n; i++ {
		var x [2]uint64
		switch g.mode {
		case 0: // small ids
			x = [2]uint64{uint64(c.IntN(6)), uint64(c.IntN(6))}
		case 1: // equal packed ids
			k := c.Uint64()
			t := pack(base[0], base[1]) ^ (k * mulC)
			if t&1 == 1 {
				k ^= 1
				t = pack(base[0], base[1]) ^ (k * mulC)
			}
			x = [2]uint64{k, t >> 1}
			if c.Pct(50) {
				x[1] |= 1 << 63
			}
		case 2: // equal low bits, different cells
			x = [2]uint64{base[0], base[1] + uint64(i)<<uint(c.Range(20, 62))}
		case 3: // packs to zero, and extremes
			e := []uint64{0, 1, 1 << 63, math.MaxUint64, 1<<63 - 1, 2}
			x = [2]uint64{e[c.IntN(len(e))], e[c.IntN(len(e))]}
			if c.Pct(30) {
				k := uint64(c.IntN(100)) * 2
				x = [2]uint64{k, (k * mulC) >> 1}
			}
		case 4: // one key, many buckets, or one bucket, many keys
			if c.Pct(50) {
				x = [2]uint64{base[0], c.Uint64() % 50}
			} else {
				x = [2]uint64{c.Uint64() % 50, base[1]}
			}
		default:
			x = [2]uint64{c.Uint64(), c.Uint64()}
		}
		g.pool = append(g.pool, x)
	}
	return g
}

func (g *cellGen) next() [2]uint64 { return g.pool[g.c.IntN(len(g.pool))] }

func delta(c *kit.C) int64 {
	switch c.IntN(12) {
	case 0:
		return kit.Pick(c, int64(0), math.MaxInt64, math.MinInt64, -1, 1, 1<<62)
	case 1:
		return int64(c.Uint64())
	default:
		return c.I64(-50, 100)
	}
}

func seq(c *kit.C) uint64 {
	switch c.IntN(10) {
	case 0:
		return kit.Pick(c, uint64(0), math.MaxUint64, 1<<63, 1<<63-1)
	case 1:
		return c.Uint64()
	default:
		return uint64(c.IntN(1000))
	}
}

func senv(cell [2]uint64, d int64, s uint64) tfd.Envelope {
	return tfd.Envelope{Channel: tfd.ChannelScalar, Footprint: tfd.Footprint{KeyID: cell[0], Time: tfd.TimeFootprint{BucketID: cell[1]}}, Delta: d, SeqEnd: s}
}

// tally is per cell the net (modulo 2^64, as int64 sums are) and the highest sequence number.
type tally map[[2]uint64]*struct {
	net int64
	seq uint64
	n   int
}

func (t tally) add(cell [2]uint64, d int64, s uint64) {
	e := t[cell]
	if e == nil {
		e = &struct {
			net int64
			seq uint64
			n   int
		}{}
		t[cell] = e
	}
	e.net += d
	e.n++
	if s > e.seq {
		e.seq = s
	}
}

func (t tally) batches(bs []tfd.SBatch) {
	for _, b := range bs {
		t.add([2]uint64{b.KeyID, b.BucketID}, b.NetDelta, b.SeqEnd)
	}
}

// diff compares what came out with what went in.
func diff(in, out tally) string {
	for k, e := range in {
		o := out[k]
		if o == nil {
			if e.net == 0 {
				continue
			}
			return fmt.Sprintf("cell %x: net %d (seq %d) went in, nothing came out", k, e.net, e.seq)
		}
		if o.net != e.net || o.seq != e.seq {
			return fmt.Sprintf("cell %x: net %d (seq %d) went in, net %d (seq %d) came out", k, e.net, e.seq, o.net, o.seq)
		}
	}
	for k, o := range out {
		if in[k] == nil {
			return fmt.Sprintf("cell %x: nothing went in, net %d (seq %d) came out", k, o.net, o.seq)
		}
	}
	return ""
}

type keyFlusher interface {
	FlushKey(uint64, *[]tfd.SBatch)
}

// shardsOf finds the accumulator's shards, to drive their per-key flush; nil if the code has none.
func shardsOf(a *tfd.SAccumulator) []keyFlusher {
	v := reflect.ValueOf(a).Elem()
	if v.Kind() != reflect.Struct {
		return nil
	}
	var out []keyFlusher
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() != reflect.Slice {
			continue
		}
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		for j := 0; j < f.Len(); j++ {
			e := f.Index(j)
			if e.Kind() == reflect.Struct {
				e = e.Addr()
			}
			if s, ok := e.Interface().(keyFlusher); ok {
				out = append(out, s)
			}
		}
	}
	return out
}

func sortBatches(bs []tfd.SBatch) []tfd.SBatch {
	out := append([]tfd.SBatch{}, bs...)
	sort.Slice(out, func(i, j int) bool {
		if out[i].KeyID != out[j].KeyID {
			return out[i].KeyID < out[j].KeyID
		}
		return out[i].BucketID < out[j].BucketID
	})
	return out
}
