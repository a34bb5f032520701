package main

import (
	"encoding/binary"
	"sort"
)

// moMsg is one record of an MO file as raw strings (context, plural and NUL already joined in).
type moMsg struct{ id, str string }

type moLayout struct {
	big        bool
	strFirst   bool // translation table before the id table
	dataFirst  bool // strings before the tables
	pad        int  // filler bytes between parts
	hash       int  // size of the (zeroed) hash table
	interleave bool // strings laid out id0 str0 id1 str1 …
	reverse    bool // strings laid out in reverse order
	unsorted   bool // records in the given order
	share      bool // equal strings stored once
	minor      uint16
}

func moBytes(msgs []moMsg, l moLayout) []byte {
	m := append([]moMsg(nil), msgs...)
	if !l.unsorted {
		sort.SliceStable(m, func(i, j int) bool { return m[i].id < m[j].id })
	}
	n := len(m)
	var bo binary.ByteOrder = binary.LittleEndian
	if l.big {
		bo = binary.BigEndian
	}
	// strings
	var data []byte
	off := make([][2]int, 2*n) // id entries, then translations: relative offset, length
	seen := map[string]int{}
	put := func(k int, s string) {
		if l.share {
			if p, ok := seen[s]; ok {
				off[k] = [2]int{p, len(s)}
				return
			}
			seen[s] = len(data)
		}
		off[k] = [2]int{len(data), len(s)}
		data = append(data, s...)
		data = append(data, 0)
		for i := 0; i < l.pad; i++ {
			data = append(data, 'P')
		}
	}
	order := make([]int, 0, 2*n)
	for i := 0; i < n; i++ {
		if l.interleave {
			order = append(order, i, n+i)
		} else {
			order = append(order, i)
		}
	}
	if !l.interleave {
		for i := 0; i < n; i++ {
			order = append(order, n+i)
		}
	}
	if l.reverse {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, k := range order {
		if k < n {
			put(k, m[k].id)
		} else {
			put(k, m[k-n].str)
		}
	}
	pos := 28 + l.pad
	var dataPos, idPos, strPos, hashPos int
	if l.dataFirst {
		dataPos = pos
		pos += len(data) + l.pad
	}
	place := func(p *int, size int) { *p = pos; pos += size + l.pad }
	if l.strFirst {
		place(&strPos, 8*n)
		place(&idPos, 8*n)
	} else {
		place(&idPos, 8*n)
		place(&strPos, 8*n)
	}
	place(&hashPos, 4*l.hash)
	if !l.dataFirst {
		dataPos = pos
		pos += len(data)
	}
	out := make([]byte, pos)
	for i := range out {
		if i >= 28 {
			out[i] = 'p'
		}
	}
	w := func(at int, v int) { bo.PutUint32(out[at:], uint32(v)) }
	w(0, 0x950412de)
	bo.PutUint16(out[4:], 0)
	bo.PutUint16(out[6:], 0)
	if l.minor != 0 {
		w(4, int(l.minor))
	}
	w(8, n)
	w(12, idPos)
	w(16, strPos)
	w(20, l.hash)
	w(24, hashPos)
	for i := 0; i < n; i++ {
		w(idPos+8*i, off[i][1])
		w(idPos+8*i+4, dataPos+off[i][0])
		w(strPos+8*i, off[n+i][1])
		w(strPos+8*i+4, dataPos+off[n+i][0])
	}
	for i := 0; i < 4*l.hash; i++ {
		out[hashPos+i] = 0
	}
	copy(out[dataPos:], data)
	return out
}
