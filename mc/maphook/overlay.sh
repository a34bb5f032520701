#!/bin/bash
# overlay.sh DIR : writes DIR/overlay.json, an overlay of the Go runtime in which the order of every map
# iteration is chosen by runtime.VerifMapOrder while it is set.
set -eu
D="$1"
R="$(go env GOROOT)/src"
T="$R/internal/runtime/maps/table.go"
M="$R/internal/runtime/maps/map.go"
G="$R/runtime/map.go"
sed -e 's|^\tit.clearSeq = m.clearSeq$|&\n\tif VerifOrder != nil { it.verifInit() }|' \
    -e 's|^\t\t\tk := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots$|&\n\t\t\tif it.dirOffset == verifPacked { k = uintptr(it.entryOffset>>(4*it.entryIdx)) \& 7 }|' "$T" > "$D/table.go"
cat >> "$D/table.go" <<'G'

// VerifOrder chooses among n orders of an iteration. VerifSeed is the hash seed of maps made while
// VerifOrder is set.
var VerifOrder func(n int) int

const VerifSeed = 12345

const verifPacked = 1<<63 + 0x5eed

func (it *Iter) verifInit() {
	if it.m.dirLen > 0 {
		it.dirOffset = 0
		cap := uint64(0)
		for i := uintptr(0); i < uintptr(it.m.dirLen); i++ {
			if c := uint64(it.m.directoryAt(i).capacity); c > cap {
				cap = c
			}
		}
		n := int(min(cap, 16))
		it.entryOffset = uint64(VerifOrder(n)) * (cap / uint64(n))
		return
	}
	var live [8]uint64
	n := 0
	var rest [8]uint64
	r := 0
	for i := uintptr(0); i < abi.MapGroupSlots; i++ {
		if (it.group.ctrls().get(i) & ctrlEmpty) == ctrlEmpty {
			rest[r] = uint64(i)
			r++
		} else {
			live[n] = uint64(i)
			n++
		}
	}
	var perm [8]uint64
	if n <= 5 {
		// every permutation
		f := 1
		for i := 2; i <= n; i++ {
			f *= i
		}
		c := 0
		if n > 1 {
			c = VerifOrder(f)
		}
		for i := 0; i < n; i++ {
			f /= n - i
			j := c / f
			c %= f
			perm[i] = live[j]
			for ; j+1 < n; j++ {
				live[j] = live[j+1]
			}
		}
	} else {
		// every rotation, reversed rotation and exchange of two
		c := VerifOrder(2*n + n*(n-1)/2)
		for i := 0; i < n; i++ {
			switch {
			case c < n:
				perm[i] = live[(i+c)%n]
			case c < 2*n:
				perm[i] = live[(2*n-1-i+c)%n]
			default:
				perm[i] = live[i]
			}
		}
		if c >= 2*n {
			c -= 2 * n
			for a := 0; a < n; a++ {
				for b := a + 1; b < n; b++ {
					if c == 0 {
						perm[a], perm[b] = live[b], live[a]
					}
					c--
				}
			}
		}
	}
	for i := 0; i < r; i++ {
		perm[n+i] = rest[i]
	}
	it.entryOffset = 0
	for i := 7; i >= 0; i-- {
		it.entryOffset = it.entryOffset<<4 | perm[i]
	}
	it.dirOffset = verifPacked
}
G
sed -e 's|^\tm.seed = uintptr(rand())$|&\n\tif VerifOrder != nil { m.seed = VerifSeed }|' "$M" > "$D/map.go"
cp "$G" "$D/rtmap.go"
cat >> "$D/rtmap.go" <<'G'

func VerifMapOrder(f func(n int) int) { maps.VerifOrder = f }
G
# every patch must have been applied
[ "$(grep -c 'verifInit() }' "$D/table.go")" = 1 ]
[ "$(grep -c 'it.dirOffset == verifPacked' "$D/table.go")" = 1 ]
[ "$(grep -c 'm.seed = VerifSeed' "$D/map.go")" -ge 2 ]
printf '{"Replace":{"%s":"%s","%s":"%s","%s":"%s"}}\n' "$T" "$D/table.go" "$M" "$D/map.go" "$G" "$D/rtmap.go" > "$D/overlay.json"
