package c11

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"os"
	"slices"
	"strconv"
	"sync"
	"testing"

	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	"pgregory.net/rapid"
	"verif.local/gofercheck/h"
)

// A child process prints n UUIDs and n 64-bit ids made by g goroutines.
func TestMain(m *testing.M) {
	if s := os.Getenv("C11_CHILD"); s != "" {
		var n, g int
		fmt.Sscanf(s, "%d,%d", &n, &g)
		ids, nums := produce(n, g)
		w := bufio.NewWriter(os.Stdout)
		w.WriteString("IDS\n")
		for _, u := range ids {
			w.Write(u[:])
		}
		for _, x := range nums {
			binary.Write(w, binary.BigEndian, x)
		}
		w.Flush()
		os.Exit(0)
	}
	h.Main(m)
}

func produce(n, g int) (ids []uuid.UUID, nums []int64) {
	ids, nums = make([]uuid.UUID, n), make([]int64, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		lo, hi := n*i/g, n*(i+1)/g
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := lo; k < hi; k++ {
				ids[k] = *uuid.NewUUID()
				nums[k] = util.UUID64()
			}
		}()
	}
	close(start)
	wg.Wait()
	return
}

func cmpUUID(a, b uuid.UUID) int {
	x, y := binary.BigEndian.Uint64(a[:8]), binary.BigEndian.Uint64(b[:8])
	if x != y {
		if x < y {
			return -1
		}
		return 1
	}
	x, y = binary.BigEndian.Uint64(a[8:]), binary.BigEndian.Uint64(b[8:])
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func verify(t *rapid.T, c *h.C, ids []uuid.UUID, nums []int64) {
	for _, u := range ids {
		if u[6]>>4 != 4 || u[8]>>6 != 2 {
			h.Must(t, c, false, "UUID %x does not carry the version-4 and RFC-4122 marks", u)
		}
	}
	slices.SortFunc(ids, cmpUUID)
	for i := 1; i < len(ids); i++ {
		if ids[i] == ids[i-1] {
			h.Must(t, c, false, "the UUID %s was generated twice among %d", ids[i].String(), len(ids))
		}
	}
	slices.Sort(nums)
	for i := 1; i < len(nums); i++ {
		if nums[i] == nums[i-1] {
			h.Must(t, c, false, "the 64-bit id %d was generated twice among %d", nums[i], len(nums))
		}
	}
}

// Within one process; the 64-bit ids of earlier cases count too.
func TestOneProcess(t *testing.T) {
	var oldIDs []uuid.UUID
	var oldNums []int64
	max := 1 << 20
	h.Check(t, 24, 80, func(t *rapid.T, c *h.C) {
		g := rapid.IntRange(1, 16).Draw(t, "goroutines")
		n := rapid.IntRange(1000, 200000).Draw(t, "n")
		c.Note("%d goroutines, %d ids each way", g, n)
		c.NonTrivialIf(g > 1)
		ids, nums := produce(n, g)
		if len(oldIDs)+n > max {
			oldIDs, oldNums = nil, nil
		}
		oldIDs, oldNums = append(oldIDs, ids...), append(oldNums, nums...)
		verify(t, c, slices.Clone(oldIDs), slices.Clone(oldNums))
	})
}

// Several processes at the same time.
func TestManyProcesses(t *testing.T) {
	h.Check(t, 6, 24, func(t *rapid.T, c *h.C) {
		np := rapid.IntRange(2, 8).Draw(t, "processes")
		n := rapid.IntRange(100, 1600000).Draw(t, "idsOverAll") / np
		g := rapid.IntRange(1, 8).Draw(t, "goroutines")
		c.Note("%d processes, %d goroutines, %d ids each", np, g, n)
		c.NonTrivial()
		outs := make([][]byte, np)
		errs := make([]error, np)
		var wg sync.WaitGroup
		for i := range outs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				outs[i], errs[i] = h.Child("C11_CHILD="+strconv.Itoa(n)+","+strconv.Itoa(g), nil)
			}()
		}
		wg.Wait()
		var ids []uuid.UUID
		var nums []int64
		for i, o := range outs {
			why := h.ChildError(errs[i])
			h.Must(t, c, why == "", "process %d: %s", i, why)
			if len(o) != 4+n*24 || string(o[:4]) != "IDS\n" {
				panic(fmt.Sprintf("HARNESS-ERROR child %d: %d bytes: %.2000s", i, len(o), o))
			}
			o = o[4:]
			for k := 0; k < n; k++ {
				ids = append(ids, uuid.UUID(o[k*16:k*16+16]))
			}
			for k := 0; k < n; k++ {
				nums = append(nums, int64(binary.BigEndian.Uint64(o[n*16+k*8:])))
			}
		}
		verify(t, c, ids, nums)
	})
}

// The 32-bit ids cannot all differ, but they are spread over their range: few
// repeat among thousands, and every bit is set about half of the time.
func TestSpread32(t *testing.T) {
	h.Check(t, 20, 100, func(t *rapid.T, c *h.C) {
		g := rapid.IntRange(1, 8).Draw(t, "goroutines")
		n := rapid.IntRange(4000, 20000).Draw(t, "n")
		c.Note("%d goroutines, %d 32-bit ids", g, n)
		c.NonTrivialIf(g > 1)
		ids := make([]uint32, n)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			lo, hi := n*i/g, n*(i+1)/g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := lo; k < hi; k++ {
					ids[k] = util.UUID32()
				}
			}()
		}
		wg.Wait()
		var set [32]int
		for _, x := range ids {
			for b := range set {
				set[b] += int(x >> b & 1)
			}
		}
		// a fair bit strays by 10 % of the ids with probability below 1e-35
		for b, k := range set {
			h.Must(t, c, k > n*4/10 && k < n*6/10, "bit %d is set in %d of %d 32-bit ids", b, k, n)
		}
		slices.Sort(ids)
		// fewer than 0.05 repeats are expected among 20000 ids of 32 bits
		distinct := len(slices.Compact(ids))
		h.Must(t, c, distinct >= n-10, "only %d of %d 32-bit ids are distinct", distinct, n)
	})
}
