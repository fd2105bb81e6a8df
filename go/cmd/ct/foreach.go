package main

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	. "github.com/Fantom-foundation/Tosca/go/ct/common"
	"github.com/Fantom-foundation/Tosca/go/ct/rlz"
	"github.com/Fantom-foundation/Tosca/go/ct/spc"
	"github.com/Fantom-foundation/Tosca/go/ct/st"
	"pgregory.net/rand"

	"verif/gen"
	"verif/pbt"
)

// stateHash identifies a state by most of its parts.
func stateHash(s *st.State) uint64 {
	var b []byte
	for i := 0; i < s.Stack.Size(); i++ {
		w := s.Stack.Get(i).Bytes32be()
		b = append(b, w[:]...)
	}
	self := s.CallContext.AccountAddress
	bal := s.Accounts.GetBalance(self).Bytes32be()
	for _, part := range [][]byte{s.Code.Copy(), s.CallData.ToBytes(), s.LastCallReturnData.ToBytes(), s.ReturnData.ToBytes(), s.Memory.Read(0, uint64(s.Memory.Size())), bal[:]} {
		b = binary.BigEndian.AppendUint64(b, pbt.Hash(part))
	}
	for i := 0; i < min(3, s.Stack.Size()); i++ {
		k := s.Stack.Get(i)
		for _, v := range []U256{s.Storage.GetCurrent(k), s.Storage.GetOriginal(k), s.TransientStorage.Get(k)} {
			w := v.Bytes32be()
			b = append(b, w[:]...)
		}
		if s.Storage.IsWarm(k) {
			b = append(b, 1)
		}
	}
	return pbt.Hash(b) ^ pbt.HashString(fmt.Sprint(s.Status, s.Gas, s.GasRefund, s.Pc, s.Revision, s.ReadOnly, s.Stack.Size(), s.CallContext, s.BlockContext, s.TransactionContext.OriginAddress, s.HasSelfDestructed))
}

// spoil changes a state in all its parts.
func spoil(s *st.State, v uint64) {
	w := NewU256(v)
	s.Gas += 7
	s.Pc++
	s.Status = st.Failed
	if s.Stack.Size() > 0 {
		s.Stack.Set(0, w)
		s.Stack.Pop()
	}
	s.Stack.Push(w)
	s.Memory.Write([]byte{1, 2, 3}, 40)
	s.Storage.SetCurrent(w, w)
	s.Storage.MarkWarm(w)
	s.TransientStorage.Set(w, w)
	s.Accounts.SetBalance(s.CallContext.AccountAddress, w)
	s.Accounts.MarkWarm(s.CallContext.CallerAddress)
	s.Logs.AddLog([]byte{9}, w)
	s.CallJournal.Past = append(s.CallJournal.Past, st.PastCall{})
	s.SelfDestructedJournal = append(s.SelfDestructedJournal, st.SelfDestructEntry{})
	s.BlockContext.BlockNumber++
	s.CallContext.Value = w
}

// forEach: enumerating the states of rules in parallel processes what a sequential enumeration gives.
func forEach(t *pbt.T) {
	w := witness(t)
	seed := t.U64()
	full := t.Bool()
	var list []rlz.Rule
	var names []string
	want := map[uint64]int{}
	total := 0
	for n := t.Weighted(1, 4, 4, 4, 4, 4, 4, 4); n > 0; n-- {
		g := &ruleGen{t: t, w: w, used: map[string]bool{}}
		for k := 1 + t.N(2); k > 0; k-- {
			g.one()
		}
		r := rlz.Rule{Name: fmt.Sprint("rule ", n), Condition: rlz.And(g.conds...)}
		size := product(distinct(r.Condition))
		for k := t.N(3); k > 0; k-- {
			var s samples
			for i := t.N(4); i > 0; i-- {
				s = append(s, toU(gen.WordBig(t)))
			}
			size *= len(s) + 1
			r.Parameter = append(r.Parameter, s)
		}
		if size > 300 {
			continue
		}
		err := r.EnumerateTestCases(rand.New(seed), func(s *st.State) rlz.ConsumerResult {
			if !full {
				if ok, err := r.Condition.Check(s); !ok || err != nil {
					return rlz.ConsumeContinue
				}
			}
			want[stateHash(s)]++
			total++
			return rlz.ConsumeContinue
		})
		t.Check(err == nil, "error of the enumeration", "%v", err)
		list = append(list, r)
		names = append(names, strings.Join(g.text, " ∧ "))
	}
	mode := t.Weighted(5, 2, 1)
	desc := fmt.Sprintf("%d rules with %d states, mode %d: %s", len(list), total, mode, strings.Join(names, "; "))
	if mode == 2 { // one of the rules cannot be enumerated
		r := rlz.Rule{Name: "broken", Condition: unbound{}}
		list = slices.Insert(list, t.N(len(list)+1), r)
	}
	jobs := 1 + t.N(16)
	if t.Chance(1, 4) {
		jobs = 1
	}
	stop := int64(-1)
	if mode == 1 {
		stop = int64(1 + t.N(total+3))
	}
	mutate, yields := t.Bool(), t.N(4)
	t.NonTrivial(pbt.HashString(desc) ^ seed ^ uint64(jobs))
	t.Labelf("mode %d", mode)
	t.Labelf("jobs %d", jobs)
	t.Labelf("states %d", min(total/20*20, 200))
	t.Sample(func() string { return fmt.Sprintf("%d jobs, %s", jobs, desc) })

	var mu sync.Mutex
	got := map[uint64]int{}
	var count, spoiled atomic.Int64
	var prints []int64
	negative := false
	op := func(s *st.State) rlz.ConsumerResult {
		n := count.Add(1)
		h := stateHash(s)
		mu.Lock()
		got[h]++
		mu.Unlock()
		for i := 0; i < yields; i++ {
			runtime.Gosched()
		}
		if stateHash(s) != h { // someone else changed it
			spoiled.Add(1)
		}
		if mutate {
			spoil(s, uint64(n))
		}
		if stop >= 0 && n >= stop {
			return rlz.ConsumeAbort
		}
		return rlz.ConsumeContinue
	}
	printer := func(d time.Duration, rate float64, n int64) {
		mu.Lock()
		defer mu.Unlock()
		prints = append(prints, n)
		negative = negative || d < 0 || rate < 0
	}
	done := make(chan error, 1)
	go func() { done <- spc.ForEachState(list, op, printer, jobs, seed, full) }()
	var err error
	select {
	case err = <-done:
	case <-time.After(100 * time.Second):
		t.Failf("enumeration does not end", "%d jobs, %s", jobs, desc)
	}
	mu.Lock()
	defer mu.Unlock()
	n := count.Load()
	t.Check(spoiled.Load() == 0, "states are shared", "%d jobs, %s", jobs, desc)
	t.Check(!negative, "progress report", "%s", desc)
	t.Check(len(prints) > 0 && prints[len(prints)-1] == n && slices.IsSorted(prints), "progress report", "%d states processed, reported %v", n, prints)
	t.Check((err != nil) == (mode == 2), "error of the enumeration", "%d jobs, %s: %v", jobs, desc, err)
	for h, k := range got {
		t.Check(k <= want[h], "unexpected state", "%d jobs, %s: %d times instead of %d", jobs, desc, k, want[h])
	}
	switch mode {
	case 0:
		t.Check(int(n) == total, "number of states", "%d jobs, %s: %d processed", jobs, desc, n)
	case 1:
		t.Check(n >= min(stop, int64(total)), "aborted too early", "%d jobs, %s: abort at %d, %d processed", jobs, desc, stop, n)
		// what was under way when the operation asked to stop: the buffered states
		t.Check(n <= stop+int64(32*jobs)+16, "abort is ignored", "%d jobs, %s: abort at %d, %d processed", jobs, desc, stop, n)
	}
}
