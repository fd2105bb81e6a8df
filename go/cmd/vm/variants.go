package main

import (
	"bytes"
	"fmt"
	"sync"

	"github.com/Fantom-foundation/Tosca/go/tosca"

	"verif/pbt"
	"verif/prog"
	"verif/ref"
	. "verif/vmrun"
)

// recent keeps earlier cases of this process, to be run again later.
type done struct {
	c    *prog.Case
	want Outcome
}

func genCase(t *pbt.T, m prog.Mix, size int) (*prog.Case, Outcome) {
	rev := Rev(t)
	env := prog.NewEnv(t)
	c := prog.Setup(t, env, rev, t.Chance(1, 12))
	if t.Chance(1, 8) {
		c.Par.Code = prog.Random(t)
	} else {
		c.Par.Code = prog.Program(t, env, rev, m, size)
	}
	if t.Chance(3, 4) {
		h := tosca.Hash(ref.Keccak(c.Par.Code))
		c.Par.CodeHash = &h
	}
	return c, Gas(t, c)
}

// variants: the outcome of a run depends neither on the configuration of the
// interpreter nor on what the instance has run before; results stay untouched
// by later runs.
func variants(m prog.Mix) pbt.Check {
	return func(t *pbt.T) {
		n := t.Range(2, 5)
		var cs []done
		for i := 0; i < n; i++ {
			if i > 0 && t.Chance(1, 3) { // the same code with another environment
				o := cs[t.N(len(cs))].c
				c := prog.Setup(t, o.Env, o.Par.Revision, t.Chance(1, 12))
				if t.Bool() {
					c.Par.Revision = Rev(t)
					c.World.Rev = c.Par.Revision
				}
				c.Par.Code, c.Par.CodeHash = o.Par.Code, o.Par.CodeHash
				cs = append(cs, done{c, Gas(t, c)})
				continue
			}
			c, want := genCase(t, m, 10)
			cs = append(cs, done{c, want})
		}
		var sched []int
		for i := 0; i < n+t.N(6); i++ {
			if i < n {
				sched = append(sched, i)
			} else {
				sched = append(sched, t.N(n))
			}
		}
		t.NonTrivial(pbt.Hash(cs[0].c.Par.Code))
		t.Labelf("runs:%d", len(sched))
		t.Sample(func() string {
			return fmt.Sprintf("schedule %v of codes %x %x", sched, cs[0].c.Par.Code, cs[1].c.Par.Code)
		})
		for _, vm := range vms {
			var outs []tosca.Result
			var copies [][]byte
			for pos, i := range sched {
				got := RunVM(t, vm, cs[i].c)
				name := vm.Name
				if pos >= n {
					name += " (again)"
				}
				Compare(t, name, cs[i].c, cs[i].want, got)
				outs = append(outs, got.Res)
				copies = append(copies, bytes.Clone(got.Res.Output))
			}
			for i := range outs {
				t.Check(bytes.Equal(outs[i].Output, copies[i]), vm.Name+": result changed later", "the output of run %d changed from %x to %x by later runs", i, copies[i], []byte(outs[i].Output))
			}
		}
	}
}

// parallel: one instance serves many goroutines at once.
func parallel(t *pbt.T) {
	n := t.Range(2, 6)
	m := prog.Default
	m.Sha = 6
	var cs []done
	for i := 0; i < n; i++ {
		c, want := genCase(t, m, 8)
		cs = append(cs, done{c, want})
	}
	workers := t.Range(2, 6)
	var sched [][]int
	for w := 0; w < workers; w++ {
		var s []int
		for i := 0; i < 4+t.N(12); i++ {
			s = append(s, t.N(n))
		}
		sched = append(sched, s)
	}
	t.NonTrivial(pbt.Hash(cs[0].c.Par.Code))
	t.Labelf("workers:%d", workers)
	t.Sample(func() string {
		return fmt.Sprintf("%d goroutines, schedule %v, first code %x", workers, sched, cs[0].c.Par.Code)
	})
	for _, vm := range vms {
		it := vm
		if t.Bool() { // a fresh instance has cold caches
			it = Get(vm.Name)[0]
		}
		outs := make([][]Outcome, workers)
		bad := make([]any, workers)
		var wg sync.WaitGroup
		start, hold := make(chan struct{}), make(chan struct{})
		for w := range sched {
			wg.Add(1)
			go func() {
				defer func() { <-hold }() // the race detector forgets about ended goroutines
				defer wg.Done()
				defer func() { bad[w] = recover() }()
				<-start
				for _, i := range sched[w] {
					outs[w] = append(outs[w], RunRaw(it, cs[i].c))
				}
			}()
		}
		close(start)
		wg.Wait()
		close(hold)
		for w := range sched {
			t.Check(bad[w] == nil, vm.Name+": panic in parallel", "%v", bad[w])
			for k, i := range sched[w] {
				Compare(t, vm.Name+" (parallel)", cs[i].c, cs[i].want, outs[w][k])
			}
		}
	}
}
