// Property check for the C++ coverage bridge (go/lib/cpp, cpp/common/coverage).
// Runs a driver process per generated script and compares the execution counts
// reported by gcov with the calls the script made.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"verif/pbt"
)

func main() {
	pbt.Main(map[string]pbt.Check{"coverage-dump": coverageDump})
}

func counts(t *pbt.T, dir, prefix, name string) (map[string]int, bool) {
	// With GCOV_PREFIX the data file lands below the prefix at the object's own path.
	var gcda string
	_ = filepath.Walk(prefix, func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".gcda") && strings.Contains(filepath.Base(p), name) {
			gcda = p
		}
		return nil
	})
	if gcda == "" {
		return nil, false
	}
	work, err := os.MkdirTemp(prefix, "gcov")
	if err != nil {
		panic(err)
	}
	base := strings.TrimSuffix(filepath.Base(gcda), ".gcda")
	for _, f := range []string{filepath.Join(dir, base+".gcno"), gcda} {
		data, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(work, filepath.Base(f)), data, 0644); err != nil {
			panic(err)
		}
	}
	cmd := exec.Command("gcov", "--json-format", "--stdout", filepath.Join(work, base+".gcda"))
	cmd.Dir = work
	out, err := cmd.Output()
	if err != nil {
		t.Failf("gcov-unreadable", "gcov cannot read the dumped data of %s: %v", name, err)
	}
	var doc struct {
		Files []struct {
			Functions []struct {
				Name  string `json:"name"`
				Count int    `json:"execution_count"`
			} `json:"functions"`
		} `json:"files"`
	}
	if err := json.Unmarshal(out, &doc); err != nil {
		panic(err)
	}
	res := map[string]int{}
	for _, f := range doc.Files {
		for _, fn := range f.Functions {
			res[fn.Name] = fn.Count
		}
	}
	return res, true
}

func coverageDump(t *pbt.T) {
	root := os.Getenv("COV_DIR")
	instrumented := !t.Chance(1, 4)
	dir := filepath.Join(root, "on")
	if !instrumented {
		dir = filepath.Join(root, "off")
	}
	prefix, err := os.MkdirTemp(root, "case")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(prefix)
	want := map[string]int{}
	dumped := false
	loadedAtDump := false
	runs := t.Range(1, 3)
	scripts := []string{}
	nCalls := 0
	for r := 0; r < runs; r++ {
		script := []string{}
		local := map[string]int{}
		loaded := false
		for i, n := 0, t.N(14); i < n; i++ {
			switch t.Weighted(5, 5, 2, 1) {
			case 0:
				f := t.N(4)
				script = append(script, fmt.Sprintf("a%d", f))
				local[fmt.Sprintf("pa_f%d", f)]++
				nCalls++
			case 1:
				if !loaded {
					continue
				}
				f := t.N(4)
				script = append(script, fmt.Sprintf("b%d", f))
				local[fmt.Sprintf("pb_f%d", f)]++
				nCalls++
			case 2:
				script = append(script, "L")
				loaded = true
			case 3:
				script = append(script, "E")
			}
		}
		if !t.Chance(1, 5) { // the application ends with a dump (or several)
			script = append(script, "D")
			for t.Chance(1, 3) {
				script = append(script, pbt.Pick(t, []string{"D", "E"}))
			}
			dumped = true
			loadedAtDump = loadedAtDump || loaded
			for k, v := range local {
				want[k] += v
			}
		}
		scripts = append(scripts, strings.Join(script, " "))
		cmd := exec.Command(filepath.Join(dir, "driver"), script...)
		cmd.Env = append(os.Environ(), "GCOV_PREFIX="+prefix, "PAYLOAD_B="+filepath.Join(dir, "libpayload_b.so"))
		out, err := cmd.CombinedOutput()
		t.Sample(func() string {
			return fmt.Sprintf("instrumented %t: runs [%s], counts %v", instrumented, strings.Join(scripts, "] ["), want)
		})
		t.Check(err == nil, "driver", "driver failed on %v: %v %s", script, err, out)
		text := strings.TrimSpace(string(out))
		wantText := strings.TrimSpace(strings.Repeat(fmt.Sprintf("enabled %t\n", instrumented), strings.Count(strings.Join(script, " "), "E")))
		t.Check(text == wantText, "enabled", "instrumented build %t, script %v reported %q", instrumented, script, text)
	}
	for _, p := range []string{"a", "b"} {
		got, found := counts(t, dir, prefix, "payload_"+p)
		expectFile := instrumented && dumped && (p == "a" || loadedAtDump)
		t.Check(found == expectFile, "file", "instrumented %t, runs [%s]: data file for payload %s present: %t, expected %t",
			instrumented, strings.Join(scripts, "] ["), p, found, expectFile)
		if !found {
			continue
		}
		for i := 0; i < 4; i++ {
			n := fmt.Sprintf("p%s_f%d", p, i)
			t.Check(got[n] == want[n], "counts", "runs [%s]: %s reported as executed %d times, expected %d",
				strings.Join(scripts, "] ["), n, got[n], want[n])
		}
	}
	if instrumented {
		t.Label("instrumented")
	} else {
		t.Label("not-instrumented")
	}
	t.Labelf("runs-%d", runs)
	if loadedAtDump {
		t.Label("dlopened-library")
	}
	if dumped && nCalls > 0 {
		t.NonTrivial(pbt.HashString(strings.Join(scripts, "|") + fmt.Sprint(instrumented)))
	}
}
