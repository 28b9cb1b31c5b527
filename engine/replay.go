package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type native struct {
	bin  string
	tier int
	err  error
}

// buildNative compiles the harness against the real code (same overlay).
func (e *env) buildNative() *native {
	n := &native{bin: filepath.Join(e.dir, "native")}
	repl := map[string]string{}
	i := 0
	for p, b := range e.overlay {
		f := filepath.Join(e.dir, fmt.Sprintf("ov%d.go", i))
		i++
		if n.err = os.WriteFile(f, b, 0o644); n.err != nil {
			return n
		}
		repl[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": repl})
	oj := filepath.Join(e.dir, "overlay.json")
	if n.err = os.WriteFile(oj, js, 0o644); n.err != nil {
		return n
	}
	mf := filepath.Join(e.dir, "go.mod")
	cmd := exec.Command("go", "build", "-modfile="+mf, "-overlay", oj, "-o", n.bin, "./internal/vharness/zzmain")
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, out)
	}
	return n
}

type nreq struct {
	H       string     `json:"h"`
	In      []inputVar `json:"in"`
	Tier    int        `json:"tier"`
	Loops   int        `json:"loops"`
	Timeout int        `json:"timeout_ms"`
}

type nrep struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Runs   int      `json:"runs"`
}

// runBatch runs requests in one process; if the process dies the request in progress panicked.
func (n *native) runBatch(reqs []nreq, wait time.Duration) []nrep {
	var out []nrep
	for len(out) < len(reqs) {
		var in bytes.Buffer
		for _, r := range reqs[len(out):] {
			r.Tier = n.tier
			b, _ := json.Marshal(r)
			in.Write(append(b, '\n'))
		}
		cmd := exec.Command(n.bin)
		cmd.Stdin = &in
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		cmd.Dir = filepath.Dir(n.bin)
		if err := cmd.Start(); err != nil {
			return out
		}
		timer := time.AfterFunc(wait, func() { cmd.Process.Kill() })
		err := cmd.Wait()
		killed := !timer.Stop()
		got := 0
		sc := bufio.NewScanner(&stdout)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var r nrep
			if json.Unmarshal(sc.Bytes(), &r) == nil && r.Status != "" {
				out = append(out, r)
				got++
			}
		}
		if err != nil && len(out) < len(reqs) {
			st := "panic"
			if killed {
				st = "hang"
			}
			txt := strings.TrimSpace(stderr.String())
			if i := strings.IndexByte(txt, '\n'); i > 0 {
				txt = txt[:i]
			}
			if strings.Contains(txt, "all goroutines are asleep") {
				st = "deadlock"
			}
			out = append(out, nrep{Status: st, Msg: txt})
			got++
		}
		if got == 0 {
			break
		}
	}
	return out
}

// confirm replays a counterexample against the real code.
func (n *native) confirm(f *finding) (bool, nrep) {
	loops := 300
	r := n.runBatch([]nreq{{H: f.Harness, In: f.Inputs, Loops: loops, Timeout: 20000}}, 40*time.Second)
	if len(r) == 0 {
		return false, nrep{Status: "none"}
	}
	k := r[0].Status
	switch f.Kind {
	case "assert":
		return k == "assert" || k == "panic" || k == "hang", r[0]
	case "hang", "deadlock":
		return k == "hang" || k == "deadlock" || k == "panic", r[0]
	}
	return k == "panic" || k == "assert" || k == "hang" || k == "deadlock", r[0]
}
