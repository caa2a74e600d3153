// Command driver executes cases (one JSON object per line, field "op" naming
// the operation) on the real code and records what it observed.
//
//	driver run CASES OBS   parent: spreads the cases over worker processes
//	driver worker          child: one case per stdin line, one result per line
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"strconv"
	"sync"
	"time"
)

// O is an observed result
type O map[string]interface{}

type opFn func(raw json.RawMessage) interface{}

var ops = map[string]opFn{}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "worker" {
		worker()
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "run" {
		os.Exit(parent(os.Args[2], os.Args[3]))
	}
	fmt.Fprintln(os.Stderr, "usage: driver run CASES OBS")
	os.Exit(2)
}

// ---------------------------------------------------------------- worker

const memLimit = 2 << 30

func worker() {
	debug.SetMaxStack(128 << 20)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > memLimit {
				fmt.Fprintln(os.Stderr, "memory limit of the worker exceeded")
				os.Exit(77)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			b, e := json.Marshal(runCase(line))
			if e != nil {
				b, _ = json.Marshal(O{"drivererror": e.Error()})
			}
			out.Write(b)
			out.WriteByte('\n')
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func runCase(line []byte) (res interface{}) {
	var head struct {
		Op string `json:"op"`
	}
	if err := json.Unmarshal(line, &head); err != nil {
		return O{"drivererror": err.Error()}
	}
	fn := ops[head.Op]
	if fn == nil {
		return O{"drivererror": "unknown op " + head.Op}
	}
	defer func() {
		if r := recover(); r != nil {
			if de, ok := r.(driverErr); ok {
				res = O{"drivererror": string(de)}
				return
			}
			res = O{"fault": "panic", "msg": fmt.Sprint(r)}
		}
	}()
	return fn(line)
}

type driverErr string

// get decodes the case; a decoding failure is an error of the machinery
func get(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(driverErr(err.Error()))
	}
}

// guard runs f and reports a panic of the code under test as a string
func guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if de, ok := r.(driverErr); ok {
				panic(de)
			}
			msg = "panic: " + fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

// ---------------------------------------------------------------- parent

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tail
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.buf) < 2000 {
		t.buf = append(t.buf, p...)
	}
	return len(p), nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	b := t.buf
	if len(b) > 1500 {
		b = b[:1500]
	}
	return string(b)
}

// racy: the process ended because of unsynchronised access to memory
func (t *tail) racy() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	return bytes.Contains(t.buf, []byte("DATA RACE")) || bytes.Contains(t.buf, []byte("fatal error: concurrent map"))
}

func spawn() *proc {
	cmd := exec.Command(os.Args[0], "worker")
	in, err := cmd.StdinPipe()
	must(err)
	out, err := cmd.StdoutPipe()
	must(err)
	t := &tail{}
	cmd.Stderr = t
	must(cmd.Start())
	return &proc{cmd, in, bufio.NewReaderSize(out, 1<<20), t}
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(2)
	}
}

// ask returns the answer, or "", and why there was none
func (p *proc) ask(line []byte, limit time.Duration) (ans []byte, fault string) {
	type r struct {
		b   []byte
		err error
	}
	ch := make(chan r, 1)
	go func() {
		p.in.Write(append(append([]byte{}, line...), '\n'))
		b, err := p.out.ReadBytes('\n')
		ch <- r{b, err}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			p.cmd.Wait()
			return nil, "crash"
		}
		return x.b[:len(x.b)-1], ""
	case <-time.After(limit):
		p.kill()
		return nil, "hang"
	}
}

func envDur(name string, def float64) time.Duration {
	if s := os.Getenv(name); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			def = f
		}
	}
	return time.Duration(def * float64(time.Second))
}

func parent(casesFile, obsFile string) int {
	f, err := os.Open(casesFile)
	must(err)
	rd := bufio.NewReaderSize(f, 1<<20)
	var cases [][]byte
	for {
		b, err := rd.ReadBytes('\n')
		if len(b) > 1 {
			if b[len(b)-1] == '\n' {
				b = b[:len(b)-1]
			}
			cases = append(cases, b)
		}
		if err != nil {
			break
		}
	}
	f.Close()
	first, again := envDur("VERIF_T1", 20), envDur("VERIF_T2", 60)
	res := make([][]byte, len(cases))
	var mu sync.Mutex
	next, faults, bad := 0, 0, 0
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var p *proc
			for {
				mu.Lock()
				i := next
				next++
				stop := faults >= 3
				mu.Unlock()
				if i >= len(cases) {
					break
				}
				if stop {
					res[i] = []byte(`{"skipped":true}`)
					continue
				}
				if p == nil {
					p = spawn()
				}
				ans, fault := p.ask(cases[i], first)
				if fault == "crash" && p.err.racy() {
					// no need to meet the same schedule again
					mu.Lock()
					faults++
					ans, _ = json.Marshal(O{"fault": "race", "msg": p.err.String()})
					mu.Unlock()
					p = nil
				} else if fault != "" {
					// reproduce alone in a fresh process
					p = spawn()
					ans2, fault2 := p.ask(cases[i], again)
					mu.Lock()
					if fault2 == "" {
						// not reproduced: the answer of the fresh process counts
						ans = ans2
						if fault == "crash" {
							bad++
						}
					} else {
						faults++
						ans, _ = json.Marshal(O{"fault": fault2, "msg": p.err.String()})
						p = nil
					}
					mu.Unlock()
				}
				res[i] = ans
			}
			if p != nil {
				p.in.Close()
				p.cmd.Wait()
			}
		}()
	}
	wg.Wait()
	o, err := os.Create(obsFile)
	must(err)
	bw := bufio.NewWriterSize(o, 1<<20)
	for _, b := range res {
		bw.Write(b)
		bw.WriteByte('\n')
	}
	must(bw.Flush())
	must(o.Close())
	if bad > 0 {
		fmt.Fprintln(os.Stderr, "driver: a worker died and the death was not reproducible")
		return 2
	}
	return 0
}
