package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"

	"verif/kit"
	"verif/mc"
)

// host is the process that runs the Python client (py/host.py). It asks for every choice, so that the explorer of this process
// enumerates them.
type host struct {
	cmd *exec.Cmd
	in  io.Writer
	out *bufio.Reader
}

var theHost *host

func startHost() *host {
	cmd := exec.Command("python3", os.Getenv("VERIF_PY")+"/host.py", os.Getenv("VERIF_PYSRC"))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &host{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

type pyConn struct {
	Written, Sent string
	To            int
	Lost          bool
	written, sent []byte
}

type pyOp struct {
	ID   [3]string
	Anns [][2]string
	Conn int
	OK   bool
	Err  string
}

type pySpan struct {
	ID         [3]string
	Name       string
	Start, End float64
	Anns       [][2]string
}

type pyResult struct {
	Err, Unsupported, Text string
	Conns                  []*pyConn
	Ops                    []*pyOp
	Spans                  []*pySpan
	Texts                  [][4]string
	Want                   map[string]any
	Log, Errors            []string
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// run runs a scenario; fixed are the first choices. The result is nil if the source of the client cannot be run.
func run(t *mc.T, req map[string]any, fixed ...int) *pyResult {
	done := false
	defer func() {
		if !done && theHost != nil {
			theHost.cmd.Process.Kill()
			theHost.cmd.Wait()
			theHost = nil
		}
	}()
	if theHost == nil {
		theHost = startHost()
	}
	b, err := json.Marshal(req)
	if err != nil {
		panic(err)
	}
	theHost.in.Write(append(b, '\n'))
	for {
		l, err := theHost.out.ReadString('\n')
		if err != nil {
			kit.GiveUp("the host of the Python client died")
			return nil
		}
		if l[0] == 'C' {
			var n, k int
			fmt.Sscanf(l[2:], "%d", &n)
			if len(fixed) > 0 {
				k, fixed = fixed[0]%n, fixed[1:]
			} else {
				k = t.Choose(n, strings.TrimSpace(l[2:]))
			}
			fmt.Fprintf(theHost.in, "%d\n", k)
			continue
		}
		done = true
		r := &pyResult{}
		if err := json.Unmarshal([]byte(l[2:]), r); err != nil {
			panic(err)
		}
		if r.Unsupported != "" {
			kit.GiveUp("the Python source cannot be run here: " + r.Unsupported)
			return nil
		}
		if r.Err != "" {
			t.Fail("%s", r.Err)
			return nil
		}
		for _, c := range r.Conns {
			c.written, c.sent = unhex(c.Written), unhex(c.Sent)
		}
		return r
	}
}
