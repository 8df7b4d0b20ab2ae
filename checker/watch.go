package main

import (
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"time"
)

const memLimit = 20 << 30

var timeLimit = 700 * time.Second

func init() {
	if s, err := strconv.Atoi(os.Getenv("SPEEDCHECK_LIMIT")); err == nil {
		timeLimit = time.Duration(s) * time.Second
	}
}

// watch ends an analysis that does not come to an end: what is not decided is not
// passed.
func watch(R *Report, start time.Time, out, known, rule string) {
	for {
		time.Sleep(2 * time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		why := ""
		switch {
		case time.Since(start) > timeLimit:
			why = "the time limit is exceeded"
		case m.HeapAlloc > memLimit:
			why = "the memory limit is exceeded"
		default:
			continue
		}
		R.mu.Lock() // what it finds from now on does not count
		S := newReport(R.prop, R.tier)
		S.obs, S.order, S.counts, S.mins, S.funcs, S.notes, S.assume = R.obs, R.order, R.counts, R.mins, R.funcs, R.notes, R.assume
		S.Undecided("the sources", "%s", why)
		os.Exit(S.finish(out, known, rule, start))
	}
}

// supervise runs the analysis in another process, and reports it as undecided if it
// ends in another way than by a decision.
func supervise(prop, out, known, rule string) {
	start := time.Now()
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "SPEEDCHECK_SUPERVISED=1")
	cmd.Stdout = os.Stdout
	cmd.Stderr = os.Stderr
	err := cmd.Start()
	if err == nil {
		t := time.AfterFunc(timeLimit+60*time.Second, func() { cmd.Process.Kill() })
		err = cmd.Wait()
		t.Stop()
	}
	code := 0
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	if code == 0 || code == 1 {
		os.Exit(code)
	}
	R := newReport(prop, os.Getenv("VERIF_TIER"))
	R.Undecided("the sources", "%s", fmt.Sprint("the analysis does not end: ", err))
	os.Exit(R.finish(out, known, rule, start))
}
