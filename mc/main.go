package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/prospik/libsignal-protocol-go/logger"
)

// Check is the machinery for one property.
type Check struct {
	ID    string
	Level string
	Run   func(c *Ctx)
}

var checks = map[string]*Check{}

func register(id, level string, run func(c *Ctx)) { checks[id] = &Check{id, level, run} }

type silent struct{}

func (silent) Debug(caller, message string)   { logPoint() }
func (silent) Info(caller, message string)    { logPoint() }
func (silent) Warning(caller, message string) { logPoint() }
func (silent) Error(caller, message string)   { logPoint() }
func (silent) Configure(settings string)      {}

func logPoint() {
	if !logPoints {
		return
	}
	strayCtx("log")
	if c := curCtx(); c != nil && c.point != nil {
		c.point("log")
	}
}

var logPoints bool

func main() {
	if len(os.Args) == 2 && os.Args[1] == "list" {
		var l []string
		for id, k := range checks {
			l = append(l, id+" "+k.Level)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: mc run ID | mc replay FILE | mc child ID OUT [replay FILE]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(supervise(os.Args[2], ""))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rp replayFile
		if err := json.Unmarshal(b, &rp); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Exit(supervise(rp.Property, os.Args[2]))
	case "sched", "async":
		var lg logger.Loggable = silent{}
		logger.Setup(&lg)
		installRng(os.Args[1])
		if os.Args[1] == "sched" {
			schedChild(os.Args[2:])
		} else {
			asyncChild(os.Args[2:])
		}
	case "race":
		raceChild(os.Args[2:])
	case "gcreate":
		var lg logger.Loggable = silent{}
		logger.Setup(&lg)
		installRng("gcreate")
		at, _ := strconv.Atoi(os.Args[2])
		kind, _ := strconv.Atoi(os.Args[3])
		gcreateProcess(at, kind, os.Args[4] == "true")
	case "child":
		child(os.Args[2], os.Args[3], os.Args[4:])
	default:
		os.Exit(2)
	}
}

type replayFile struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Confirmed int        `json:"reproduced_of_5"`
	Serial    bool       `json:"serial"`
	Stderr    string     `json:"stderr,omitempty"`
	Thorough  bool       `json:"thorough"`
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func tierThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// supervise runs the check in a child process, so that a crash or hang of the
// library is an observation and not the end of the check.
func supervise(id, replay string) int {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	dir := verifDir()
	os.MkdirAll(filepath.Join(dir, "evidence"), 0o755)
	os.MkdirAll(filepath.Join(dir, "replays"), 0o755)
	runChild := func(serial bool) (*childResult, string, error) {
		out := filepath.Join(dir, "replays", ".result-"+id+"-"+strconv.Itoa(os.Getpid()))
		defer os.Remove(out)
		args := []string{"child", id, out}
		if replay != "" {
			args = append(args, "replay", replay)
		}
		if serial {
			args = append(args, "serial")
		}
		cmd := exec.Command(os.Args[0], args...)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=20GiB")
		var se bytes.Buffer
		cmd.Stderr = &tail{b: &se}
		cmd.Stdout = os.Stdout
		err := cmd.Run()
		b, rerr := os.ReadFile(out)
		if rerr != nil {
			return nil, se.String(), err
		}
		var res childResult
		if e := json.Unmarshal(b, &res); e != nil {
			return nil, se.String(), e
		}
		return &res, se.String(), nil
	}
	writeRep := func(rp replayFile) string {
		p := filepath.Join(dir, "replays", id+".json")
		if replay != "" {
			return replay
		}
		rp.Property, rp.Thorough = id, tierThorough()
		writeJSON(p, rp)
		return p
	}
	violated := func(text, path string, ev map[string]interface{}) int {
		fmt.Println(text)
		if replay == "" {
			if ev == nil {
				ev = minimalEvidence(id, ck.Level)
			}
			ev["violations"] = 1
			writeJSON(filepath.Join(dir, "evidence", id+".json"), ev)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	t0 := time.Now()
	res, stderr, err := runChild(false)
	if res == nil {
		// The child died. If the library's frames are in the crash, that is a violation.
		if isLibraryCrash(stderr) {
			// confirm once more
			res2, stderr2, _ := runChild(false)
			if res2 == nil && isLibraryCrash(stderr2) {
				p := writeRep(replayFile{Violation: &Violation{Scenario: "crash", Text: firstLines(stderr, 12)}, Stderr: firstLines(stderr, 60)})
				return violated("the library crashed the process:\n"+firstLines(stderr, 12), p, nil)
			}
			res = res2
		}
		if res == nil {
			fmt.Fprintln(os.Stderr, "check failed to run:", err, "\n", firstLines(stderr, 40))
			return 2
		}
	}
	if res.HarnessFail != "" {
		fmt.Fprintln(os.Stderr, "harness error:", res.HarnessFail)
		return 2
	}
	for _, k := range res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	if res.Violation != nil {
		v := res.Violation
		if res.Confirmed >= 3 {
			p := writeRep(replayFile{Violation: v, Confirmed: res.Confirmed})
			return violated(fmt.Sprintf("%s [%s %s]: %s\n  path: %s\n  reproduced %d of 5 times", id, v.Scenario, v.Case, v.Text, strings.Join(v.Path, " ; "), res.Confirmed), p, res.Evidence)
		}
		// Not reproducible alone: run everything one after another, twice; the same
		// failure both times is a deterministic history of the whole process.
		a, _, _ := runChild(true)
		b, _, _ := runChild(true)
		if a != nil && b != nil && a.Violation != nil && b.Violation != nil && a.Violation.Scenario == b.Violation.Scenario && a.Violation.Case == b.Violation.Case {
			p := writeRep(replayFile{Violation: a.Violation, Confirmed: a.Confirmed, Serial: true})
			return violated(fmt.Sprintf("%s [%s %s] (sequential run): %s\n  path: %s", id, a.Violation.Scenario, a.Violation.Case, a.Violation.Text, strings.Join(a.Violation.Path, " ; ")), p, a.Evidence)
		}
		fmt.Printf("note: %s [%s]: %s was not reproducible (%d of 5) and is not reported\n", id, v.Scenario, v.Text, res.Confirmed)
		if a != nil && a.Violation == nil {
			res = a
		} else {
			res.Evidence["violations"] = 0
		}
	}
	if replay != "" {
		fmt.Println("replay: no violation")
		return 0
	}
	res.Evidence["wall_s"] = round2(time.Since(t0).Seconds())
	if err := writeJSON(filepath.Join(dir, "evidence", id+".json"), res.Evidence); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cov := res.Evidence["coverage"].(map[string]interface{})
	fmt.Printf("%s held: states=%v transitions=%v traces=%v evaluations=%v exhaustive=%v wall=%.1fs\n", id, cov["states"], cov["transitions"],
		cov["traces_validated_against_impl"], cov["evaluations"], cov["exhaustive"], time.Since(t0).Seconds())
	return 0
}

func minimalEvidence(id, level string) map[string]interface{} {
	c := newCtx(id)
	c.Thorough = tierThorough()
	c.Seed = seedEnv()
	return c.evidence(level)
}

type tail struct{ b *bytes.Buffer }

func (t *tail) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<20 {
		t.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

func isLibraryCrash(stderr string) bool {
	i := strings.Index(stderr, "fatal error:")
	if j := strings.Index(stderr, "panic:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return false
	}
	// the first goroutine after the message is the one that failed
	part := stderr[i:]
	if j := strings.Index(part, "goroutine "); j >= 0 {
		rest := part[j:]
		if k := strings.Index(rest, "\n\n"); k >= 0 {
			rest = rest[:k]
		}
		part = part[:j] + rest
	}
	return strings.Contains(part, "prospik/libsignal-protocol-go/") && !strings.Contains(part, "harnessErr")
}

func seedEnv() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func child(id, out string, args []string) {
	ck := checks[id]
	debug.SetGCPercent(200)
	var lg logger.Loggable = silent{}
	logger.Setup(&lg)
	installRng(id)
	c := newCtx(id)
	c.Thorough = tierThorough()
	c.Seed = seedEnv()
	limit := 240 * time.Second
	if c.Thorough {
		limit = 40 * time.Minute
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	c.Deadline = time.Now().Add(limit)
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "serial":
			c.Workers = 1
		case "replay":
			i++
			b, err := os.ReadFile(args[i])
			var rp replayFile
			if err == nil {
				err = json.Unmarshal(b, &rp)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
			c.Thorough = rp.Thorough
			if rp.Serial {
				c.Workers = 1
			} else if rp.Violation != nil && rp.Violation.Scenario != "crash" {
				c.OnlyScn, c.OnlyCase = rp.Violation.Scenario, rp.Violation.Case
				if rp.Violation.Case == "path" || rp.Violation.Case == "live" {
					c.OnlyPath = append([]string{}, rp.Violation.Path...)
				}
			}
		}
	}
	if s := os.Getenv("MC_SCENARIO"); s != "" && c.OnlyScn == "" { // development: one scenario only
		c.OnlyScn = s
	}
	finish := func(r *childResult) {
		if os.Getenv("MC_CPUPROF") != "" {
			pprof.StopCPUProfile()
		}
		if err := writeJSON(out, r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		os.Exit(0)
	}
	if p := os.Getenv("MC_CPUPROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
	}
	done := make(chan *childResult, 2)
	go func() {
		r := &childResult{}
		defer func() {
			if e := recover(); e != nil {
				if h, ok := e.(harnessErr); ok {
					r.HarnessFail = h.s
					done <- r
					return
				}
				panic(e)
			}
		}()
		ck.Run(c)
		if c.viol != nil {
			c.redoing = true
			for i := 0; i < 5; i++ {
				if s := c.viol.redo(); s != "" {
					r.Confirmed++
					c.viol.Text = s
				}
			}
			r.Violation = c.viol
		}
		r.Evidence, r.Truncated = c.evidence(ck.Level), c.truncated
		for k := range c.knownSeen {
			r.Known = append(r.Known, k)
		}
		done <- r
	}()
	tick := time.NewTicker(2 * time.Second)
	for {
		select {
		case r := <-done:
			finish(r)
		case <-tick.C:
			if d := longestOp(); d > 75*time.Second {
				finish(&childResult{Violation: &Violation{Scenario: "watchdog", Case: "hang", Text: fmt.Sprintf("a library call has not returned for %v", d)},
					Confirmed: 5, Evidence: c.evidence(ck.Level)})
			}
		}
	}
}
