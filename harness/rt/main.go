package rt

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Main runs "check ID" (the parent) or "child ID SCRATCH OUT".
func Main(checks ...*Check) {
	byID := map[string]*Check{}
	for _, c := range checks {
		byID[c.ID] = c
	}
	if len(os.Args) < 3 || byID[os.Args[2]] == nil {
		fmt.Fprintln(os.Stderr, "usage: harness check|child ID; have", len(byID), "checks")
		os.Exit(2)
	}
	c := byID[os.Args[2]]
	switch os.Args[1] {
	case "child":
		child(c, os.Args[3], os.Args[4])
	case "check":
		os.Exit(parent(c))
	default:
		os.Exit(2)
	}
}

func envInt(k string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return def
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func child(c *Check, scratch, out string) {
	syscall.Umask(0o022)
	r := &Run{ID: c.ID, Tier: tier(), Seed: uint64(envInt("VERIF_SEED", 1)), Scratch: scratch,
		Only: envInt("VERIF_CASE", -1), Repeat: envInt("VERIF_REPEAT", 1), OnlyPart: os.Getenv("VERIF_PART"),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, viol: map[string]*Violation{}, floors: map[string]int64{}, soft: map[string]int64{},
		timeout: c.CaseTimeout, start: time.Now(), check: c}
	if r.timeout == 0 {
		r.timeout = 150 * time.Second
	}
	go r.watchdog(out)
	c.Run(r)
	r.write(out, true)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct{ sig, what string }

// loadKnown reads lines "known: property=ID sig=SIG what..." of the findings file.
func loadKnown(id string) []known {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var ks []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+id+" sig=")
		if !ok {
			continue
		}
		sig, what, _ := strings.Cut(rest, " ")
		ks = append(ks, known{sig, what})
	}
	return ks
}

func parent(c *Check) int {
	start := time.Now()
	base := ""
	for _, d := range []string{os.Getenv("VERIF_SCRATCH"), "/dev/shm", os.TempDir()} {
		if d == "" {
			continue
		}
		if p, err := os.MkdirTemp(d, "verif-"+c.ID+"-"); err == nil {
			base = p
			break
		}
	}
	if base == "" {
		fmt.Fprintln(os.Stderr, "no scratch directory")
		return 2
	}
	defer cleanup(base)
	os.Chmod(base, 0o755)
	work := filepath.Join(base, "work")
	io := filepath.Join(base, "io")
	for _, d := range []string{work, io} {
		if err := os.Mkdir(d, 0o777); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		os.Chmod(d, 0o777)
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	out := filepath.Join(io, "result.json")
	errf, err := os.Create(filepath.Join(base, "stderr"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(self, "child", c.ID, work, out)
	cmd.Dir = work
	cmd.Stdout = os.Stdout
	cmd.Stderr = errf
	cmd.Env = []string{
		"PATH=/usr/bin:/bin", "HOME=" + work, "TMPDIR=" + work, "TZ=UTC",
		"VERIF_SEED=" + strconv.Itoa(envInt("VERIF_SEED", 1)), "VERIF_TIER=" + tier(),
		"VERIF_CASE=" + os.Getenv("VERIF_CASE"), "VERIF_REPEAT=" + os.Getenv("VERIF_REPEAT"), "VERIF_PART=" + os.Getenv("VERIF_PART"),
		"GORACE=log_path=" + filepath.Join(io, "race") + " halt_on_error=0 exitcode=0 history_size=3",
		"GOTRACEBACK=all", "VERIF_GOROOT=" + os.Getenv("VERIF_GOROOT"),
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if os.Geteuid() == 0 {
		// Code under test deletes and overwrites files: it runs as nobody,
		// who owns nothing outside the scratch directory.
		for _, d := range []string{work, io} {
			if err := os.Chown(d, 65534, 65534); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		}
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}
	}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "start child:", err)
		return 2
	}
	werr := cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errf.Close()
	stderr, _ := os.ReadFile(errf.Name())

	var res Result
	b, rerr := os.ReadFile(out)
	if rerr == nil {
		rerr = json.Unmarshal(b, &res)
	}
	if rerr != nil || werr != nil {
		// The child died: a crash of the code under test is a violation.
		res.Property = c.ID
		res.Rule, res.Level, res.Assume = c.Rule, c.Level, c.Assumptions
		s := string(stderr)
		k := strings.Index(s, "fatal error: ")
		if p := strings.Index(s, "panic: "); p >= 0 && (k < 0 || p < k) {
			k = p
		}
		if fr := ""; k >= 0 {
			line, _, _ := strings.Cut(s[k:], "\n")
			// the crashing goroutine is dumped first
			rest := s[k:]
			first := rest
			if g := strings.Index(rest, "\n\ngoroutine "); g >= 0 {
				tail := rest[g+2:]
				if e := strings.Index(tail, "\n\n"); e >= 0 {
					first = tail[:e]
				} else {
					first = tail
				}
			}
			fr = TopRepoFrame(first)
			if fr == "" {
				fr = hangFrame(rest)
			}
			if fr != "" {
				kind := "crash"
				if strings.Contains(line, "deadlock") {
					kind = "hang"
				}
				res.Violations = append(res.Violations, &Violation{Sig: kind + ":" + fr, Case: -1, Detail: clip(s, 1<<20), Count: 1})
				res.Done = true
			}
		}
		if len(res.Violations) == 0 {
			res.Harness = append(res.Harness, fmt.Sprintf("child ended: %v %v\n%s", werr, rerr, clip(s, 8000)))
		}
	} else if len(stderr) > 0 {
		os.Stderr.Write([]byte(clip(string(stderr), 4000)))
	}
	races, _ := filepath.Glob(filepath.Join(io, "race.*"))
	nrace := 0
	for _, f := range races {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================\n") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			nrace++
			sig := raceSig(rep)
			if sig == "" {
				res.Harness = append(res.Harness, "race without a frame of the code under test:\n"+clip(rep, 4000))
				continue
			}
			dup := false
			for _, v := range res.Violations {
				if v.Sig == sig {
					v.Count++
					dup = true
				}
			}
			if !dup {
				res.Violations = append(res.Violations, &Violation{Sig: sig, Case: -1, Detail: rep, Count: 1})
			}
		}
	}

	ks := loadKnown(c.ID)
	nviol := 0
	var lines []string
	seen := map[string]bool{}
	for _, v := range res.Violations {
		isKnown := false
		for _, k := range ks {
			if k.sig == v.Sig {
				isKnown = true
				if !seen[k.sig] {
					fmt.Printf("KNOWN-FINDING: property=%s %s (observed %d times)\n", c.ID, k.what, v.Count)
				}
				seen[k.sig] = true
			}
		}
		if isKnown {
			continue
		}
		nviol++
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, fmt.Sprintf("%s-%016x.txt", c.ID, hash64(v.Sig)))
		txt := fmt.Sprintf("property %s\nsignature %s\nseed %d tier %s part %s case %d (seen %d times)\nreplay: VERIF_SEED=%d VERIF_TIER=%s VERIF_PART=%s VERIF_CASE=%d ./check.sh %s\n\n%s\n\nhistory:\n%s\n",
			c.ID, v.Sig, envInt("VERIF_SEED", 1), tier(), v.Part, v.Case, v.Count, envInt("VERIF_SEED", 1), tier(), v.Part, v.Case, c.ID, v.Detail, strings.Join(v.Log, "\n"))
		os.WriteFile(p, []byte(txt), 0o644)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", c.ID, p))
		fmt.Printf("-- %s (x%d, %s/%d): %s\n", v.Sig, v.Count, v.Part, v.Case, clip(v.Detail, 600))
	}
	for _, k := range ks {
		if !seen[k.sig] {
			fmt.Printf("note: listed finding not observed in this run: property=%s %s\n", c.ID, k.what)
		}
	}
	for _, h := range res.Harness {
		fmt.Fprintln(os.Stderr, "HARNESS:", h)
	}
	if os.Getenv("VERIF_CASE") == "" && os.Getenv("VERIF_PART") == "" {
		writeEvidence(c, &res, nviol, nrace, time.Since(start).Seconds())
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	switch {
	case nviol > 0:
		return 1
	case len(res.Harness) > 0 || !res.Done:
		return 2
	}
	fmt.Printf("ok %s: cases=%d evals=%d distinct=%d wall=%.1fs\n", c.ID, res.Cases, res.Evals, res.Distinct, time.Since(start).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		var k []string
		for n := range res.Counts {
			k = append(k, n)
		}
		sort.Strings(k)
		for _, n := range k {
			fmt.Printf("   %-50s %d\n", n, res.Counts[n])
		}
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// raceSig names a data race by the code under test on both of its sides.
func raceSig(rep string) string {
	var fr []string
	for _, blk := range strings.Split(rep, "\n\n") {
		head, _, _ := strings.Cut(blk, "\n")
		if strings.HasPrefix(head, "WARNING") {
			_, blk, _ = strings.Cut(blk, "\n")
			head, _, _ = strings.Cut(blk, "\n")
		}
		h := strings.TrimSpace(head)
		if !(strings.HasPrefix(h, "Read at") || strings.HasPrefix(h, "Write at") || strings.HasPrefix(h, "Previous") || strings.HasPrefix(h, "Atomic")) {
			continue
		}
		var t []string
		for _, l := range strings.Split(blk, "\n") {
			t = append(t, strings.TrimSpace(l))
		}
		f := TopRepoFrame(strings.Join(t, "\n"))
		if f == "" {
			f = "-"
		}
		fr = append(fr, f)
	}
	all := strings.Join(fr, "")
	if strings.Trim(all, "-") == "" {
		return ""
	}
	sort.Strings(fr)
	return "race:" + strings.Join(fr, "~")
}

func writeEvidence(c *Check, res *Result, nviol, nrace int, wall float64) {
	samples := []any{}
	for _, s := range res.Samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":         res.Evals,
		"cases":               res.Cases,
		"distinct_nontrivial": res.Distinct,
		"rule":                res.Rule,
		"samples":             samples,
		"observed":            res.Counts,
		"race_reports":        nrace,
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier(), "seed": envInt("VERIF_SEED", 1), "level": c.Level,
		"coverage": cov, "assumptions": c.Assumptions, "wall_s": wall, "violations": nviol,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644)
}
