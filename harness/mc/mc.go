// Package mc is a stateless explorer: it enumerates every sequence of choices a driver can make, runs the driver
// (which exercises the real code in lockstep with a reference model) once per sequence, and reports the first one
// on which the driver complains.  A driver is a function of a *C; everything nondeterministic in it goes through
// Choose (explored completely) or Dev (explored up to a budget of departures from choice 0).
package mc

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Driver is one closed system to explore.
type Driver struct {
	Name string
	// Budget of deviations (Dev choices other than 0) in one execution: quick, thorough.
	Budget [2]int
	// Split is the number of leading choices used to distribute executions over processes (default 3).
	Split int
	// ThoroughOnly drivers are skipped in the quick tier.
	ThoroughOnly bool
	// Bounds says in words what is enumerated.
	Bounds string
	// Self drivers divide the space themselves (C.Shard), so every process runs their only execution.
	Self bool
	Body func(c *C)
}

// Check is everything that decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Drivers     []Driver
}

// C is the choice sequence of one execution.
type C struct {
	Thorough bool
	Verbose  bool

	trail  []int
	arity  []int
	pos    int
	budget int
	left   int

	shard, of, split int
	skipped          bool
	replay           bool

	log     strings.Builder
	steps   int64
	extra   int64
	trivial bool
	x       *explorer
}

type failure struct{ msg string }
type skip struct{}

// HarnessError is a defect of the harness itself: never a verdict about the code.
type HarnessError struct{ Msg string }

// Choose returns each of 0..n-1 over the exploration.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic(HarnessError{"Choose of nothing"})
	}
	if n == 1 {
		return 0
	}
	return c.point(n)
}

func (c *C) point(n int) int {
	var v int
	if c.pos < len(c.trail) {
		v = c.trail[c.pos]
		if c.pos < len(c.arity) {
			if c.arity[c.pos] != n {
				panic(HarnessError{fmt.Sprintf("nondeterministic driver: choice %d had %d alternatives, now %d", c.pos, c.arity[c.pos], n)})
			}
		} else {
			c.arity = append(c.arity, n)
		}
		if v < 0 || v >= n {
			panic(HarnessError{fmt.Sprintf("choice %d of the recorded trail is %d, only %d alternatives", c.pos, v, n)})
		}
	} else {
		c.trail = append(c.trail, 0)
		c.arity = append(c.arity, n)
	}
	c.pos++
	if c.pos == c.split && c.of > 1 && !c.replay {
		if !c.mine(c.trail[:c.pos]) {
			c.skipped = true
			panic(skip{})
		}
	}
	return v
}

func (c *C) mine(t []int) bool {
	h := uint64(1469598103934665603)
	for _, v := range t {
		h = (h ^ uint64(v+1)) * 1099511628211
	}
	h ^= h >> 29
	h *= 0x9E3779B97F4A7C15
	return int((h>>33)%uint64(c.of)) == c.shard
}

// Dev is a choice whose alternatives 1..n-1 are departures from the default 0; an execution makes at most Budget of them.
func (c *C) Dev(n int) int {
	if c.left <= 0 || n <= 1 {
		return 0
	}
	v := c.point(n)
	if v != 0 {
		c.left--
	}
	return v
}

// Left is the remaining deviation budget.
func (c *C) Left() int { return c.left }

// Spend takes k from the deviation budget.
func (c *C) Spend(k int) { c.left -= k }

// Bool explores both values.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Step counts executed operations (transitions).
func (c *C) Step(n int) { c.steps += int64(n) }

// Trivial marks the execution as not exercising the property.
func (c *C) Trivial() { c.trivial = true }

// State records a visited state of the system (model and observed implementation state), by a canonical description.
func (c *C) State(parts ...interface{}) {
	if c.x == nil {
		return
	}
	h := uint64(14695981039346656037)
	add := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	for _, p := range parts {
		switch v := p.(type) {
		case string:
			for i := 0; i < len(v); i++ {
				add(v[i])
			}
		case []byte:
			for _, b := range v {
				add(b)
			}
		case int:
			for i := 0; i < 64; i += 8 {
				add(byte(uint64(v) >> i))
			}
		default:
			s := fmt.Sprint(v)
			for i := 0; i < len(s); i++ {
				add(s[i])
			}
		}
		add(0xfe)
		add(0x01)
	}
	c.x.addState(h)
}

// Tick tells the watchdog that a long execution makes progress.
func (c *C) Tick() {
	if c.x != nil {
		c.x.tick.Add(1)
	}
}

// Shard returns which part of a space enumerated by the driver itself belongs to this process; a driver that uses it
// makes no choices.
func (c *C) Shard() (int, int) {
	if c.replay || c.of < 1 {
		return 0, 1
	}
	return c.shard, c.of
}

// Count adds states that a driver enumerates itself.
func (c *C) Count(states, transitions int64) {
	c.steps += transitions
	c.extra += states
}

// Logf describes the execution; formatted only when somebody reads it.
func (c *C) Logf(f string, a ...interface{}) {
	if c.Verbose {
		fmt.Fprintf(&c.log, f+"\n", a...)
	}
}

// Failf reports that the property is broken in this execution.
func (c *C) Failf(f string, a ...interface{}) {
	panic(failure{fmt.Sprintf(f, a...)})
}

// Assert fails unless ok.
func (c *C) Assert(ok bool, f string, a ...interface{}) {
	if !ok {
		c.Failf(f, a...)
	}
}

// Trail returns a copy of the choices made so far.
func (c *C) Trail() []int { return append([]int{}, c.trail[:c.pos]...) }

// Config is what the parent tells a child process.
type Config struct {
	Cmd      string // list, run, replay
	Prop     string
	Tier     string
	Shard    int
	Of       int
	Deadline float64 // seconds
	Out      string
	Driver   string
	Trail    []int
}

// Violation is one execution on which the property is broken.
type Violation struct {
	Property string   `json:"property"`
	Driver   string   `json:"driver"`
	Tier     string   `json:"tier"`
	Trail    []int    `json:"trail"`
	Message  string   `json:"message"`
	Log      []string `json:"log"`
	Known    string   `json:"known,omitempty"`
}

// DriverResult counts what was explored in one driver.
type DriverResult struct {
	Name       string   `json:"name"`
	Bounds     string   `json:"bounds"`
	Budget     int      `json:"budget"`
	Executions int64    `json:"executions"`
	NonTrivial int64    `json:"nontrivial"`
	Steps      int64    `json:"transitions"`
	Complete   bool     `json:"complete"`
	Samples    []string `json:"samples"`
	WallS      float64  `json:"wall_s"`
}

// Result is what a child reports.
type Result struct {
	Drivers      []DriverResult `json:"drivers"`
	ExtraStates  int64          `json:"extra_states"`
	StatesCapped bool           `json:"states_capped"`
	Violations   []Violation    `json:"violations"`
	Unstable     []Violation    `json:"unstable"`
	Error        string         `json:"error"`
	Done         bool           `json:"done"`
}

const stateCap = 1500000

type explorer struct {
	cfg     Config
	check   Check
	res     Result
	states  map[uint64]struct{}
	journal []byte
	tick    atomic.Int64
	start   time.Time
	wrap    func(func())
}

func (x *explorer) addState(h uint64) {
	if len(x.states) >= stateCap {
		x.res.StatesCapped = true
		return
	}
	x.states[h] = struct{}{}
}

// journal layout: driver index, trail length, trail; rewritten before each execution.
func (x *explorer) note(d int, trail []int) {
	x.tick.Add(1)
	if x.journal == nil {
		return
	}
	j := x.journal
	n := len(trail)
	if n > (len(j)-16)/4 {
		n = (len(j) - 16) / 4
	}
	binary.LittleEndian.PutUint32(j[4:], 0xffffffff)
	binary.LittleEndian.PutUint32(j[0:], uint32(d))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(j[16+4*i:], uint32(trail[i]))
	}
	binary.LittleEndian.PutUint32(j[4:], uint32(n))
}

// ReadJournal returns the driver and the choice prefix of the execution in progress when a child died.
func ReadJournal(path string) (int, []int, error) {
	j, err := os.ReadFile(path)
	if err != nil || len(j) < 16 {
		return 0, nil, fmt.Errorf("no journal: %v", err)
	}
	n := binary.LittleEndian.Uint32(j[4:])
	if n == 0xffffffff || int(n) > (len(j)-16)/4 {
		return 0, nil, fmt.Errorf("torn journal")
	}
	t := make([]int, n)
	for i := range t {
		t[i] = int(binary.LittleEndian.Uint32(j[16+4*i:]))
	}
	return int(binary.LittleEndian.Uint32(j)), t, nil
}

func openJournal(path string) []byte {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	const size = 1 << 16
	if f.Truncate(size) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

// execute runs the driver once and classifies the outcome.
func (x *explorer) execute(d *Driver, c *C) (fail string, skipped bool) {
	run := func() {
		defer func() {
			switch r := recover().(type) {
			case nil:
			case skip:
				skipped = true
			case failure:
				fail = r.msg
			case HarnessError:
				panic(r)
			default:
				if s := fmt.Sprint(r); strings.Contains(s, "HARNESS") {
					panic(HarnessError{s})
				}
				fail = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
			}
		}()
		d.Body(c)
	}
	run()
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	out := []string{}
	for i := 0; i < len(lines); i++ {
		if strings.Contains(lines[i], "ouro") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

func (x *explorer) newC(d *Driver, di int) *C {
	c := &C{Thorough: x.cfg.Tier == "thorough", x: x, shard: x.cfg.Shard, of: x.cfg.Of, split: d.Split}
	c.budget = d.Budget[0]
	if c.Thorough {
		c.budget = d.Budget[1]
	}
	if c.split == 0 {
		c.split = 3
	}
	return c
}

func (c *C) reset() {
	c.pos = 0
	c.left = c.budget
	c.skipped = false
	c.trivial = false
	c.steps = 0
	c.extra = 0
	c.log.Reset()
}

// explore visits every choice sequence of the driver that belongs to this shard.
func (x *explorer) explore(di int) {
	d := &x.check.Drivers[di]
	c := x.newC(d, di)
	dr := DriverResult{Name: d.Name, Bounds: d.Bounds, Budget: c.budget}
	t0 := time.Now()
	next := int64(1)
	for {
		if x.cfg.Deadline > 0 && time.Since(x.start).Seconds() > x.cfg.Deadline {
			break
		}
		c.reset()
		x.note(di, c.trail)
		c.Verbose = dr.Executions+1 == next
		fail, skipped := x.execute(d, c)
		// an execution with fewer choices than split points belongs to one shard only
		if !skipped && !d.Self && c.pos < c.split && c.of > 1 && !c.mine(append(append([]int{}, c.trail[:c.pos]...), 1<<20)) {
			skipped = true
			fail = ""
		}
		if !skipped {
			dr.Executions++
			dr.Steps += c.steps
			x.res.ExtraStates += c.extra
			if !c.trivial {
				dr.NonTrivial++
			}
			if c.Verbose {
				next *= 12
				s := c.log.String()
				if len(s) > 500 {
					s = s[:500] + "..."
				}
				if s != "" {
					dr.Samples = append(dr.Samples, s)
				}
			}
			if fail != "" {
				v, stable := x.confirm(d, di, c.Trail(), fail)
				if stable {
					x.res.Violations = append(x.res.Violations, v)
					break
				}
				if len(x.res.Unstable) < 20 {
					x.res.Unstable = append(x.res.Unstable, v)
				}
			}
		}
		// next choice sequence
		c.trail = c.trail[:c.pos]
		c.arity = c.arity[:c.pos]
		i := c.pos - 1
		for ; i >= 0; i-- {
			if c.trail[i]+1 < c.arity[i] {
				break
			}
		}
		if i < 0 {
			dr.Complete = true
			break
		}
		c.trail[i]++
		c.trail = c.trail[:i+1]
		c.arity = c.arity[:i+1]
	}
	dr.WallS = time.Since(t0).Seconds()
	x.res.Drivers = append(x.res.Drivers, dr)
}

// confirm repeats a failing execution five times.
func (x *explorer) confirm(d *Driver, di int, trail []int, msg string) (Violation, bool) {
	v := Violation{Property: x.check.ID, Driver: d.Name, Tier: x.cfg.Tier, Trail: trail, Message: msg}
	same := 0
	for i := 0; i < 5; i++ {
		f, log := x.once(d, di, trail)
		if f != "" {
			same++
			v.Message = f
			v.Log = log
		}
	}
	return v, same >= 4
}

func (x *explorer) once(d *Driver, di int, trail []int) (string, []string) {
	c := x.newC(d, di)
	c.reset()
	c.trail = append([]int{}, trail...)
	c.Verbose = true
	c.replay = true
	x.note(di, c.trail)
	f, _ := x.execute(d, c)
	return f, strings.Split(strings.TrimRight(c.log.String(), "\n"), "\n")
}

// Child runs one shard (or one replay) as told by the environment variable MC_CFG.
func Child(checks []Check) int {
	var cfg Config
	if err := json.Unmarshal([]byte(os.Getenv("MC_CFG")), &cfg); err != nil {
		fmt.Fprintln(os.Stderr, "MC_CFG:", err)
		return 2
	}
	x := &explorer{cfg: cfg, states: map[uint64]struct{}{}, start: time.Now()}
	found := false
	for _, ch := range checks {
		if ch.ID == cfg.Prop {
			x.check = ch
			found = true
		}
	}
	if !found {
		fmt.Fprintln(os.Stderr, "unknown property", cfg.Prop)
		return 2
	}
	if x.check.Level == "" {
		x.check.Level = "model_checking"
	}
	switch cfg.Cmd {
	case "describe":
		type desc struct {
			ID, Level, Rule string
			Assumptions     []string
			Drivers         []string
		}
		dd := desc{x.check.ID, x.check.Level, x.check.Rule, x.check.Assumptions, nil}
		for _, d := range x.check.Drivers {
			dd.Drivers = append(dd.Drivers, d.Name)
		}
		b, _ := json.Marshal(dd)
		os.WriteFile(filepath.Join(cfg.Out, "describe.json"), b, 0o644)
		return 0
	case "replay":
		go x.watchdog()
		for di := range x.check.Drivers {
			d := &x.check.Drivers[di]
			if d.Name != cfg.Driver {
				continue
			}
			f, log := x.once(d, di, cfg.Trail)
			for _, l := range log {
				fmt.Println("  ", l)
			}
			if f != "" {
				fmt.Println("REPLAY: property broken:", f)
				return 1
			}
			fmt.Println("REPLAY: property held")
			return 0
		}
		fmt.Fprintln(os.Stderr, "unknown driver", cfg.Driver)
		return 2
	}
	x.journal = openJournal(filepath.Join(cfg.Out, fmt.Sprintf("journal.%d", cfg.Shard)))
	go x.watchdog()
	code := 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				x.res.Error = fmt.Sprintf("harness: %v\n%s", r, debug.Stack())
				code = 2
			}
		}()
		for di := range x.check.Drivers {
			if x.check.Drivers[di].ThoroughOnly && cfg.Tier != "thorough" {
				continue
			}
			x.explore(di)
			if len(x.res.Violations) > 0 {
				break
			}
		}
	}()
	x.res.Done = true
	x.write()
	return code
}

func (x *explorer) write() {
	b, _ := json.Marshal(x.res)
	os.WriteFile(filepath.Join(x.cfg.Out, fmt.Sprintf("result.%d.json", x.cfg.Shard)), b, 0o644)
	hs := make([]uint64, 0, len(x.states))
	for h := range x.states {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	out := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(out[8*i:], h)
	}
	os.WriteFile(filepath.Join(x.cfg.Out, fmt.Sprintf("states.%d", x.cfg.Shard)), out, 0o644)
}

// hangTicks seconds of one execution (normally microseconds to milliseconds) without finishing count as a hang.
const hangTicks = 40

// maxResident bytes of memory in use by one worker (normally well below 1 GB) count as exhausted memory.
const maxResident = 3 << 30

// resident is the memory in use by this process.
func resident() int64 {
	var size, pages int64
	if b, err := os.ReadFile("/proc/self/statm"); err == nil {
		fmt.Sscan(string(b), &size, &pages)
	}
	return pages * int64(os.Getpagesize())
}

// watchdog ends a worker stuck in an execution, or using up the memory in it.
func (x *explorer) watchdog() {
	last, n := int64(-1), 0
	for i := 0; ; i++ {
		time.Sleep(100 * time.Millisecond)
		if resident() > maxResident {
			fmt.Fprintln(os.Stderr, "MC-MEMORY")
			os.Exit(3)
		}
		if i%10 != 0 {
			continue
		}
		if t := x.tick.Load(); t != last {
			last, n = t, 0
			continue
		}
		if n++; n >= hangTicks {
			fmt.Fprintln(os.Stderr, "MC-HANG")
			os.Exit(3)
		}
	}
}
