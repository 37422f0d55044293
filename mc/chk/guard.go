package chk

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verif/mc/ref"
)

// The exploration runs in a child process. Every text is written to a slot of a shared file before it is parsed,
// so that the parent can tell which text a fatal error (stack overflow, out of memory) or a hang belongs to.

const (
	slotSize  = 1 << 17
	slotCount = 64
	hangLimit = 40 * time.Second
)

var (
	slots     []byte
	slotFree  chan int
	slotStart [slotCount]int64
)

func openSlots(path string) error {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return err
	}
	defer f.Close()
	if err := f.Truncate(slotSize * slotCount); err != nil {
		return err
	}
	slots, err = syscall.Mmap(int(f.Fd()), 0, slotSize*slotCount, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return err
	}
	slotFree = make(chan int, slotCount)
	for i := 0; i < slotCount; i++ {
		slotFree <- i
	}
	go func() {
		for range time.Tick(time.Second) {
			now := time.Now().UnixNano()
			for i := range slotStart {
				if t := atomic.LoadInt64(&slotStart[i]); t != 0 && now-t > int64(hangLimit) {
					fmt.Fprintln(os.Stderr, "parsing does not return")
					os.Exit(3)
				}
			}
		}
	}()
	return nil
}

// enter notes that s is about to be parsed; the returned number is for leave.
func enter(s string) int {
	if slots == nil {
		return -1
	}
	i := <-slotFree
	b := slots[i*slotSize : (i+1)*slotSize]
	n := copy(b[8:], s)
	binary.LittleEndian.PutUint32(b[4:], uint32(n))
	b[0] = 1
	atomic.StoreInt64(&slotStart[i], time.Now().UnixNano())
	return i
}

func leave(i int) {
	if i < 0 {
		return
	}
	atomic.StoreInt64(&slotStart[i], 0)
	slots[i*slotSize] = 0
	slotFree <- i
}

// Supervise runs the check in a child process.
func Supervise(cfg Config, args []string) int {
	file := cfg.Work + "/slots"
	if cfg.Work == "" {
		d, err := os.MkdirTemp("", "verif-slots")
		if err != nil {
			fmt.Println(err)
			return 2
		}
		defer os.RemoveAll(d)
		file = d + "/slots"
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	start := time.Now()
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "VERIF_SLOTS="+file)
	cmd.Stdout = os.Stdout
	var tail tailWriter
	cmd.Stderr = &tail
	cmd.Run()
	code := cmd.ProcessState.ExitCode()
	if code == 0 || code == 1 {
		os.Stderr.WriteString(tail.String())
		return code
	}
	msg := tail.String()
	fmt.Println("the exploring process ended abnormally:", firstLine(head(msg, 300)))
	b, err := os.ReadFile(file)
	if err != nil || len(b) != slotSize*slotCount {
		return 2
	}
	for i := 0; i < slotCount; i++ {
		s := b[i*slotSize : (i+1)*slotSize]
		if s[0] == 0 {
			continue
		}
		text := string(s[8 : 8+binary.LittleEndian.Uint32(s[4:])])
		what := Alone(self, text)
		if what == "" {
			continue
		}
		res, _ := ref.Analyze(text)
		if res == nil && !strings.Contains("P17 P18 P24", cfg.Prop) {
			fmt.Printf("parsing %q: %s (a matter of P18)\n", text, what)
			continue
		}
		v := &Violation{Input: text, Msg: what}
		cov := &Coverage{Extra: map[string]interface{}{}, Executions: 1, Validated: 1, States: 1, Transitions: 1}
		WriteEvidence(cfg, cov, v, start)
		return Report(cfg, v)
	}
	return 2
}

// Alone parses a text in a process of its own and reports a fatal error or a hang.
func Alone(self, text string) string {
	one := exec.Command(self, "-one")
	one.Stdin = strings.NewReader(text)
	var e tailWriter
	one.Stderr = &e
	if err := one.Start(); err != nil {
		return ""
	}
	t := time.AfterFunc(2*hangLimit, func() { one.Process.Kill() })
	err := one.Wait()
	hung := !t.Stop()
	switch {
	case hung:
		return fmt.Sprintf("parsing does not return within %v", 2*hangLimit)
	case err != nil:
		return "parsing ends the process: " + firstLine(head(e.String(), 200))
	}
	return ""
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// tailWriter keeps the first 64 KB of what is written.
type tailWriter struct{ b []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	if n := 1<<16 - len(t.b); n > 0 {
		if n > len(p) {
			n = len(p)
		}
		t.b = append(t.b, p[:n]...)
	}
	return len(p), nil
}

func (t *tailWriter) String() string { return string(t.b) }
