package core

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing/synctest"
	"time"

	"sourcegraph.com/sourcegraph/appdash"
	"verif/ad"
	"verif/mon"
)

func init() {
	mon.RegV("C04", "every-write-is-a-crash-point", 640, 12000, crashPointCase)
	mon.RegV("C04", "changes", 320, 8000, persistChanges)
	mon.Reg("C04", "concurrent-readers", 48, 700, persistReaders)
	mon.Reg("C04", "killed", 48, 800, persistKilled)
	mon.Reg("C04", "disk-full", 40, 500, persistFull)
	mon.RegChild("persist", persistChild)
}

var errSave = errors.New("injected save failure")

// saveErrs are errors a failing save may have.
var saveErrs = []error{errSave, errSave, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, os.ErrExist, os.ErrNotExist, os.ErrPermission,
	syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, syscall.EIO, os.ErrDeadlineExceeded,
	&os.PathError{Op: "write", Path: "x", Err: syscall.ENOSPC}, fmt.Errorf("wrapped: %w", io.ErrShortWrite), errors.New("")}

// tap is a PersistentStore that tells the monitor about every Write.
type tap struct {
	*appdash.MemoryStore
	write func(w io.Writer) error
}

func (t *tap) Write(w io.Writer) error { return t.write(w) }

type writerFunc func([]byte) (int, error)

func (f writerFunc) Write(p []byte) (int, error) { return f(p) }

// itemSpan is the span of the n-th item of a sequence of collections that is
// spread over several traces; a snapshot of one instant holds items 1..k.
func itemSpan(n int) appdash.SpanID {
	return appdash.SpanID{Trace: appdash.ID(1 + n%3), Span: appdash.ID(10 + n%7), Parent: appdash.ID(9 + n%7)}
}

func item(n int) ad.Ann { return ad.Ann{Key: "i", Value: []byte(strconv.Itoa(n))} }

// prefixLen checks that a store holds exactly the items 1..k and returns k.
func prefixLen(ms *appdash.MemoryStore) (int, error) {
	ts, err := ms.Traces(appdash.TracesOpts{})
	if err != nil {
		return 0, err
	}
	have := map[int]bool{}
	top := 0
	for _, t := range ts {
		ns, err := ad.Flatten(t, 100000)
		if err != nil {
			return 0, err
		}
		for _, n := range ns {
			for _, a := range n.Anns {
				i, err := strconv.Atoi(string(a.Value))
				if err != nil || have[i] || itemSpan(i).Span != n.ID.Span || itemSpan(i).Trace != n.ID.Trace {
					return 0, fmt.Errorf("item %q is doubled or on the wrong span %v", a.Value, n.ID)
				}
				have[i] = true
				top = max(top, i)
			}
		}
	}
	if len(have) != top {
		return 0, fmt.Errorf("not a snapshot of one instant: has item %d but only %d of the items up to it", top, len(have))
	}
	return top, nil
}

func loadFile(p string) (*appdash.MemoryStore, error) {
	b, err := os.ReadFile(p)
	if err != nil {
		return nil, err
	}
	ms := appdash.NewMemoryStore()
	rd := bytes.NewReader(b)
	if _, err := ms.ReadFrom(rd); err != nil {
		return nil, err
	}
	if n := rd.Len(); n != 0 {
		return nil, fmt.Errorf("%d bytes of %d left over after the snapshot", n, len(b))
	}
	return ms, nil
}

// setTmp points the system's temporary directory somewhere for one case.
func setTmp(c *mon.Case) string {
	old := os.Getenv("TMPDIR")
	c.Cleanup(func() { os.Setenv("TMPDIR", old) })
	switch c.R.Intn(4) {
	case 0:
		os.Setenv("TMPDIR", "/nonexistent-verif-dir")
		return "missing temp dir"
	case 1: // another file system
		d, err := os.MkdirTemp("/dev/shm", "verif")
		if err == nil {
			c.Cleanup(func() { os.RemoveAll(d) })
			os.Setenv("TMPDIR", d)
			return "temp dir on another file system"
		}
	}
	return "usual temp dir"
}

// crashPointCase looks at the file at every write of a save, between saves and
// after a failed save. What it sees is what a kill at that point would leave.
func crashPointCase(c *mon.Case) {
	r := c.R
	dir := c.Scratch()
	tmpKind := setTmp(c)
	file := filepath.Join(dir, "store.gob")
	if r.Intn(3) == 0 {
		sub := filepath.Join(dir, "a b", "c")
		os.MkdirAll(sub, 0o755)
		file = filepath.Join(sub, "x")
	}
	if r.Intn(4) == 0 {
		wd, _ := os.Getwd()
		os.Chdir(filepath.Dir(file))
		c.Cleanup(func() { os.Chdir(wd) })
		file = filepath.Base(file)
	}
	var last []byte // expected content; nil when the file must not exist
	if r.Intn(2) == 0 {
		last = []byte("previous content " + ad.Str(r))
		os.WriteFile(file, last, 0o644)
	}
	ms := appdash.NewMemoryStore()
	seq, lastK := 0, -1
	looks, saves := 0, 0
	pending := -1 // items in the store when the last finished save began
	look := func(when string) {
		looks++
		b, err := os.ReadFile(file)
		if err != nil && !os.IsNotExist(err) {
			c.Failf("unreadable", "%s: %v", when, err)
			return
		}
		if err == nil && last != nil && bytes.Equal(b, last) || err != nil && last == nil {
			return
		}
		if err != nil {
			c.Failf("vanished", "%s: the file no longer exists", when)
			last = nil
			return
		}
		got, lerr := loadFile(file)
		if lerr != nil {
			c.Failf("incomplete", "%s: the file is not a complete snapshot: %v (%d bytes)", when, lerr, len(b))
			last = b
			return
		}
		k, perr := prefixLen(got)
		if perr != nil {
			c.Failf("mixed", "%s: %v", when, perr)
		}
		if k < lastK {
			c.Failf("went-back", "%s: the file went back from %d to %d items", when, lastK, k)
		}
		if k > seq {
			c.Failf("invented", "%s: %d items saved, %d collected", when, k, seq)
		}
		last, lastK = b, k
	}
	collect := func() {
		seq++
		ms.Collect(itemSpan(seq), item(seq))
	}
	failAt := 1 + r.Intn(6) // the save that fails
	failHow := r.Intn(4)
	saveErr := saveErrs[r.Intn(len(saveErrs))]
	chunk := 1 + r.Intn(200)
	st := &tap{MemoryStore: ms}
	abort := false
	st.write = func(w io.Writer) error {
		if abort {
			runtime.Goexit()
		}
		saves++
		if pending >= 0 {
			look("when the next save begins")
			if lastK < pending {
				c.Failf("stale", "%d items were collected before a save began that is done, the file has %d", pending, lastK)
			}
		}
		pending = seq
		look("before the first write")
		var buf bytes.Buffer
		if err := ms.Write(&buf); err != nil {
			return err
		}
		b := buf.Bytes()
		limit := len(b)
		if saves == failAt {
			limit = r.Intn(len(b) + 1)
		}
		for off := 0; off < limit; off += chunk {
			end := min(off+chunk, limit)
			if _, err := w.Write(b[off:end]); err != nil {
				c.Failf("write-error", "writing a save: %v", err)
				return err
			}
			look(fmt.Sprintf("with %d of %d bytes of a save written", end, len(b)))
		}
		if saves == failAt {
			switch failHow {
			case 0: // everything written and then an error
				return saveErr
			case 1:
				os.RemoveAll(filepath.Dir(absPath(file)))
				last, lastK = nil, -1
				return nil
			}
			return saveErr
		}
		return nil
	}
	if failHow == 2 {
		failAt = 1 + r.Intn(3)
	}
	dirs := []string{filepath.Dir(absPath(file))}
	if strings.HasPrefix(os.TempDir(), "/dev/shm/verif") {
		dirs = append(dirs, os.TempDir()) // nobody else uses it
	}
	before := entries(filepath.Base(file), dirs...)
	interval := time.Duration(1+r.Intn(5000)) * time.Millisecond
	errc := make(chan error, 1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		errc <- appdash.PersistEvery(st, interval, file)
	}()
	ended := false
	var perr error
	for i := 0; i < 400 && !ended; i++ {
		for k := r.Intn(4); k > 0; k-- {
			collect()
		}
		synctest.Wait()
		look("between saves")
		time.Sleep(time.Duration(1 + r.Int63n(int64(interval))))
		synctest.Wait()
		select {
		case perr = <-errc:
			ended = true
		default:
		}
	}
	if !ended {
		c.Failf("never-saves", "PersistEvery(%v) began %d saves in %v or ignored a failed one", interval, saves, 200*interval)
		abort = true
		<-done
		return
	}
	if perr == nil {
		c.Failf("failure-not-reported", "PersistEvery returned nil after a failed save")
	}
	if saves < failAt {
		c.Failf("save-error", "save %d should have succeeded, PersistEvery(%s, %s): %v", saves, filepath.Dir(file), tmpKind, perr)
	}
	if failHow != 1 {
		before := append([]byte(nil), last...)
		look("after a failed save")
		if !bytes.Equal(before, last) {
			c.Failf("failed-save-visible", "a failed save changed the file")
		}
	}
	if failHow != 1 {
		if after := entries(filepath.Base(file), dirs...); after != before {
			c.Failf("left-behind", "after %d saves and a failed one there are other files than before:%s\nbefore:%s", saves-1, after, before)
		}
	}
	c.Count("looks at the file", looks)
	c.Count("saves", saves)
	c.Mark(tmpKind, failAt, failHow, saveErr, chunk, seq, looks)
	c.Sample("%s, save %d fails (kind %d), chunks of %d bytes, %d looks", tmpKind, failAt, failHow, chunk, looks)
}

// entries lists what is in the directories, except for one name.
func entries(except string, dirs ...string) string {
	s := ""
	for _, d := range dirs {
		es, _ := os.ReadDir(d)
		for _, e := range es {
			if e.Name() != except {
				s += " " + filepath.Join(d, e.Name())
			}
		}
	}
	return s
}

func absPath(p string) string {
	a, err := filepath.Abs(p)
	if err != nil || !strings.Contains(a, "verif") {
		panic("harness: refusing path " + a)
	}
	return a
}

// persistChanges changes the store in many ways between saves (its encoding
// may keep its size, shrink, or be what it was before) and compares the file
// with the store after each save.
func persistChanges(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	ms := appdash.NewMemoryStore()
	var ids []appdash.ID
	n, saves, same := 0, 0, 0
	rounds := 3 + r.Intn(12)
	fresh := func() appdash.ID { n++; return appdash.ID(1000 + n) }
	add := func(id appdash.ID) {
		ids = append(ids, id)
		n++
		ms.Collect(appdash.SpanID{Trace: id, Span: 5}, ad.Ann{Key: "n", Value: []byte(fmt.Sprintf("%06d", n))})
		if len(ids)%2 == 0 {
			ms.Collect(appdash.SpanID{Trace: id, Span: 6, Parent: 5}, ad.Ann{Key: "m"})
		}
	}
	del := func() {
		if len(ids) > 0 {
			i := r.Intn(len(ids))
			ms.Delete(ids[i])
			ids = append(ids[:i:i], ids[i+1:]...)
		}
	}
	canon := func(s appdash.Queryer) string {
		ts, err := s.Traces(appdash.TracesOpts{})
		if err != nil {
			return err.Error()
		}
		return ad.CanonAll(ts)
	}
	for i := r.Intn(30); i > 0; i-- {
		add(fresh())
	}
	want, size := "", -1
	what := "start"
	step := func() {
		what = []string{"nothing", "growth", "deletion", "replacement", "new value", "all deleted", "file removed", "same IDs in another order", "annotations swapped", "large"}[r.Intn(10)]
		switch what {
		case "growth":
			add(fresh())
		case "deletion":
			del()
		case "replacement": // one of the same size for another
			del()
			add(fresh())
		case "new value":
			if len(ids) > 0 {
				i := r.Intn(len(ids))
				ms.Delete(ids[i])
				id := ids[i]
				ids = append(ids[:i:i], ids[i+1:]...)
				add(id)
			}
		case "all deleted":
			ms.Delete(ids...)
			ids = nil
		case "file removed":
			os.Remove(file)
		case "same IDs in another order":
			old := ids
			ms.Delete(old...)
			ids = nil
			for _, i := range r.Perm(len(old)) {
				add(old[i])
			}
		case "annotations swapped":
			if len(ids) > 1 {
				a, b := ids[0], ids[1]
				ms.Delete(a, b)
				ids = ids[2:]
				add(b)
				add(a)
			}
		case "large":
			id := fresh()
			ids = append(ids, id)
			ms.Collect(appdash.SpanID{Trace: id, Span: 1}, ad.Ann{Key: "large", Value: make([]byte, 1<<uint(10+r.Intn(11)))})
		}
	}
	st := &tap{MemoryStore: ms}
	st.write = func(w io.Writer) error {
		if saves > 0 {
			got, err := loadFile(file)
			if err != nil {
				c.Failf("incomplete", "after save %d (before it: %s): %v", saves, what, err)
				return errSave
			}
			if g := canon(got); g != want {
				c.Failf("stale", "save %d was made of a store in which there had been a change (%s), and the file does not have what was in it:\n%s", saves, what, cutN(ad.Diff(g, want), 1500))
				return errSave
			}
		}
		if saves >= rounds {
			return errSave
		}
		saves++
		for k := r.Intn(3); k >= 0; k-- {
			step()
		}
		want = canon(ms)
		var buf bytes.Buffer
		err := ms.Write(&buf)
		if buf.Len() == size {
			same++
		}
		size = buf.Len()
		if err != nil {
			return err
		}
		_, err = io.Copy(w, &buf)
		return err
	}
	if err := appdash.PersistEvery(st, time.Duration(1+r.Intn(100000))*time.Millisecond, file); err == nil {
		c.Failf("failure-not-reported", "PersistEvery returned nil after a failed save")
	}
	if saves < rounds && !c.Failed() {
		c.Failf("save-error", "only %d of %d saves were made", saves, rounds)
	}
	c.Count("saves", saves)
	c.Count("saves of the same size as the one before", same)
	c.Mark(rounds, n, same, what, size)
	c.Sample("%d saves, %d of the same size as the one before, last %d bytes", saves, same, size)
}

// persistReaders loads the file continuously while it is saved and the store
// is used.
func persistReaders(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	tmpKind := setTmp(c)
	ms := appdash.NewMemoryStore()
	var started, done atomic.Int64
	target := int64(150 + r.Intn(250))
	var saveFloor atomic.Int64 // items certainly in the file
	saveFloor.Store(-1)
	pend := int64(-1)
	saves := 0
	st := &tap{MemoryStore: ms}
	st.write = func(w io.Writer) error {
		if pend >= 0 {
			saveFloor.Store(pend)
		}
		if done.Load() >= target && saves > 3 {
			return errSave
		}
		pend = done.Load()
		saves++
		return ms.Write(w)
	}
	errc := make(chan error, 1)
	go func() { errc <- appdash.PersistEvery(st, time.Duration(1+r.Intn(3))*time.Millisecond, file) }()
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			lastK, n, grew := -1, 0, 0
			for {
				select {
				case <-stop:
					c.Count("loads by readers", n)
					c.Count("loads that saw growth", grew)
					return
				default:
				}
				floor := saveFloor.Load()
				got, err := loadFile(file)
				if os.IsNotExist(err) {
					if floor >= 0 {
						c.Failf("vanished", "the file does not exist after a save was done")
						return
					}
					time.Sleep(100 * time.Microsecond)
					continue
				}
				if err != nil {
					c.Failf("incomplete", "a reader could not load the file: %v", err)
					return
				}
				k, err := prefixLen(got)
				if err != nil {
					c.Failf("mixed", "%v", err)
					return
				}
				if k < lastK {
					c.Failf("went-back", "the file went back from %d to %d items", lastK, k)
					return
				}
				if int64(k) < floor {
					c.Failf("stale", "%d items were collected before a save began that is done, the file has %d", floor, k)
					return
				}
				if int64(k) > started.Load() {
					c.Failf("invented", "%d items saved, %d collected", k, started.Load())
				}
				if k > lastK {
					grew++
				}
				lastK = k
				n++
			}
		}()
	}
	for n := int64(1); n <= target; n++ {
		started.Store(n)
		ms.Collect(itemSpan(int(n)), item(int(n)))
		done.Store(n)
		if n%4 == 0 {
			time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
		}
	}
	err := <-errc
	close(stop)
	wg.Wait()
	if !errors.Is(err, errSave) {
		c.Failf("save-error", "PersistEvery: %v", err)
	}
	c.Count("saves", saves)
	c.Mark(tmpKind, saves, target)
	c.Sample("%s: %d saves of up to %d items with 2 readers", tmpKind, saves, target)
}

// persistChild collects items and reports what it does on stdout, one line
// per event, until it is killed or saving fails.
func persistChild(args []string) {
	file := args[0]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	limit, _ := strconv.ParseUint(args[2], 10, 64)
	pad, _ := strconv.Atoi(args[3])
	r := rand.New(rand.NewSource(seed))
	ms := appdash.NewMemoryStore()
	for i := 0; i < pad; i++ { // makes saves take longer
		ms.Collect(appdash.SpanID{Trace: appdash.ID(1000 + i), Span: 1}, ad.Ann{Key: "pad", Value: bytes.Repeat([]byte("x"), 200)})
	}
	if limit > 0 {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: limit, Max: limit}); err != nil {
			fmt.Println("nolimit", err)
			return
		}
	}
	var done atomic.Int64
	pend := int64(-1)
	var mu sync.Mutex
	say := func(f string, a ...any) {
		mu.Lock()
		fmt.Fprintf(os.Stdout, f+"\n", a...)
		mu.Unlock()
	}
	st := &tap{MemoryStore: ms}
	st.write = func(w io.Writer) error {
		if pend >= 0 {
			say("saved %d", pend)
		}
		pend = done.Load()
		return ms.Write(w)
	}
	go func() {
		err := appdash.PersistEvery(st, time.Millisecond, file)
		say("ended %v", err)
		os.Exit(0)
	}()
	for n := 1; ; n++ {
		say("start %d", n)
		ms.Collect(itemSpan(n), item(n))
		done.Store(int64(n))
		time.Sleep(time.Duration(r.Intn(400)) * time.Microsecond)
		if n > 4000 {
			time.Sleep(10 * time.Millisecond)
		}
	}
}

func loadPadded(file string, pad int) (int, error) {
	got, err := loadFile(file)
	if err != nil {
		return 0, err
	}
	for i := 0; i < pad; i++ {
		if _, err := got.Trace(appdash.ID(1000 + i)); err != nil {
			return 0, fmt.Errorf("trace %d collected before all saves is missing", 1000+i)
		}
		got.Delete(appdash.ID(1000 + i))
	}
	return prefixLen(got)
}

// childLog follows a child's report.
type childLog struct {
	mu             sync.Mutex
	started, saved int
	nsaves         int
	ended          string
	eof            chan struct{}
}

func follow(rd io.Reader) *childLog {
	l := &childLog{saved: -1, eof: make(chan struct{})}
	go func() {
		sc := bufio.NewScanner(rd)
		for sc.Scan() {
			w, rest, _ := strings.Cut(sc.Text(), " ")
			l.mu.Lock()
			switch w {
			case "start":
				l.started, _ = strconv.Atoi(rest)
			case "saved":
				l.saved, _ = strconv.Atoi(rest)
				l.nsaves++
			case "ended", "nolimit":
				l.ended = sc.Text()
			}
			l.mu.Unlock()
		}
		close(l.eof)
	}()
	return l
}

// persistKilled kills a process while it saves.
func persistKilled(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	pad := []int{0, 20, 300, 1500}[r.Intn(4)]
	cmd := mon.Child("persist", file, fmt.Sprint(r.Int63()), "0", fmt.Sprint(pad))
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		c.Inconclusive("child: %v", err)
		return
	}
	defer cmd.Process.Kill()
	l := follow(out)
	want := 1 + r.Intn(12)
	ok := mon.Await(func() bool {
		l.mu.Lock()
		defer l.mu.Unlock()
		return l.nsaves >= want || l.ended != ""
	})
	time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	cmd.Process.Kill()
	<-l.eof
	cmd.Wait()
	if l.ended != "" {
		c.Failf("save-error", "saving failed: %s", l.ended)
		return
	}
	if ok != "ok" {
		c.Inconclusive("the child saved %d times only", l.nsaves)
		return
	}
	k, err := loadPadded(file, pad)
	if err != nil {
		c.Failf("incomplete", "after a kill the file does not load as one snapshot: %v", err)
		return
	}
	if k < l.saved || k > l.started {
		c.Failf("stale", "after a kill the file has %d items; %d were in a finished save, %d were collected", k, l.saved, l.started)
	}
	c.Count("kills", 1)
	c.Count("finished saves before the kill", l.nsaves)
	c.Mark(pad, want, l.nsaves, k)
	c.Sample("killed after %d finished saves, %d items loaded (%d finished, %d collected)", l.nsaves, k, l.saved, l.started)
}

// persistFull makes writing the file fail once it exceeds a size.
func persistFull(c *mon.Case) {
	r := c.R
	file := filepath.Join(c.Scratch(), "store.gob")
	prev := r.Intn(2) == 0
	if prev {
		os.WriteFile(file, []byte("previous"), 0o644)
	}
	limit := []int{1, 100, 1000, 4000, 8000, 20000}[r.Intn(6)] + r.Intn(500)
	cmd := mon.Child("persist", file, fmt.Sprint(r.Int63()), fmt.Sprint(limit), "0")
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		c.Inconclusive("child: %v", err)
		return
	}
	l := follow(out)
	looks := 0
	st := mon.Await(func() bool {
		select {
		case <-l.eof:
			return true
		default:
		}
		looks++
		b, err := os.ReadFile(file)
		if err == nil && !(prev && string(b) == "previous") {
			ms := appdash.NewMemoryStore()
			if _, err := ms.ReadFrom(bytes.NewReader(b)); err != nil {
				c.Failf("incomplete", "while saves fail the file does not load: %v (%d bytes, limit %d)", err, len(b), limit)
				return true
			}
		}
		return false
	})
	cmd.Process.Kill()
	<-l.eof
	cmd.Wait()
	if c.Failed() {
		return
	}
	if st != "ok" {
		c.Failf("failure-not-reported", "PersistEvery does not return although no file may exceed %d bytes; %d items collected", limit, l.started)
		return
	}
	if !strings.HasPrefix(l.ended, "ended ") || l.ended == "ended <nil>" {
		c.Failf("failure-not-reported", "after writing failed the process said %q", l.ended)
		return
	}
	b, err := os.ReadFile(file)
	switch {
	case err != nil && !prev && os.IsNotExist(err) && l.nsaves == 0:
	case err == nil && prev && string(b) == "previous" && l.nsaves == 0:
	default:
		k, lerr := loadPadded(file, 0)
		if lerr != nil {
			c.Failf("incomplete", "after a failed save the file does not load: %v (read: %v, %d saves done)", lerr, err, l.nsaves)
		} else if k < l.saved {
			c.Failf("stale", "after a failed save the file has %d items, %d were in a finished save", k, l.saved)
		}
	}
	c.Count("processes whose saves failed", 1)
	c.Count("finished saves before the failure", l.nsaves)
	c.Mark(limit, prev, l.nsaves)
	c.Sample("files limited to %d bytes: %d saves, then %s", limit, l.nsaves, l.ended)
}
