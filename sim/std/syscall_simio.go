// Copied into package syscall through -overlay: the simulated disk, pipe and
// process of the command line tool. With VERIFSIM_ROOT unset every call is
// passed through untouched.

package syscall

import (
	"sync"
	"unsafe"
)

type simIOFault struct {
	at   int
	kind string
	arg  int
}

var (
	simIOMut   sync.Mutex
	simIOState int // 0 unknown, 1 off, 2 on
	simIORoot  string
	simIOCwd   string
	simIOPlan  []simIOFault
	simIOLog   = -1
	simIOCount int
	simIOFull  bool
	simIOFds   map[int]string
)

var simIOErrs = map[string]Errno{
	"EIO": EIO, "ENOSPC": ENOSPC, "EACCES": EACCES, "EMFILE": EMFILE, "EINTR": EINTR,
	"EDQUOT": EDQUOT, "EROFS": EROFS, "EPERM": EPERM, "ENFILE": ENFILE, "ESTALE": ESTALE, "EPIPE": EPIPE,
}

func simIOAtoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

func simIOItoa(n int) string {
	if n < 0 {
		return "-" + simIOItoa(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return simIOItoa(n/10) + string(rune('0'+n%10))
}

func simIOStart() {
	simIOState = 1
	root, ok := Getenv("VERIFSIM_ROOT")
	if !ok || root == "" {
		return
	}
	simIOState = 2
	simIORoot = root
	simIOCwd, _ = Getenv("VERIFSIM_CWD")
	simIOFds = map[int]string{0: "<stdin>", 1: "<stdout>"}
	if lf, ok := Getenv("VERIFSIM_LOG"); ok {
		fd, err := openat(_AT_FDCWD, lf, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC|O_LARGEFILE, 0o644)
		if err == nil {
			simIOLog = fd
		}
	}
	plan, _ := Getenv("VERIFSIM_IO")
	// at:kind:arg;...
	f := []string{""}
	flush := func() {
		if len(f) == 3 {
			simIOPlan = append(simIOPlan, simIOFault{simIOAtoi(f[0]), f[1], simIOAtoi(f[2])})
		}
		f = []string{""}
	}
	for i := 0; i < len(plan); i++ {
		switch plan[i] {
		case ';':
			flush()
		case ':':
			f = append(f, "")
		default:
			f[len(f)-1] += string(rune(plan[i]))
		}
	}
	flush()
}

func simIOWriteLog(s string) {
	if simIOLog < 0 {
		return
	}
	b := []byte(s)
	for len(b) > 0 {
		n, err := write(simIOLog, b)
		if err != nil {
			return
		}
		b = b[n:]
	}
}

func simIOHex(p []byte) string {
	const d = "0123456789abcdef"
	b := make([]byte, 0, 2*len(p))
	for _, c := range p {
		b = append(b, d[c>>4], d[c&15])
	}
	return string(b)
}

// simIOClean resolves . and .. in an absolute path.
func simIOClean(path string) string {
	var parts []string
	cur := ""
	for i := 0; i <= len(path); i++ {
		if i < len(path) && path[i] != '/' {
			cur += path[i : i+1]
			continue
		}
		switch cur {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, cur)
		}
		cur = ""
	}
	out := ""
	for _, p := range parts {
		out += "/" + p
	}
	return out
}

// The seed of map iteration order.
func init() {
	if s, ok := Getenv("VERIFSIM_MAPSEED"); ok {
		sync.SimSeedRand(uint64(simIOAtoi(s)))
	}
}

// simIOTracked maps a path to its name below the root, or "".
func simIOTracked(path string) string {
	if simIOState == 1 {
		return ""
	}
	if simIOState == 0 {
		simIOStart()
		if simIOState == 1 {
			return ""
		}
	}
	if len(path) == 0 {
		return ""
	}
	if path[0] != '/' {
		path = simIOClean(simIORoot + "/" + simIOCwd + "/" + path)
	}
	n := len(simIORoot)
	if len(path) >= n && path[:n] == simIORoot && (len(path) == n || path[n] == '/') {
		if len(path) <= n+1 {
			return "."
		}
		return path[n+1:]
	}
	return ""
}

func simIOFd(fd int) string {
	if simIOState != 2 {
		if simIOState == 1 {
			return ""
		}
		simIOStart()
		if simIOState == 1 {
			return ""
		}
	}
	return simIOFds[fd]
}

// simIOPoint is one system call on simulated state. It returns the fault to
// apply, if any.
func simIOPoint(op, name, extra string, writes bool) (kind string, arg int) {
	simIOCount++
	for _, f := range simIOPlan {
		if f.at == simIOCount {
			kind, arg = f.kind, f.arg
		}
	}
	// what cannot happen to this call does not happen
	switch {
	case kind == "short" && op != "read" && op != "write", kind == "torn" && op != "write":
		kind = ""
	case kind == "EINTR":
		switch op {
		case "open", "read", "write", "stat", "lstat", "fstat":
		default:
			kind = ""
		}
	}
	if kind == "" && simIOFull && writes {
		kind = "ENOSPC"
	}
	if kind == "full" {
		simIOFull = true
		if !writes {
			kind = ""
		}
	}
	simIOWriteLog(simIOItoa(simIOCount) + "\t" + op + "\t" + name + "\t" + extra + "\t" + kind + "\n")
	if kind == "crash" {
		simIODie()
	}
	return kind, arg
}

func simIODie() {
	for {
		RawSyscall(SYS_EXIT_GROUP, 137, 0, 0)
	}
}

func simIOSimple(op, name, extra string, writes bool) error {
	kind, _ := simIOPoint(op, name, extra, writes)
	if e, ok := simIOErrs[kind]; ok {
		return e
	}
	return nil
}

func simIORead(fd int, p []byte) (n int, err error, done bool) {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOFd(fd)
	if name == "" {
		return 0, nil, false
	}
	kind, _ := simIOPoint("read", name, simIOItoa(len(p)), false)
	if e, ok := simIOErrs[kind]; ok {
		return -1, e, true
	}
	if kind == "short" && len(p) > 1 {
		n, err = read(fd, p[:1+len(p)/7%64])
		return n, err, true
	}
	return 0, nil, false
}

func simIOWrite(fd int, p []byte) (n int, err error, done bool) {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOFd(fd)
	if name == "" {
		return 0, nil, false
	}
	kind, arg := simIOPoint("write", name, simIOHex(p), true)
	if len(p) == 0 {
		return 0, nil, false
	}
	part := len(p) * (arg % 100) / 100
	switch kind {
	case "torn":
		write(fd, p[:part])
		simIODie()
	case "full":
		if part == 0 {
			return -1, ENOSPC, true
		}
		n, err = write(fd, p[:part])
		return n, err, true
	case "short":
		if part == 0 {
			part = 1
		}
		n, err = write(fd, p[:part])
		return n, err, true
	}
	if e, ok := simIOErrs[kind]; ok {
		return -1, e, true
	}
	return 0, nil, false
}

func simIOOpen(path string, mode int) (string, error) {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOTracked(path)
	if name == "" {
		return "", nil
	}
	return name, simIOSimple("open", name, simIOItoa(mode), mode&(O_CREAT) != 0)
}

func simIOOpened(fd int, name string) {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	if name != "" && fd >= 0 {
		simIOFds[fd] = name
	}
}

func simIOClose(fd int) error {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOFd(fd)
	if name == "" {
		return nil
	}
	err := simIOSimple("close", name, "", false)
	delete(simIOFds, fd)
	return err
}

func simIOOnFd(op string, fd int, extra int, writes bool) error {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOFd(fd)
	if name == "" {
		return nil
	}
	return simIOSimple(op, name, simIOItoa(extra), writes)
}

func simIOOnPath(op, path, extra string, writes bool) error {
	simIOMut.Lock()
	defer simIOMut.Unlock()
	name := simIOTracked(path)
	if name == "" {
		return nil
	}
	if t := simIOTracked(extra); t != "" {
		extra = t
	}
	return simIOSimple(op, name, extra, writes)
}

var _ unsafe.Pointer
