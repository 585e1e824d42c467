package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"
)

// A tap watches, through a seccomp listener, every system call of a process
// and its descendants that can change the file system, before it is carried
// out, and decides whether it goes ahead, fails, or everything is killed.

const (
	secRetNotif     = 0x7fc00000
	secRetAllow     = 0x7fff0000
	secNotifRecv    = 0xc0502100
	secNotifSend    = 0xc0182101
	secFlagContinue = 1
	auditX8664      = 0xc000003e
)

type sysOp struct {
	Pid  int
	Name string
	Path string
}

var tapCalls = map[int32]string{
	1: "write", 18: "pwrite64", 20: "writev", 76: "truncate", 77: "ftruncate", 82: "rename", 83: "mkdir", 84: "rmdir",
	86: "link", 87: "unlink", 88: "symlink", 257: "openat", 258: "mkdirat", 263: "unlinkat", 264: "renameat",
	265: "linkat", 266: "symlinkat", 316: "renameat2", 326: "copy_file_range", 2: "open", 85: "creat",
}

func init() {
	helpers["tap"] = func(args []string) int { return tapExec(args) }
}

func stmt(code uint16, k uint32) syscall.SockFilter { return syscall.SockFilter{Code: code, K: k} }
func jump(code uint16, k uint32, jt, jf uint8) syscall.SockFilter {
	return syscall.SockFilter{Code: code, Jt: jt, Jf: jf, K: k}
}

// tapExec installs the filter on this thread, hands the listener to the
// supervisor over fd 3 and becomes the given command.
func tapExec(argv []string) int {
	runtime.LockOSThread()
	const ld, jeq, jset, ret = syscall.BPF_LD | syscall.BPF_W | syscall.BPF_ABS, syscall.BPF_JMP | syscall.BPF_JEQ | syscall.BPF_K, syscall.BPF_JMP | syscall.BPF_JSET | syscall.BPF_K, syscall.BPF_RET | syscall.BPF_K
	wr := uint32(syscall.O_WRONLY | syscall.O_RDWR | syscall.O_CREAT | syscall.O_TRUNC)
	prog := []syscall.SockFilter{
		stmt(ld, 4), jump(jeq, auditX8664, 1, 0), stmt(ret, secRetAllow), stmt(ld, 0),
	}
	for nr := range tapCalls {
		if nr == 2 || nr == 257 {
			continue
		}
		prog = append(prog, jump(jeq, uint32(nr), 0, 1), stmt(ret, secRetNotif))
	}
	// open(path, flags): args[1]; openat(dir, path, flags): args[2]
	for _, o := range [][2]uint32{{2, 16 + 8}, {257, 16 + 16}} {
		prog = append(prog, jump(jeq, o[0], 0, 4), stmt(ld, o[1]), jump(jset, wr, 0, 1), stmt(ret, secRetNotif), stmt(ret, secRetAllow))
	}
	prog = append(prog, stmt(ret, secRetAllow))
	fp := syscall.SockFprog{Len: uint16(len(prog)), Filter: &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38 /* NO_NEW_PRIVS */, 1, 0, 0, 0, 0); e != 0 {
		fmt.Fprintln(os.Stderr, "tap: no_new_privs:", e)
		return 96
	}
	exe, err := os.Stat(argv[0])
	if err != nil || exe.IsDir() {
		fmt.Fprintln(os.Stderr, "tap:", err)
		return 96
	}
	env := os.Environ()
	a0, _ := syscall.BytePtrFromString(argv[0])
	av, _ := syscall.SlicePtrFromStrings(argv)
	ev, _ := syscall.SlicePtrFromStrings(env)
	fd, _, e := syscall.RawSyscall(317, 1, 1<<3|1<<5, uintptr(unsafe.Pointer(&fp)))
	if e != 0 {
		fd, _, e = syscall.RawSyscall(317, 1, 1<<3, uintptr(unsafe.Pointer(&fp)))
	}
	if e != 0 {
		fmt.Fprintln(os.Stderr, "tap: seccomp:", e)
		return 96
	}
	syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(int(fd)), nil, 0)
	syscall.RawSyscall(syscall.SYS_CLOSE, fd, 0, 0)
	syscall.RawSyscall(syscall.SYS_CLOSE, 3, 0, 0)
	syscall.RawSyscall(syscall.SYS_EXECVE, uintptr(unsafe.Pointer(a0)), uintptr(unsafe.Pointer(&av[0])), uintptr(unsafe.Pointer(&ev[0])))
	return 96
}

type secNotif struct {
	ID         uint64
	Pid, Flags uint32
	Nr         int32
	Arch       uint32
	IP         uint64
	Args       [6]uint64
}

type secResp struct {
	ID    uint64
	Val   int64
	Error int32
	Flags uint32
}

// decide gets each operation; it returns 0 to let it go ahead, an errno to
// make it fail, or -1 to leave the caller hanging (it is about to be killed).
type tapDecide func(op sysOp) int

// tapServe handles notifications until no process with the filter is left.
func tapServe(sock int, decide tapDecide) error {
	buf, oob := make([]byte, 8), make([]byte, 64)
	_, on, _, _, err := syscall.Recvmsg(sock, buf, oob, 0)
	syscall.Close(sock)
	if err != nil {
		return err
	}
	ms, err := syscall.ParseSocketControlMessage(oob[:on])
	if err != nil || len(ms) == 0 {
		return fmt.Errorf("no listener received")
	}
	fds, err := syscall.ParseUnixRights(&ms[0])
	if err != nil || len(fds) == 0 {
		return fmt.Errorf("no listener received")
	}
	l := fds[0]
	defer syscall.Close(l)
	type pollfd struct {
		fd      int32
		ev, rev int16
	}
	for {
		p := pollfd{fd: int32(l), ev: 1}
		n, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, 1000)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			return e
		}
		if n == 0 {
			continue
		}
		if p.rev&1 == 0 { // POLLHUP: nobody left
			return nil
		}
		var q secNotif
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), secNotifRecv, uintptr(unsafe.Pointer(&q))); e != 0 {
			continue // the caller was killed meanwhile
		}
		op := sysOp{Pid: int(q.Pid), Name: tapCalls[q.Nr], Path: opPath(int(q.Pid), q.Nr, q.Args)}
		v := decide(op)
		if v < 0 {
			continue
		}
		r := secResp{ID: q.ID}
		if v == 0 {
			r.Flags = secFlagContinue
		} else {
			r.Error = -int32(v)
		}
		syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), secNotifSend, uintptr(unsafe.Pointer(&r)))
	}
}

func memString(pid int, addr uint64) string {
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return ""
	}
	defer f.Close()
	b := make([]byte, 4096)
	n, _ := f.ReadAt(b, int64(addr))
	if n == 0 { // may straddle the end of a mapping
		n, _ = f.ReadAt(b[:256], int64(addr))
	}
	if i := bytes.IndexByte(b[:n], 0); i >= 0 {
		return string(b[:i])
	}
	return string(b[:n])
}

func atPath(pid int, dirfd uint64, addr uint64) string {
	s := memString(pid, addr)
	if filepath.IsAbs(s) {
		return s
	}
	base := ""
	if int32(dirfd) == -100 {
		base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
	} else {
		base, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(dirfd)))
	}
	return filepath.Join(base, s)
}

const atCwd = 0xffffff9c

func opPath(pid int, nr int32, a [6]uint64) string {
	switch nr {
	case 1, 18, 20, 77: // fd first
		s, _ := os.Readlink("/proc/" + strconv.Itoa(pid) + "/fd/" + strconv.Itoa(int(int32(a[0]))))
		return s
	case 326: // copy_file_range(in, off, out, ...)
		s, _ := os.Readlink("/proc/" + strconv.Itoa(pid) + "/fd/" + strconv.Itoa(int(int32(a[2]))))
		return s
	case 257, 258, 263:
		return atPath(pid, a[0], a[1])
	case 264, 316: // renameat(olddir, old, newdir, new)
		return atPath(pid, a[2], a[3])
	case 265:
		return atPath(pid, a[2], a[3])
	case 266: // symlinkat(target, dirfd, path)
		return atPath(pid, a[1], a[2])
	case 82, 86, 88: // rename(old, new), link, symlink
		return atPath(pid, atCwd, a[1])
	}
	return atPath(pid, atCwd, a[0])
}

func under(path, dir string) bool { return path == dir || strings.HasPrefix(path, dir+"/") }
