package main

import (
	"fmt"
	"io"
	"os"
	"syscall"
)

var (
	errOut  *os.File // the real stderr, after captureFDs
	capFile *os.File // everything the process writes to fd 1 and 2
)

// captureFDs redirects file descriptors 1 and 2 into a scratch file, so that anything the
// library prints or logs can be inspected. The harness itself reports on errOut.
func captureFDs() error {
	n, err := syscall.Dup(2)
	if err != nil {
		return err
	}
	errOut = os.NewFile(uintptr(n), "stderr")
	f, err := os.CreateTemp("", "hv-out-")
	if err != nil {
		return err
	}
	os.Remove(f.Name())
	capFile = f
	if err := syscall.Dup2(int(f.Fd()), 1); err != nil {
		return err
	}
	return syscall.Dup2(int(f.Fd()), 2)
}

func capOffset() int64 {
	if capFile == nil {
		return 0
	}
	st, err := capFile.Stat()
	if err != nil {
		return 0
	}
	return st.Size()
}

func capSince(off int64) string {
	if capFile == nil {
		return ""
	}
	end := capOffset()
	if end <= off {
		return ""
	}
	b := make([]byte, end-off)
	n, _ := capFile.ReadAt(b, off)
	return string(b[:n])
}

func capReset() {
	if capFile == nil {
		return
	}
	capFile.Truncate(0)
	capFile.Seek(0, io.SeekStart)
}

func fatal(f string, a ...interface{}) {
	w := errOut
	if w == nil {
		w = os.Stderr
	}
	fmt.Fprintf(w, "harness: "+f+"\n", a...)
	os.Exit(3)
}
