package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	goscan "go/scanner"
	"io"
	"io/fs"
	"math/rand/v2"
	"net"
	"os"
	"strings"
	"syscall"
)

// Injected failures of all kinds: a caller may see any error, also ones that
// mean something elsewhere, like io.EOF.

type emptyFailure struct{}

func (*emptyFailure) Error() string { return "" }

type timeoutFailure struct{}

func (*timeoutFailure) Error() string   { return "i/o timeout" }
func (*timeoutFailure) Timeout() bool   { return true }
func (*timeoutFailure) Temporary() bool { return true }

// likeEOF claims to be io.EOF.
type likeEOF struct{}

func (*likeEOF) Error() string        { return "EOF" }
func (*likeEOF) Is(target error) bool { return target == io.EOF }

func anyFault(r *rand.Rand) error {
	base := pick(r, []error{
		errors.New("injected failure"), errors.New("EOF"), io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
		fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, fs.ErrInvalid, context.Canceled, context.DeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, fs.SkipDir, fs.SkipAll,
		errors.ErrUnsupported, net.ErrClosed, os.ErrDeadlineExceeded, bytes.ErrTooLarge,
		&emptyFailure{}, &timeoutFailure{}, &likeEOF{}, &fs.PathError{Op: "write", Path: "x", Err: syscall.EIO}, goscan.ErrorList{{Msg: "x"}}[0],
	})
	switch r.IntN(6) {
	case 0:
		return fmt.Errorf("context: %w", base)
	case 1:
		return &fs.PathError{Op: "read", Path: "f", Err: base}
	case 2:
		return fmt.Errorf("a: %w", fmt.Errorf("b: %w", base))
	}
	return base
}

// aReader delivers s like some reader that a caller may use.
func aReader(r *rand.Rand, s string) (string, io.Reader) {
	switch r.IntN(10) {
	case 7:
		b := strings.NewReader("skipped" + s)
		for i := 0; i < 7; i++ {
			_, _ = b.ReadByte()
		}
		return "a strings.Reader that was read from before", b
	case 8:
		b := bufio.NewReaderSize(strings.NewReader("skipped"+s), 16<<r.IntN(10))
		_, _ = b.Peek(9)
		_, _ = b.Discard(7)
		return "a bufio.Reader that was read from before", b
	case 0:
		b := bytes.NewBufferString("skipped" + s)
		b.Next(7)
		return "a buffer that was read from before", b
	case 1:
		b := bytes.NewReader([]byte("skipped" + s))
		_, _ = b.Seek(7, io.SeekStart)
		return "a bytes.Reader that was read from before", b
	case 2:
		k := r.IntN(len(s) + 1)
		return "a chain of readers", io.MultiReader(bytes.NewBufferString(s[:k]), bytes.NewBufferString(s[k:]))
	case 3:
		return "a limited reader", io.LimitReader(bytes.NewReader([]byte(s+"@garbage{")), int64(len(s)))
	case 4:
		return "a section", io.NewSectionReader(bytes.NewReader([]byte("@x{"+s+"@garbage{")), 3, int64(len(s)))
	case 5:
		pr, pw := io.Pipe()
		n := 1 + r.IntN(len(s)+1)
		go func() {
			for len(s) > 0 {
				k := min(n, len(s))
				_, _ = pw.Write([]byte(s[:k]))
				s = s[k:]
			}
			_ = pw.Close()
		}()
		return "a pipe", pr
	case 6:
		return "a tee", io.TeeReader(bytes.NewReader([]byte(s)), io.Discard)
	default:
		return "a file", nil
	}
}
