package h

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"syscall"
	"time"
)

var goferFrame = regexp.MustCompile(`github\.com/donnie4w/gofer/`)

// ChildCrash is what a process that the code under test crashed or hung leaves behind.
type ChildCrash struct{ What, Output string }

func (e *ChildCrash) Error() string { return e.What + ":\n" + e.Output }

// Child runs this test binary again with one more environment entry and input, and returns
// what it prints. A crash or an endless run within the code under test is a *ChildCrash;
// every other error is the harness's own.
func Child(env string, stdin []byte) ([]byte, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), env)
	cmd.Stdin = bytes.NewReader(stdin)
	var out, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &stderr
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(70*time.Second, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	err = cmd.Wait()
	late := !t.Stop()
	if err == nil {
		return out.Bytes(), nil
	}
	dump := stderr.Bytes()
	if len(dump) > 4000 {
		dump = dump[:4000]
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) && ee.ExitCode() == 2 && goferFrame.Match(stderr.Bytes()) {
		if late {
			return nil, &ChildCrash{"another process never finishes", string(dump)}
		}
		return nil, &ChildCrash{"another process crashes", string(dump)}
	}
	return nil, fmt.Errorf("%v %s", err, dump)
}

// ChildError tells the code's failure from the harness's.
func ChildError(err error) (violation string) {
	var cc *ChildCrash
	if errors.As(err, &cc) {
		return cc.Error()
	}
	if err != nil {
		panic("HARNESS-ERROR child: " + err.Error())
	}
	return ""
}
