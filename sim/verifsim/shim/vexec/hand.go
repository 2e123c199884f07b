//go:build go1.22

package vexec

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"
	"time"

	"github.com/cloudflare/cfrpki/verifsim"
)

func LookPath(f string) (string, error) { return "/usr/bin/" + f, nil }

type ProcessState struct{ Code int }

func (p *ProcessState) ExitCode() int  { return p.Code }
func (p *ProcessState) Success() bool  { return p.Code == 0 }
func (p *ProcessState) String() string { return fmt.Sprintf("exit status %d", p.Code) }
func (p *ProcessState) Pid() int       { return 1 << 30 }
func (p *ProcessState) Exited() bool   { return p.Code >= 0 }

type Process struct {
	Pid int
	c   *verifsim.Child
}

func (p *Process) Kill() error              { p.c.Kill(); return nil }
func (p *Process) Signal(_ os.Signal) error { return p.Kill() }
func (p *Process) Release() error           { return nil }

type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string {
	if e.Code < 0 {
		return "signal: killed"
	}
	return e.ProcessState.String()
}

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	SysProcAttr  *syscall.SysProcAttr
	ExtraFiles   []*os.File

	ctx   context.Context
	outP  *verifsim.Pipe
	errP  *verifsim.Pipe
	child *verifsim.Child
	done  bool
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string { return fmt.Sprint(c.Args) }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.outP != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	c.outP = verifsim.NewPipe()
	return c.outP, nil
}

func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.errP != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	c.errP = verifsim.NewPipe()
	return c.errP, nil
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nil, errors.New("exec: unsupported") }
func (c *Cmd) Environ() []string                  { return c.Env }

func (c *Cmd) Start() error {
	if c.child != nil {
		return errors.New("exec: already started")
	}
	var out, er io.Writer = io.Discard, io.Discard
	if c.Stdout != nil {
		out = c.Stdout
	}
	if c.Stderr != nil {
		er = c.Stderr
	}
	if c.outP != nil {
		out = c.outP
	}
	if c.errP != nil {
		er = c.errP
	}
	child, err := verifsim.StartChild(c.ctx, &verifsim.ExecReq{
		Path: c.Path, Args: c.Args, Dir: c.Dir, Stdout: out, Stderr: er,
	}, func() {
		if c.outP != nil {
			c.outP.CloseWrite()
		}
		if c.errP != nil {
			c.errP.CloseWrite()
		}
	})
	if err != nil {
		return err
	}
	c.child = child
	c.Process = &Process{Pid: 1<<30 + child.Proc.ID, c: child}
	return nil
}

func (c *Cmd) Wait() error {
	if c.child == nil {
		return errors.New("exec: not started")
	}
	if c.done {
		return errors.New("exec: Wait was already called")
	}
	c.done = true
	code, cerr := c.child.Wait()
	c.ProcessState = &ProcessState{Code: code}
	if c.outP != nil {
		c.outP.Close()
	}
	if c.errP != nil {
		c.errP.Close()
	}
	if code != 0 {
		return &ExitError{ProcessState: c.ProcessState}
	}
	return cerr
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
