// Package readline stands in for github.com/chzyer/readline, which is not available
// offline: lines come from Next, which whoever runs the program sets.
package readline

import (
	"errors"
	"io"
)

// Next gives the next line of the session, or an error.
var Next func() (string, error)

// ErrInterrupt is returned for an interrupted line.
var ErrInterrupt = errors.New("Interrupt")

// AutoCompleter completes lines.
type AutoCompleter interface {
	Do(line []rune, pos int) (newLine [][]rune, length int)
}

// Config of an instance.
type Config struct {
	Prompt                 string
	HistoryFile            string
	HistoryLimit           int
	DisableAutoSaveHistory bool
	HistorySearchFold      bool
	AutoComplete           AutoCompleter
	VimMode                bool
	InterruptPrompt        string
	EOFPrompt              string
	Stdin                  io.ReadCloser
	Stdout                 io.Writer
	Stderr                 io.Writer
}

// Instance is a session.
type Instance struct{ Config *Config }

// New starts a session.
func New(prompt string) (*Instance, error) { return NewEx(&Config{Prompt: prompt}) }

// NewEx starts a session.
func NewEx(cfg *Config) (*Instance, error) { return &Instance{Config: cfg}, nil }

// Readline gives the next line.
func (i *Instance) Readline() (string, error) {
	if Next == nil {
		return "", io.EOF
	}
	return Next()
}

// ReadSlice gives the next line.
func (i *Instance) ReadSlice() ([]byte, error) { s, err := i.Readline(); return []byte(s), err }

// ReadlineWithDefault gives the next line.
func (i *Instance) ReadlineWithDefault(string) (string, error) { return i.Readline() }

// SetPrompt sets the prompt.
func (i *Instance) SetPrompt(s string) { i.Config.Prompt = s }

// SaveHistory does nothing.
func (i *Instance) SaveHistory(string) error { return nil }

// Refresh does nothing.
func (i *Instance) Refresh() {}

// Clean does nothing.
func (i *Instance) Clean() {}

// Stdout gives nowhere.
func (i *Instance) Stdout() io.Writer { return io.Discard }

// Stderr gives nowhere.
func (i *Instance) Stderr() io.Writer { return io.Discard }

// Close ends the session.
func (i *Instance) Close() error { return nil }
