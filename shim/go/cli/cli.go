// Package cli is a stand-in for the parts of urfave/cli/v2 which Tosca's tools use: commands with flags in
// front of their arguments, parsed by the standard flag package (as the original does).
package cli

import (
	"flag"
	"fmt"
	"io"
	"os"
	"strings"
)

type ActionFunc func(*Context) error

type App struct {
	Name, Usage, Copyright string
	Flags                  []Flag
	Commands               []*Command
}

type Command struct {
	Name, Usage, ArgsUsage string
	Aliases                []string
	Action                 ActionFunc
	Flags                  []Flag
}

type Flag interface {
	Names() []string
	Apply(*flag.FlagSet) error
}

type Context struct {
	set *flag.FlagSet
	cmd *Command
}

type Args struct{ list []string }

func (a Args) Len() int { return len(a.list) }
func (a Args) Get(i int) string {
	if i < len(a.list) {
		return a.list[i]
	}
	return ""
}
func (a Args) First() string   { return a.Get(0) }
func (a Args) Slice() []string { return a.list }

func (c *Context) Args() Args { return Args{c.set.Args()} }
func (c *Context) NArg() int  { return c.set.NArg() }

func (c *Context) get(name string) any {
	if f := c.set.Lookup(name); f != nil {
		return f.Value.(flag.Getter).Get()
	}
	return nil
}
func (c *Context) IsSet(name string) bool {
	set := false
	c.set.Visit(func(f *flag.Flag) { set = set || f.Name == name })
	return set
}
func (c *Context) String(name string) string   { s, _ := c.get(name).(string); return s }
func (c *Context) Int(name string) int         { v, _ := c.get(name).(int); return v }
func (c *Context) Uint64(name string) uint64   { v, _ := c.get(name).(uint64); return v }
func (c *Context) Bool(name string) bool       { v, _ := c.get(name).(bool); return v }
func (c *Context) Float64(name string) float64 { v, _ := c.get(name).(float64); return v }
func (c *Context) StringSlice(name string) []string {
	v, _ := c.get(name).([]string)
	return v
}

func names(name string, aliases []string) []string { return append([]string{name}, aliases...) }

type StringFlag struct {
	Name      string
	Aliases   []string
	Usage     string
	Value     string
	TakesFile bool
	Required  bool
}

func (f *StringFlag) Names() []string { return names(f.Name, f.Aliases) }
func (f *StringFlag) Apply(s *flag.FlagSet) error {
	v := new(string)
	for _, n := range f.Names() {
		s.StringVar(v, n, f.Value, f.Usage)
	}
	return nil
}

type IntFlag struct {
	Name     string
	Aliases  []string
	Usage    string
	Value    int
	Required bool
}

func (f *IntFlag) Names() []string { return names(f.Name, f.Aliases) }
func (f *IntFlag) Apply(s *flag.FlagSet) error {
	v := new(int)
	for _, n := range f.Names() {
		s.IntVar(v, n, f.Value, f.Usage)
	}
	return nil
}

type Uint64Flag struct {
	Name     string
	Aliases  []string
	Usage    string
	Value    uint64
	Required bool
}

func (f *Uint64Flag) Names() []string { return names(f.Name, f.Aliases) }
func (f *Uint64Flag) Apply(s *flag.FlagSet) error {
	v := new(uint64)
	for _, n := range f.Names() {
		s.Uint64Var(v, n, f.Value, f.Usage)
	}
	return nil
}

type BoolFlag struct {
	Name     string
	Aliases  []string
	Usage    string
	Value    bool
	Required bool
}

func (f *BoolFlag) Names() []string { return names(f.Name, f.Aliases) }
func (f *BoolFlag) Apply(s *flag.FlagSet) error {
	v := new(bool)
	for _, n := range f.Names() {
		s.BoolVar(v, n, f.Value, f.Usage)
	}
	return nil
}

type StringSlice struct {
	list []string
	set  bool
}

func NewStringSlice(defaults ...string) *StringSlice { return &StringSlice{list: defaults} }

func (s *StringSlice) String() string { return strings.Join(s.list, ",") }
func (s *StringSlice) Get() any       { return s.list }
func (s *StringSlice) Set(v string) error {
	if !s.set {
		s.set, s.list = true, nil
	}
	s.list = append(s.list, strings.Split(v, ",")...)
	return nil
}
func (s *StringSlice) Value() []string { return s.list }

type StringSliceFlag struct {
	Name     string
	Aliases  []string
	Usage    string
	Value    *StringSlice
	Required bool
}

func (f *StringSliceFlag) Names() []string { return names(f.Name, f.Aliases) }
func (f *StringSliceFlag) Apply(s *flag.FlagSet) error {
	v := &StringSlice{}
	if f.Value != nil {
		v.list = append(v.list, f.Value.list...)
	}
	for _, n := range f.Names() {
		s.Var(v, n, f.Usage)
	}
	return nil
}

func (a *App) Run(args []string) error {
	if len(args) < 2 {
		fmt.Println(a.Name, "-", a.Usage)
		return nil
	}
	for _, c := range a.Commands {
		for _, n := range names(c.Name, c.Aliases) {
			if n == args[1] {
				return c.run(args[2:])
			}
		}
	}
	fmt.Fprintf(os.Stdout, "No help topic for '%v'\n", args[1])
	os.Exit(3)
	return nil
}

func (c *Command) run(args []string) error {
	set := flag.NewFlagSet(c.Name, flag.ContinueOnError)
	set.SetOutput(io.Discard)
	for _, f := range c.Flags {
		if err := f.Apply(set); err != nil {
			return err
		}
	}
	if err := set.Parse(args); err != nil {
		return err
	}
	return c.Action(&Context{set: set, cmd: c})
}
