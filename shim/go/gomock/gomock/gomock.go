// Package gomock is a compile-only stand-in for go.uber.org/mock/gomock: the
// generated mocks of the code under test refer to it, the checks never run them.
package gomock

import "reflect"

type TestReporter interface {
	Errorf(format string, args ...any)
	Fatalf(format string, args ...any)
}
type TestHelper interface {
	TestReporter
	Helper()
}
type helper struct{ TestReporter }

func (helper) Helper() {}

type Controller struct{ T TestHelper }
type ControllerOption interface{}

func NewController(t TestReporter, opts ...ControllerOption) *Controller {
	if h, ok := t.(TestHelper); ok {
		return &Controller{T: h}
	}
	return &Controller{T: helper{t}}
}
func (c *Controller) Finish() {}
func (c *Controller) Call(receiver any, method string, args ...any) []any {
	panic("gomock stand-in: no expectations supported")
}
func (c *Controller) RecordCallWithMethodType(receiver any, method string, methodType reflect.Type, args ...any) *Call {
	return &Call{}
}
func (c *Controller) RecordCall(receiver any, method string, args ...any) *Call { return &Call{} }

type Call struct{}

func (c *Call) AnyTimes() *Call            { return c }
func (c *Call) Times(int) *Call            { return c }
func (c *Call) MinTimes(int) *Call         { return c }
func (c *Call) MaxTimes(int) *Call         { return c }
func (c *Call) Return(...any) *Call        { return c }
func (c *Call) Do(any) *Call               { return c }
func (c *Call) DoAndReturn(any) *Call      { return c }
func (c *Call) After(*Call) *Call          { return c }
func (c *Call) SetArg(int, any) *Call      { return c }

type Matcher interface {
	Matches(x any) bool
	String() string
}
type anyM struct{}

func (anyM) Matches(any) bool { return true }
func (anyM) String() string   { return "is anything" }
func Any() Matcher            { return anyM{} }
func Eq(x any) Matcher        { return eqM{x} }
func Not(x any) Matcher       { return anyM{} }
func Nil() Matcher            { return eqM{nil} }
func InOrder(...any)          {}

type eqM struct{ x any }

func (e eqM) Matches(x any) bool { return reflect.DeepEqual(e.x, x) }
func (e eqM) String() string     { return "is equal" }
