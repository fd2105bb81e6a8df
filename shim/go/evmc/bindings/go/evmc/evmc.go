// Package evmc is an offline stand-in for the Go bindings of EVMC (including
// the Tosca extensions), connecting HostContext implementations to dynamically
// loaded EVMC libraries.
package evmc

/*
#cgo LDFLAGS: -ldl
#include <evmc/evmc.h>
#include <dlfcn.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

extern const struct evmc_host_interface verif_go_host;

static void* shim_open(const char* file, const char** err) {
  void* h = dlopen(file, RTLD_LAZY);
  if (!h) *err = dlerror();
  return h;
}
static struct evmc_vm* shim_create(void* h, const char* sym) {
  struct evmc_vm* (*f)(void) = (struct evmc_vm* (*)(void))dlsym(h, sym);
  return f ? f() : NULL;
}
static struct evmc_vm_steppable* shim_create_steppable(void* h, const char* sym) {
  struct evmc_vm_steppable* (*f)(void) = (struct evmc_vm_steppable* (*)(void))dlsym(h, sym);
  return f ? f() : NULL;
}
static void shim_destroy(struct evmc_vm* vm) { vm->destroy(vm); }
static void shim_destroy_steppable(struct evmc_vm_steppable* vm) { vm->destroy(vm); }
static int shim_set_option(struct evmc_vm* vm, char* n, char* v) { return vm->set_option ? vm->set_option(vm, n, v) : 1; }

static struct evmc_result shim_execute(struct evmc_vm* vm, uintptr_t ctx, int rev, int kind, uint32_t flags, int32_t depth,
    int64_t gas, const evmc_address* recipient, const evmc_address* sender, const uint8_t* input, size_t input_size,
    const evmc_uint256be* value, const evmc_bytes32* code_hash, const uint8_t* code, size_t code_size) {
  struct evmc_message msg;
  memset(&msg, 0, sizeof(msg));
  memset(&msg, 0, sizeof(msg));
  msg.kind = kind; msg.flags = flags; msg.depth = depth; msg.gas = gas;
  msg.recipient = *recipient; msg.sender = *sender;
  msg.input_data = input; msg.input_size = input_size;
  msg.value = *value; msg.code_address = *recipient; msg.code_hash = code_hash;
  return vm->execute(vm, &verif_go_host, (struct evmc_host_context*)ctx, rev, &msg, code, code_size);
}
static void shim_release(struct evmc_result* r) { if (r->release) r->release(r); }

static struct evmc_step_result shim_step(struct evmc_vm_steppable* vm, uintptr_t ctx, int rev, int kind, uint32_t flags,
    int32_t depth, int64_t gas, int64_t refund, const evmc_address* recipient, const evmc_address* sender,
    const uint8_t* input, size_t input_size, const evmc_uint256be* value, const evmc_bytes32* code_hash,
    const uint8_t* code, size_t code_size, int status, uint64_t pc, void* stack, size_t stack_size, uint8_t* mem,
    size_t mem_size, uint8_t* ret, size_t ret_size, int32_t steps) {
  struct evmc_message msg;
  memset(&msg, 0, sizeof(msg));
  memset(&msg, 0, sizeof(msg));
  msg.kind = kind; msg.flags = flags; msg.depth = depth; msg.gas = gas;
  msg.recipient = *recipient; msg.sender = *sender;
  msg.input_data = input; msg.input_size = input_size;
  msg.value = *value; msg.code_address = *recipient; msg.code_hash = code_hash;
  return vm->step_n(vm, &verif_go_host, (struct evmc_host_context*)ctx, rev, &msg, code, code_size, status, pc, refund,
                    (evmc_uint256be*)stack, stack_size, mem, mem_size, ret, ret_size, steps);
}
static void shim_release_step(struct evmc_step_result* r) { if (r->release) r->release(r); }
*/
import "C"

import (
	"errors"
	"fmt"
	"path/filepath"
	"runtime/cgo"
	"strings"
	"unsafe"
)

type Address [20]byte
type Hash [32]byte

type Error int32

func (e Error) IsInternalError() bool { return e < 0 }
func (e Error) Error() string         { return fmt.Sprintf("evmc status %d", int32(e)) }

const (
	Failure = Error(C.EVMC_FAILURE)
	Revert  = Error(C.EVMC_REVERT)
)

type Revision int32

const (
	Istanbul Revision = C.EVMC_ISTANBUL
	Berlin   Revision = C.EVMC_BERLIN
	London   Revision = C.EVMC_LONDON
	Paris    Revision = C.EVMC_PARIS
	Shanghai Revision = C.EVMC_SHANGHAI
	Cancun   Revision = C.EVMC_CANCUN
)

type CallKind int

const (
	Call         CallKind = C.EVMC_CALL
	DelegateCall CallKind = C.EVMC_DELEGATECALL
	CallCode     CallKind = C.EVMC_CALLCODE
	Create       CallKind = C.EVMC_CREATE
	Create2      CallKind = C.EVMC_CREATE2
)

type AccessStatus int

const (
	ColdAccess AccessStatus = C.EVMC_ACCESS_COLD
	WarmAccess AccessStatus = C.EVMC_ACCESS_WARM
)

type StorageStatus int

const (
	StorageAssigned         StorageStatus = C.EVMC_STORAGE_ASSIGNED
	StorageAdded            StorageStatus = C.EVMC_STORAGE_ADDED
	StorageDeleted          StorageStatus = C.EVMC_STORAGE_DELETED
	StorageModified         StorageStatus = C.EVMC_STORAGE_MODIFIED
	StorageDeletedAdded     StorageStatus = C.EVMC_STORAGE_DELETED_ADDED
	StorageModifiedDeleted  StorageStatus = C.EVMC_STORAGE_MODIFIED_DELETED
	StorageDeletedRestored  StorageStatus = C.EVMC_STORAGE_DELETED_RESTORED
	StorageAddedDeleted     StorageStatus = C.EVMC_STORAGE_ADDED_DELETED
	StorageModifiedRestored StorageStatus = C.EVMC_STORAGE_MODIFIED_RESTORED
)

type StepStatus int

const (
	Running  StepStatus = C.EVMC_STEP_RUNNING
	Stopped  StepStatus = C.EVMC_STEP_STOPPED
	Returned StepStatus = C.EVMC_STEP_RETURNED
	Reverted StepStatus = C.EVMC_STEP_REVERTED
	Failed   StepStatus = C.EVMC_STEP_FAILED
)

type TxContext struct {
	GasPrice    Hash
	Origin      Address
	Coinbase    Address
	Number      int64
	Timestamp   int64
	GasLimit    int64
	PrevRandao  Hash
	ChainID     Hash
	BaseFee     Hash
	BlobBaseFee Hash
	BlobHashes  []Hash
}

type HostContext interface {
	AccountExists(addr Address) bool
	GetStorage(addr Address, key Hash) Hash
	SetStorage(addr Address, key Hash, value Hash) StorageStatus
	GetBalance(addr Address) Hash
	GetCodeSize(addr Address) int
	GetCodeHash(addr Address) Hash
	GetCode(addr Address) []byte
	Selfdestruct(addr Address, beneficiary Address) bool
	GetTxContext() TxContext
	GetBlockHash(number int64) Hash
	EmitLog(addr Address, topics []Hash, data []byte)
	Call(kind CallKind, recipient Address, sender Address, value Hash, input []byte, gas int64, depth int,
		static bool, salt Hash, codeAddress Address) (output []byte, gasLeft int64, gasRefund int64, createAddr Address, err error)
	AccessAccount(addr Address) AccessStatus
	AccessStorage(addr Address, key Hash) AccessStatus
	GetTransientStorage(addr Address, key Hash) Hash
	SetTransientStorage(addr Address, key Hash, value Hash)
}

type Result struct {
	Output    []byte
	GasLeft   int64
	GasRefund int64
}

type VM struct {
	handle *C.struct_evmc_vm
}

func open(file string) (unsafe.Pointer, string, error) {
	cf := C.CString(file)
	defer C.free(unsafe.Pointer(cf))
	var cerr *C.char
	h := C.shim_open(cf, &cerr)
	if h == nil {
		return nil, "", errors.New("evmc: " + C.GoString(cerr))
	}
	name := strings.TrimSuffix(strings.TrimPrefix(filepath.Base(file), "lib"), ".so")
	return h, name, nil
}

func Load(filename string) (*VM, error) {
	h, name, err := open(filename)
	if err != nil {
		return nil, err
	}
	sym := C.CString("evmc_create_" + name)
	defer C.free(unsafe.Pointer(sym))
	vm := C.shim_create(h, sym)
	if vm == nil {
		return nil, errors.New("evmc: no create function in " + filename)
	}
	return &VM{vm}, nil
}

func (vm *VM) Destroy()                  { C.shim_destroy(vm.handle) }
func (vm *VM) GetHandle() unsafe.Pointer { return unsafe.Pointer(vm.handle) }

func (vm *VM) SetOption(name string, value string) error {
	n, v := C.CString(name), C.CString(value)
	defer C.free(unsafe.Pointer(n))
	defer C.free(unsafe.Pointer(v))
	switch r := C.shim_set_option(vm.handle, n, v); r {
	case 0:
		return nil
	case 1:
		return errors.New("evmc: option '" + name + "' not accepted")
	default:
		return errors.New("evmc: option '" + name + "' has unacceptable value")
	}
}

func bytesPtr(b []byte) (*C.uint8_t, func()) {
	if len(b) == 0 {
		return nil, func() {}
	}
	p := C.CBytes(b)
	return (*C.uint8_t)(p), func() { C.free(p) }
}

func addr(a Address) C.evmc_address { return *(*C.evmc_address)(unsafe.Pointer(&a)) }
func hash(h Hash) C.evmc_bytes32    { return *(*C.evmc_bytes32)(unsafe.Pointer(&h)) }
func goAddr(a C.evmc_address) Address { return *(*Address)(unsafe.Pointer(&a)) }
func goHash(h C.evmc_bytes32) Hash    { return *(*Hash)(unsafe.Pointer(&h)) }

func hashPtr(h *Hash) (*C.evmc_bytes32, func()) {
	if h == nil {
		return nil, func() {}
	}
	p := C.CBytes(h[:])
	return (*C.evmc_bytes32)(p), func() { C.free(p) }
}

// hostCall is what a cgo handle of a running execution refers to. Panics in
// host callbacks must not cross C frames: they are kept and re-raised after the
// execution.
type hostCall struct {
	ctx     HostContext
	static  bool
	depth   int
	tx      *txMem
	pan     any
	hasPan  bool
}

type txMem struct {
	c    C.struct_evmc_tx_context
	free func()
}

func (h *hostCall) release() {
	if h.tx != nil {
		h.tx.free()
	}
	if h.hasPan {
		panic(h.pan)
	}
}

func (vm *VM) Execute(ctx HostContext, rev Revision, kind CallKind, static bool, depth int, gas int64,
	recipient Address, sender Address, input []byte, value Hash, codeHash *Hash, code []byte) (res Result, err error) {
	hc := &hostCall{ctx: ctx, static: static, depth: depth}
	handle := cgo.NewHandle(hc)
	flags := C.uint32_t(0)
	if static {
		flags = C.EVMC_STATIC
	}
	in, f1 := bytesPtr(input)
	cd, f2 := bytesPtr(code)
	hp, f3 := hashPtr(codeHash)
	r, s, v := addr(recipient), addr(sender), hash(value)
	result := C.shim_execute(vm.handle, C.uintptr_t(handle), C.int(rev), C.int(kind), flags, C.int32_t(depth),
		C.int64_t(gas), &r, &s, in, C.size_t(len(input)), &v, hp, cd, C.size_t(len(code)))
	f1()
	f2()
	f3()
	handle.Delete()
	res.Output = C.GoBytes(unsafe.Pointer(result.output_data), C.int(result.output_size))
	res.GasLeft = int64(result.gas_left)
	res.GasRefund = int64(result.gas_refund)
	if result.status_code != C.EVMC_SUCCESS {
		err = Error(result.status_code)
	}
	C.shim_release(&result)
	hc.release()
	return res, err
}

type VMSteppable struct {
	handle *C.struct_evmc_vm_steppable
}

func LoadSteppable(filename string) (*VMSteppable, error) {
	h, name, err := open(filename)
	if err != nil {
		return nil, err
	}
	sym := C.CString("evmc_create_steppable_" + name)
	defer C.free(unsafe.Pointer(sym))
	vm := C.shim_create_steppable(h, sym)
	if vm == nil {
		return nil, errors.New("evmc: no steppable create function in " + filename)
	}
	return &VMSteppable{vm}, nil
}

func (vm *VMSteppable) Destroy() { C.shim_destroy_steppable(vm.handle) }

type StepParameters struct {
	Context        HostContext
	Revision       Revision
	Kind           CallKind
	Static         bool
	Depth          int
	Gas            int64
	GasRefund      int64
	Recipient      Address
	Sender         Address
	Input          []byte
	LastCallResult []byte
	Value          Hash
	CodeHash       *Hash
	Code           []byte
	StepStatusCode StepStatus
	Pc             uint64
	Stack          []byte
	Memory         []byte
	NumSteps       int
}

type StepResult struct {
	StepStatusCode     StepStatus
	StatusCode         Error
	Revision           Revision
	Pc                 uint64
	GasLeft            int64
	GasRefund          int64
	Output             []byte
	Stack              []byte
	Memory             []byte
	LastCallReturnData []byte
}

func (vm *VMSteppable) StepN(p StepParameters) (StepResult, error) {
	hc := &hostCall{ctx: p.Context, static: p.Static, depth: p.Depth}
	handle := cgo.NewHandle(hc)
	flags := C.uint32_t(0)
	if p.Static {
		flags = C.EVMC_STATIC
	}
	in, f1 := bytesPtr(p.Input)
	cd, f2 := bytesPtr(p.Code)
	hp, f3 := hashPtr(p.CodeHash)
	st, f4 := bytesPtr(p.Stack)
	me, f5 := bytesPtr(p.Memory)
	lr, f6 := bytesPtr(p.LastCallResult)
	r, s, v := addr(p.Recipient), addr(p.Sender), hash(p.Value)
	x := C.shim_step(vm.handle, C.uintptr_t(handle), C.int(p.Revision), C.int(p.Kind), flags, C.int32_t(p.Depth),
		C.int64_t(p.Gas), C.int64_t(p.GasRefund), &r, &s, in, C.size_t(len(p.Input)), &v, hp, cd, C.size_t(len(p.Code)),
		C.int(p.StepStatusCode), C.uint64_t(p.Pc), unsafe.Pointer(st), C.size_t(len(p.Stack)/32), me,
		C.size_t(len(p.Memory)), lr, C.size_t(len(p.LastCallResult)), C.int32_t(p.NumSteps))
	for _, f := range []func(){f1, f2, f3, f4, f5, f6} {
		f()
	}
	handle.Delete()
	res := StepResult{
		StepStatusCode:     StepStatus(x.step_status_code),
		StatusCode:         Error(x.status_code),
		Revision:           Revision(x.revision),
		Pc:                 uint64(x.pc),
		GasLeft:            int64(x.gas_left),
		GasRefund:          int64(x.gas_refund),
		Output:             C.GoBytes(unsafe.Pointer(x.output_data), C.int(x.output_size)),
		Stack:              C.GoBytes(unsafe.Pointer(x.stack), C.int(x.stack_size*32)),
		Memory:             C.GoBytes(unsafe.Pointer(x.memory), C.int(x.memory_size)),
		LastCallReturnData: C.GoBytes(unsafe.Pointer(x.last_call_return_data), C.int(x.last_call_return_data_size)),
	}
	C.shim_release_step(&x)
	hc.release()
	return res, nil
}
