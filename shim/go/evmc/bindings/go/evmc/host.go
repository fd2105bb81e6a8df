package evmc

/*
#include <evmc/evmc.h>
#include <stdlib.h>
*/
import "C"

import (
	"runtime/cgo"
	"unsafe"
)

// guard runs a host callback; after a panic all further callbacks of the same
// execution return zero values, and the panic is re-raised once C returned.
func guard(ctx C.uintptr_t, f func(HostContext)) {
	hc := cgo.Handle(ctx).Value().(*hostCall)
	if hc.hasPan {
		return
	}
	defer func() {
		if p := recover(); p != nil {
			hc.pan, hc.hasPan = p, true
		}
	}()
	f(hc.ctx)
}

//export verifWild
func verifWild(ctx C.uintptr_t, p C.uintptr_t) {
	guard(ctx, func(h HostContext) { panic("the host is passed a wild pointer") })
}

//export verifAccountExists
func verifAccountExists(ctx C.uintptr_t, a *C.evmc_address) (r C.bool) {
	guard(ctx, func(h HostContext) { r = C.bool(h.AccountExists(goAddr(*a))) })
	return
}

//export verifGetStorage
func verifGetStorage(ctx C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) (r C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { r = hash(h.GetStorage(goAddr(*a), goHash(*k))) })
	return
}

//export verifSetStorage
func verifSetStorage(ctx C.uintptr_t, a *C.evmc_address, k, v *C.evmc_bytes32) (r C.int) {
	guard(ctx, func(h HostContext) { r = C.int(h.SetStorage(goAddr(*a), goHash(*k), goHash(*v))) })
	return
}

//export verifGetBalance
func verifGetBalance(ctx C.uintptr_t, a *C.evmc_address) (r C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { r = hash(h.GetBalance(goAddr(*a))) })
	return
}

//export verifGetCodeSize
func verifGetCodeSize(ctx C.uintptr_t, a *C.evmc_address) (r C.size_t) {
	guard(ctx, func(h HostContext) { r = C.size_t(h.GetCodeSize(goAddr(*a))) })
	return
}

//export verifGetCodeHash
func verifGetCodeHash(ctx C.uintptr_t, a *C.evmc_address) (r C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { r = hash(h.GetCodeHash(goAddr(*a))) })
	return
}

//export verifCopyCode
func verifCopyCode(ctx C.uintptr_t, a *C.evmc_address, off C.size_t, p *C.uint8_t, n C.size_t) (r C.size_t) {
	guard(ctx, func(h HostContext) {
		code := h.GetCode(goAddr(*a))
		if uint64(off) >= uint64(len(code)) {
			return
		}
		out := unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
		r = C.size_t(copy(out, code[off:]))
	})
	return
}

//export verifSelfdestruct
func verifSelfdestruct(ctx C.uintptr_t, a, b *C.evmc_address) (r C.bool) {
	guard(ctx, func(h HostContext) { r = C.bool(h.Selfdestruct(goAddr(*a), goAddr(*b))) })
	return
}

//export verifCall
func verifCall(ctx C.uintptr_t, m *C.struct_evmc_message, res *C.struct_evmc_result) {
	res.status_code = C.EVMC_INTERNAL_ERROR
	guard(ctx, func(h HostContext) {
		// what every host relies on, even if the host of these checks tracks the mode of its frames itself
		hc := cgo.Handle(ctx).Value().(*hostCall)
		static := m.flags&C.EVMC_STATIC != 0
		if int(m.depth) != hc.depth+1 {
			panic("the depth of a nested call is not one more than the depth of its caller")
		}
		if hc.static && !static {
			panic("a call made in static mode is not marked as static")
		}
		if !hc.static && static && CallKind(m.kind) != Call {
			panic("a call made in regular mode is marked as static")
		}
		input := C.GoBytes(unsafe.Pointer(m.input_data), C.int(m.input_size))
		out, left, refund, created, err := h.Call(CallKind(m.kind), goAddr(m.recipient), goAddr(m.sender), goHash(m.value),
			input, int64(m.gas), int(m.depth), m.flags&C.EVMC_STATIC != 0, goHash(m.create2_salt), goAddr(m.code_address))
		res.status_code = C.EVMC_SUCCESS
		if err != nil {
			if e, ok := err.(Error); ok {
				res.status_code = C.enum_evmc_status_code(e)
			} else {
				res.status_code = C.EVMC_INTERNAL_ERROR
			}
		}
		res.gas_left = C.int64_t(left)
		res.gas_refund = C.int64_t(refund)
		res.create_address = addr(created)
		if len(out) > 0 {
			res.output_data = (*C.uint8_t)(C.CBytes(out))
			res.output_size = C.size_t(len(out))
		}
	})
}

//export verifGetTxContext
func verifGetTxContext(ctx C.uintptr_t) (r C.struct_evmc_tx_context) {
	guard(ctx, func(h HostContext) {
		hc := cgo.Handle(ctx).Value().(*hostCall)
		if hc.tx == nil {
			t := h.GetTxContext()
			m := &txMem{free: func() {}}
			m.c.tx_gas_price = hash(t.GasPrice)
			m.c.tx_origin = addr(t.Origin)
			m.c.block_coinbase = addr(t.Coinbase)
			m.c.block_number = C.int64_t(t.Number)
			m.c.block_timestamp = C.int64_t(t.Timestamp)
			m.c.block_gas_limit = C.int64_t(t.GasLimit)
			m.c.block_prev_randao = hash(t.PrevRandao)
			m.c.chain_id = hash(t.ChainID)
			m.c.block_base_fee = hash(t.BaseFee)
			m.c.blob_base_fee = hash(t.BlobBaseFee)
			if len(t.BlobHashes) > 0 {
				buf := make([]byte, 0, 32*len(t.BlobHashes))
				for _, b := range t.BlobHashes {
					buf = append(buf, b[:]...)
				}
				p := C.CBytes(buf)
				m.c.blob_hashes = (*C.evmc_bytes32)(p)
				m.c.blob_hashes_count = C.size_t(len(t.BlobHashes))
				m.free = func() { C.free(p) }
			}
			hc.tx = m
		}
		r = hc.tx.c
	})
	return
}

//export verifGetBlockHash
func verifGetBlockHash(ctx C.uintptr_t, n C.int64_t) (r C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { r = hash(h.GetBlockHash(int64(n))) })
	return
}

//export verifEmitLog
func verifEmitLog(ctx C.uintptr_t, a *C.evmc_address, d *C.uint8_t, n C.size_t, t *C.evmc_bytes32, nt C.size_t) {
	guard(ctx, func(h HostContext) {
		topics := make([]Hash, int(nt))
		if nt > 0 {
			for i, x := range unsafe.Slice(t, int(nt)) {
				topics[i] = goHash(x)
			}
		}
		h.EmitLog(goAddr(*a), topics, C.GoBytes(unsafe.Pointer(d), C.int(n)))
	})
}

//export verifAccessAccount
func verifAccessAccount(ctx C.uintptr_t, a *C.evmc_address) (r C.int) {
	guard(ctx, func(h HostContext) { r = C.int(h.AccessAccount(goAddr(*a))) })
	return
}

//export verifAccessStorage
func verifAccessStorage(ctx C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) (r C.int) {
	guard(ctx, func(h HostContext) { r = C.int(h.AccessStorage(goAddr(*a), goHash(*k))) })
	return
}

//export verifGetTransientStorage
func verifGetTransientStorage(ctx C.uintptr_t, a *C.evmc_address, k *C.evmc_bytes32) (r C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { r = hash(h.GetTransientStorage(goAddr(*a), goHash(*k))) })
	return
}

//export verifSetTransientStorage
func verifSetTransientStorage(ctx C.uintptr_t, a *C.evmc_address, k, v *C.evmc_bytes32) {
	guard(ctx, func(h HostContext) { h.SetTransientStorage(goAddr(*a), goHash(*k), goHash(*v)) })
}
