#include <evmc/evmc.h>
#include <stdlib.h>
#include <string.h>
#include "_cgo_export.h"

#define CTX ((uintptr_t)c)
// Go stops the process when it finds such a pointer on a stack it is moving.
static uint8_t* safe(struct evmc_host_context* c, uint8_t* d, size_t n) {
  if (n != 0) return d;
  if (d && (uintptr_t)d < 4096) verifWild(CTX, (uintptr_t)d);
  return 0;
}
static bool f_exists(struct evmc_host_context* c, const evmc_address* a) { return verifAccountExists(CTX, (evmc_address*)a); }
static evmc_bytes32 f_gets(struct evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { return verifGetStorage(CTX, (evmc_address*)a, (evmc_bytes32*)k); }
static enum evmc_storage_status f_sets(struct evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { return verifSetStorage(CTX, (evmc_address*)a, (evmc_bytes32*)k, (evmc_bytes32*)v); }
static evmc_uint256be f_bal(struct evmc_host_context* c, const evmc_address* a) { return verifGetBalance(CTX, (evmc_address*)a); }
static size_t f_csize(struct evmc_host_context* c, const evmc_address* a) { return verifGetCodeSize(CTX, (evmc_address*)a); }
static evmc_bytes32 f_chash(struct evmc_host_context* c, const evmc_address* a) { return verifGetCodeHash(CTX, (evmc_address*)a); }
static size_t f_copy(struct evmc_host_context* c, const evmc_address* a, size_t o, uint8_t* d, size_t n) { d = safe(c, d, n); return verifCopyCode(CTX, (evmc_address*)a, o, d, n); }
static bool f_sd(struct evmc_host_context* c, const evmc_address* a, const evmc_address* b) { return verifSelfdestruct(CTX, (evmc_address*)a, (evmc_address*)b); }
static void f_release(const struct evmc_result* r) { free((void*)r->output_data); }
static struct evmc_result f_call(struct evmc_host_context* c, const struct evmc_message* m) {
  struct evmc_result r;
  memset(&r, 0, sizeof(r));
  verifCall(CTX, (struct evmc_message*)m, &r);
  r.release = f_release;
  return r;
}
static struct evmc_tx_context f_tx(struct evmc_host_context* c) { return verifGetTxContext(CTX); }
static evmc_bytes32 f_bh(struct evmc_host_context* c, int64_t n) { return verifGetBlockHash(CTX, n); }
static void f_log(struct evmc_host_context* c, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t nt) { d = safe(c, (uint8_t*)d, n); verifEmitLog(CTX, (evmc_address*)a, (uint8_t*)d, n, (evmc_bytes32*)t, nt); }
static enum evmc_access_status f_aa(struct evmc_host_context* c, const evmc_address* a) { return verifAccessAccount(CTX, (evmc_address*)a); }
static enum evmc_access_status f_as(struct evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { return verifAccessStorage(CTX, (evmc_address*)a, (evmc_bytes32*)k); }
static evmc_bytes32 f_gt(struct evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k) { return verifGetTransientStorage(CTX, (evmc_address*)a, (evmc_bytes32*)k); }
static void f_st(struct evmc_host_context* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { verifSetTransientStorage(CTX, (evmc_address*)a, (evmc_bytes32*)k, (evmc_bytes32*)v); }

const struct evmc_host_interface verif_go_host = {
    f_exists, f_gets, f_sets, f_bal, f_csize, f_chash, f_copy, f_sd, f_call, f_tx, f_bh, f_log, f_aa, f_as, f_gt, f_st};
