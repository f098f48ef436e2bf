// Operations a simulated application performs through the public API. Shared by the harness (C++) and the
// interpreter that is linked into the client library (C).
#ifndef SIM_APP_H
#define SIM_APP_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum {
    K_NOP, K_SLEEP, K_BARRIER,
    CONT_CREATE, CONT_CREATE_COL, CONT_OPEN, CONT_CLOSE, CONT_DEL, CONT_INFO, // a0 slot, s1 name
    OBJ_CREATE, OBJ_OPEN, OBJ_CLOSE, OBJ_DEL, OBJ_INFO,                       // a0 slot, a1 cont slot, s1 name, ...
    X_CREATE, X_START, X_STATUS, X_WAIT, X_CLOSE, X_START_ALL, X_WAIT_ALL,
    FLUSH_OBJ, FLUSH_ALL, CKPT, CLOSE_SERVERS,
    TAG_PUT, TAG_GET, TAG_DEL, CONT_ADD, CONT_RM, QUERY_TAG,
    DART_INS, DART_DEL, DART_SEARCH,
    Q_RUN, LOCK, UNLOCK, BUF_MAP, BUF_UNMAP, PUT_DATA, GET_DATA,
    H_MAKE, H_CLOSE, H_USE, H_SET, H_XFER, H_MAP, H_ITER,
    LIST_ALL, OBJ_QUERY_NAME, SET_DIMS, META_QUERY, COMP, MUTEX_LOCK, MUTEX_UNLOCK,
    CONT_PROBE, // s1 name: what the server has recorded about the container
    STR_TAG,    // a0 slot, s1: append a string tag
    META_UPD,   // s1 name, a7 time step: change the application to s2, append the string tag s3
    OBJ_DEL_NAME, // s1 name, a7 time step
    // a36 > 0 anywhere: the name (or the string tag) is s1 followed by a36 times 'n'
    K_COUNT
};
enum { HK_CPROP, HK_OPROP, HK_DUP, HK_REG, HK_CONT, HK_CONT_OPEN, HK_OBJ, HK_OBJ_OPEN, HK_XFER }; // kinds of handles
typedef struct AppOp {
    int kind, client, phase, id;
    int64_t a[40];
    char s1[192], s2[192], s3[192];
    const void *in;   // bytes supplied by the harness
    uint64_t nin;
    // results
    int status;       // 0 not run, 1 running, 2 done, 3 skipped (its slot is empty)
    int64_t ret;      // return value of the call
    int64_t r[16];
    void *out;        // bytes returned (malloc'ed by the harness)
    uint64_t nout;
    uint64_t t0, t1;  // event sequence numbers of invocation and return
    uint64_t ns0, ns1;
    void *aux;
} AppOp;
// provided by the harness
AppOp *sim_next_op(int client);
void sim_op_done(AppOp *op);
void sim_fill(AppOp *op, void *buf, uint64_t n);        // data to write
void sim_result(AppOp *op, const void *buf, uint64_t n); // data read or returned
void sim_xdone(AppOp *op, int xslot, const void *buf, uint64_t n);
void sim_barrier(AppOp *op);
void sim_nap(uint64_t ns);
void sim_probe(AppOp *op);
#ifdef __cplusplus
}
#endif
#endif
