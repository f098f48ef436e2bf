/* Simulated Mercury: the subset of the RPC library's public interface that PDC uses.
 * Implemented by the simulator (kernel/net.c).  Nothing here comes from Mercury itself. */
#ifndef SIM_MERCURY_H
#define SIM_MERCURY_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sys/time.h>
#include <time.h>
#include <errno.h>

typedef uint8_t  hg_uint8_t;   typedef int8_t  hg_int8_t;
typedef uint16_t hg_uint16_t;  typedef int16_t hg_int16_t;
typedef uint32_t hg_uint32_t;  typedef int32_t hg_int32_t;
typedef uint64_t hg_uint64_t;  typedef int64_t hg_int64_t;
typedef uint8_t  hg_bool_t;    typedef uint64_t hg_size_t;
typedef uint64_t hg_id_t;
typedef uint64_t hg_flags_t;
typedef const char *hg_const_string_t;
typedef char       *hg_string_t;
#define HG_TRUE 1
#define HG_FALSE 0
#define NA_TRUE 1
#define NA_FALSE 0
#define HG_INLINE inline
#define HG_FALLTHROUGH() ((void)0)
#define HG_STRING_INITIALIZER NULL

typedef enum hg_return {
    HG_SUCCESS = 0, HG_PERMISSION, HG_NOENTRY, HG_INTERRUPT, HG_AGAIN, HG_NOMEM, HG_ACCESS, HG_FAULT, HG_BUSY,
    HG_EXIST, HG_NODEV, HG_INVALID_ARG, HG_PROTOCOL_ERROR, HG_OVERFLOW, HG_MSGSIZE, HG_PROTONOSUPPORT,
    HG_OPNOTSUPPORTED, HG_ADDRINUSE, HG_ADDRNOTAVAIL, HG_HOSTUNREACH, HG_TIMEOUT, HG_CANCELED, HG_CHECKSUM_ERROR,
    HG_NA_ERROR, HG_OTHER_ERROR, HG_RETURN_MAX
} hg_return_t;
#define HG_NOMEM_ERROR HG_NOMEM
#define HG_MAX_IDLE_TIME (3600 * 1000)

typedef struct hg_class   hg_class_t;
typedef struct hg_context hg_context_t;
typedef struct hg_addr   *hg_addr_t;
typedef struct hg_handle *hg_handle_t;
typedef struct hg_bulk   *hg_bulk_t;
typedef struct hg_op_id  *hg_op_id_t;
typedef struct hg_proc   *hg_proc_t;
#define HG_ADDR_NULL ((hg_addr_t)0)
#define HG_HANDLE_NULL ((hg_handle_t)0)
#define HG_BULK_NULL ((hg_bulk_t)0)
#define HG_OP_ID_NULL ((hg_op_id_t)0)
#define HG_OP_ID_IGNORE ((hg_op_id_t *)1)

typedef enum { HG_ENCODE, HG_DECODE, HG_FREE } hg_proc_op_t;
typedef enum { HG_CB_LOOKUP, HG_CB_FORWARD, HG_CB_RESPOND, HG_CB_BULK } hg_cb_type_t;
typedef enum { HG_BULK_PUSH, HG_BULK_PULL } hg_bulk_op_t;
#define HG_BULK_READ_ONLY 1
#define HG_BULK_WRITE_ONLY 2
#define HG_BULK_READWRITE 3

struct hg_info { hg_class_t *hg_class; hg_context_t *context; hg_addr_t addr; hg_id_t id; hg_uint8_t context_id; };
struct hg_cb_info_lookup { hg_addr_t addr; };
struct hg_cb_info_forward { hg_handle_t handle; };
struct hg_cb_info_respond { hg_handle_t handle; };
struct hg_cb_info_bulk { hg_bulk_t origin_handle; hg_bulk_t local_handle; hg_bulk_op_t op; hg_size_t size; };
struct hg_cb_info {
    union { struct hg_cb_info_lookup lookup; struct hg_cb_info_forward forward; struct hg_cb_info_respond respond;
            struct hg_cb_info_bulk bulk; } info;
    void *arg; hg_cb_type_t type; hg_return_t ret;
};
typedef hg_return_t (*hg_cb_t)(const struct hg_cb_info *);
typedef hg_return_t (*hg_rpc_cb_t)(hg_handle_t);
typedef hg_return_t (*hg_proc_cb_t)(hg_proc_t, void *);
enum { NA_NO_BLOCK = 1 };
struct na_init_info { const char *ip_subnet; const char *auth_key; size_t max_unexpected_size, max_expected_size;
                      uint32_t progress_mode; int max_contexts, thread_mode; };
struct hg_init_info { struct na_init_info na_init_info; void *na_class; uint32_t request_post_init; int auto_sm, stats; };

hg_return_t HG_Version_get(unsigned *, unsigned *, unsigned *);
hg_class_t *HG_Init(const char *, hg_bool_t);
hg_class_t *HG_Init_opt(const char *, hg_bool_t, const struct hg_init_info *);
hg_return_t HG_Finalize(hg_class_t *);
void        HG_Cleanup(void);
hg_return_t HG_Class_set_handle_create_callback(hg_class_t *, hg_return_t (*)(hg_handle_t, void *), void *);
hg_context_t *HG_Context_create(hg_class_t *);
hg_return_t HG_Context_destroy(hg_context_t *);
hg_class_t *HG_Context_get_class(const hg_context_t *);
hg_id_t     HG_Register_name(hg_class_t *, const char *, hg_proc_cb_t, hg_proc_cb_t, hg_rpc_cb_t);
hg_return_t HG_Registered_disable_response(hg_class_t *, hg_id_t, hg_bool_t);
hg_return_t HG_Addr_lookup(hg_context_t *, hg_cb_t, void *, const char *, hg_op_id_t *);
hg_return_t HG_Addr_free(hg_class_t *, hg_addr_t);
hg_return_t HG_Addr_self(hg_class_t *, hg_addr_t *);
hg_return_t HG_Addr_dup(hg_class_t *, hg_addr_t, hg_addr_t *);
hg_bool_t HG_Addr_cmp(hg_class_t *, hg_addr_t, hg_addr_t);
hg_return_t HG_Addr_to_string(hg_class_t *, char *, hg_size_t *, hg_addr_t);
hg_return_t HG_Create(hg_context_t *, hg_addr_t, hg_id_t, hg_handle_t *);
hg_return_t HG_Destroy(hg_handle_t);
const struct hg_info *HG_Get_info(hg_handle_t);
hg_return_t HG_Set_data(hg_handle_t, void *, void (*)(void *));
void       *HG_Get_data(hg_handle_t);
hg_return_t HG_Get_input(hg_handle_t, void *);
hg_return_t HG_Free_input(hg_handle_t, void *);
hg_return_t HG_Get_output(hg_handle_t, void *);
hg_return_t HG_Free_output(hg_handle_t, void *);
hg_return_t HG_Forward(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t HG_Respond(hg_handle_t, hg_cb_t, void *, void *);
hg_return_t HG_Progress(hg_context_t *, unsigned);
hg_return_t HG_Trigger(hg_context_t *, unsigned, unsigned, unsigned *);
hg_return_t HG_Bulk_create(hg_class_t *, hg_uint32_t, void **, const hg_size_t *, hg_uint8_t, hg_bulk_t *);
hg_return_t HG_Bulk_free(hg_bulk_t);
hg_return_t HG_Bulk_ref_incr(hg_bulk_t);
hg_return_t HG_Bulk_access(hg_bulk_t, hg_size_t, hg_size_t, hg_uint8_t, hg_uint32_t, void **, hg_size_t *, hg_uint32_t *);
hg_size_t   HG_Bulk_get_size(hg_bulk_t);
hg_uint32_t HG_Bulk_get_segment_count(hg_bulk_t);
hg_return_t HG_Bulk_transfer(hg_context_t *, hg_cb_t, void *, hg_bulk_op_t, hg_addr_t, hg_bulk_t, hg_size_t, hg_bulk_t,
                             hg_size_t, hg_size_t, hg_op_id_t *);

hg_proc_op_t hg_proc_get_op(hg_proc_t);
hg_return_t  hg_proc_raw(hg_proc_t, void *, hg_size_t);
hg_return_t  hg_proc_memcpy(hg_proc_t, void *, hg_size_t);
hg_return_t  hg_proc_hg_string_t(hg_proc_t, void *);
hg_return_t  hg_proc_hg_const_string_t(hg_proc_t, void *);
hg_return_t  hg_proc_hg_bulk_t(hg_proc_t, void *);
#define SIM_PROC(name, type) static inline hg_return_t hg_proc_##name(hg_proc_t p, void *d) { return hg_proc_raw(p, d, sizeof(type)); }
SIM_PROC(uint8_t, uint8_t) SIM_PROC(int8_t, int8_t) SIM_PROC(uint16_t, uint16_t) SIM_PROC(int16_t, int16_t)
SIM_PROC(uint32_t, uint32_t) SIM_PROC(int32_t, int32_t) SIM_PROC(uint64_t, uint64_t) SIM_PROC(int64_t, int64_t)
SIM_PROC(hg_uint8_t, uint8_t) SIM_PROC(hg_uint32_t, uint32_t) SIM_PROC(hg_uint64_t, uint64_t)
SIM_PROC(hg_int32_t, int32_t) SIM_PROC(hg_int64_t, int64_t) SIM_PROC(hg_size_t, hg_size_t) SIM_PROC(hg_bool_t, hg_bool_t)
SIM_PROC(hg_id_t, hg_id_t)
#undef SIM_PROC
static inline hg_return_t hg_proc_void_sim(hg_proc_t p, void *d) { (void)p; (void)d; return HG_SUCCESS; }

#define MERCURY_REGISTER(cls, name, in_t, out_t, cb) HG_Register_name(cls, name, hg_proc_##in_t, hg_proc_##out_t, cb)

/* threads, as thin names over pthreads (which the simulator replaces) */
typedef pthread_mutex_t hg_thread_mutex_t;
typedef pthread_cond_t  hg_thread_cond_t;
typedef pthread_t       hg_thread_t;
typedef void           *hg_thread_ret_t;
#define HG_UTIL_SUCCESS 0
#define HG_UTIL_FAIL -1
#define HG_THREAD_RETURN_TYPE hg_thread_ret_t
#define HG_THREAD_MUTEX_INITIALIZER PTHREAD_MUTEX_INITIALIZER
static inline int hg_thread_mutex_init(hg_thread_mutex_t *m) { return pthread_mutex_init(m, NULL) ? -1 : 0; }
static inline int hg_thread_mutex_destroy(hg_thread_mutex_t *m) { return pthread_mutex_destroy(m) ? -1 : 0; }
static inline int hg_thread_mutex_lock(hg_thread_mutex_t *m) { return pthread_mutex_lock(m) ? -1 : 0; }
static inline int hg_thread_mutex_unlock(hg_thread_mutex_t *m) { return pthread_mutex_unlock(m) ? -1 : 0; }
static inline int hg_thread_cond_init(hg_thread_cond_t *c) { return pthread_cond_init(c, NULL) ? -1 : 0; }
static inline int hg_thread_cond_destroy(hg_thread_cond_t *c) { return pthread_cond_destroy(c) ? -1 : 0; }
static inline int hg_thread_cond_signal(hg_thread_cond_t *c) { return pthread_cond_signal(c) ? -1 : 0; }
static inline int hg_thread_cond_wait(hg_thread_cond_t *c, hg_thread_mutex_t *m) { return pthread_cond_wait(c, m) ? -1 : 0; }

/* the simulator runs one fiber at a time, so plain accesses are atomic */
typedef int32_t hg_atomic_int32_t;
static inline void    hg_atomic_init32(hg_atomic_int32_t *p, int32_t v) { *p = v; }
static inline void    hg_atomic_set32(hg_atomic_int32_t *p, int32_t v) { *p = v; }
static inline int32_t hg_atomic_get32(hg_atomic_int32_t *p) { return *p; }
static inline int32_t hg_atomic_incr32(hg_atomic_int32_t *p) { return ++(*p); }
static inline int32_t hg_atomic_decr32(hg_atomic_int32_t *p) { return --(*p); }
static inline int     hg_atomic_cas32(hg_atomic_int32_t *p, int32_t c, int32_t s) { if (*p == c) { *p = s; return 1; } return 0; }

struct hg_thread_work { void *(*func)(void *); void *args; struct hg_thread_work *next; };
typedef struct hg_thread_pool hg_thread_pool_t;
typedef struct hg_request hg_request_t;
#endif
