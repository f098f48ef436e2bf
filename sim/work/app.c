// Interpreter of application operations; compiled into the client library, calls the real public API.
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "pdc.h"
#include "pdc_client_connect.h"
#include "pdc_interface.h"
#include "pdc_obj_pkg.h"
#include "pdc_cont_pkg.h"
#include "pdc_query.h"
#include "dart_core.h"
#include "pdc_mpi.h"
#include "app.h"

#define NS 256
static pdcid_t pdc, cont_prop;
static pdcid_t conts[NS], objs[NS], xf[NS];
static pdcid_t hs[NS]; // handles by slot, kept after their close
// slot numbers from 1000 stand for handles that were never given out
static pdcid_t
H(int64_t slot)
{
    return slot >= 1000 ? (hs[slot % 1000] ? hs[slot % 1000] + 100000 : 0) : hs[slot];
}
static char *  xbuf[NS];
static int     xobj[NS], xst[NS], xpx[NS]; // object slot; 0 created 1 started 2 complete 3 started and waited for; starting waits
static char *  mbuf[NS];
static uint64_t xlen[NS], xoff[NS], mlen[NS];
static pdcid_t mreg[NS];
static int     mlk[NS];

static uint64_t
var_size(int t)
{
    return PDC_get_var_type_size(t);
}
static pdcid_t
region(int nd, int64_t *off, int64_t *size)
{
    uint64_t o[4], s[4];
    for (int i = 0; i < nd; i++) {
        o[i] = off[i];
        s[i] = size[i];
    }
    return PDCregion_create(nd, o, s);
}
static const char *
NM(AppOp *op)
{
    static char b[8192];
    size_t      n = strlen(op->s1);
    if (op->a[36] <= 0)
        return op->s1;
    memcpy(b, op->s1, n);
    memset(b + n, 'n', op->a[36]);
    b[n + op->a[36]] = 0;
    return b;
}
#define SKIP          do { op->status = 3; return; } while (0)
#define NEED(x)       do { if (!(x)) SKIP; } while (0)

static int                     q_leaf;   // comparisons made so far
static int                     q_leaves;
static struct pdc_region_info *q_region;

static pdc_query_t *
q_build(AppOp *op, int *pos)
{
    // prefix encoding in a[8..]: 1 op type value | 2 (and) | 3 (or)
    int64_t k = op->a[(*pos)++];
    if (k == 1) {
        int     o = op->a[(*pos)++], t = op->a[(*pos)++];
        int64_t raw = op->a[(*pos)++];
        int     slot = op->a[(*pos)++];
        char    v[8];
        memcpy(v, &raw, 8);
        pdc_query_t *q = PDCquery_create(objs[slot], o, t, v);
        q_leaf++;
        if (q && q_region && (op->a[39] == 1 ? q_leaf == 1 : op->a[39] == 2 && q_leaf == q_leaves))
            PDCquery_sel_region(q, q_region);
        return q;
    }
    pdc_query_t *l = q_build(op, pos), *r = q_build(op, pos);
    return k == 2 ? PDCquery_and(l, r) : PDCquery_or(l, r);
}

static void
exec(AppOp *op)
{
    int64_t *a = op->a;
    int      s = (int)a[0];
    switch (op->kind) {
        case K_SLEEP:
            sim_nap((uint64_t)a[0]);
            break;
        case K_BARRIER:
            sim_barrier(op);
            break;
        case CONT_CREATE:
        case CONT_CREATE_COL:
            conts[s] = op->kind == CONT_CREATE ? PDCcont_create(NM(op), cont_prop) : PDCcont_create_col(NM(op), cont_prop);
            op->ret  = (int64_t)conts[s];
            if (op->ret <= 0)
                conts[s] = 0;
            else {
                struct _pdc_id_info *i = PDC_find_id(conts[s]);
                op->r[0] = i ? ((struct _pdc_cont_info *)i->obj_ptr)->cont_info_pub->meta_id : 0;
            }
            break;
        case CONT_OPEN:
            conts[s] = a[38] ? PDCcont_open_col(NM(op), pdc) : PDCcont_open(NM(op), pdc);
            op->ret  = (int64_t)conts[s];
            if (op->ret <= 0)
                conts[s] = 0;
            else {
                struct _pdc_id_info *i = PDC_find_id(conts[s]);
                op->r[0] = i ? ((struct _pdc_cont_info *)i->obj_ptr)->cont_info_pub->meta_id : 0;
            }
            break;
        case CONT_CLOSE:
            NEED(conts[s]);
            op->ret  = PDCcont_close(conts[s]);
            conts[s] = 0;
            break;
        case CONT_DEL:
            NEED(conts[s]);
            op->ret = PDCcont_del(conts[s]);
            break;
        case OBJ_CREATE: { // a: slot, cont, ndim, dims[3], type, time_step, user, partition, consistency
            NEED(conts[a[1]]);
            pdcid_t  p = PDCprop_create(PDC_OBJ_CREATE, pdc);
            uint64_t d[4] = {a[3], a[4], a[5], 0};
            PDCprop_set_obj_dims(p, a[2], d);
            PDCprop_set_obj_type(p, a[6]);
            PDCprop_set_obj_time_step(p, a[7]);
            if (a[8])
                PDCprop_set_obj_user_id(p, a[8]);
            PDCprop_set_obj_app_name(p, op->s2);
            if (op->s3[0])
                PDCprop_set_obj_tags(p, op->s3);
            PDCprop_set_obj_transfer_region_type(p, a[9]);
            if (a[10])
                PDCprop_set_obj_consistency_semantics(p, a[10]);
            pdcid_t o = a[38] ? PDCobj_create_mpi(conts[a[1]], NM(op), p, a[37], MPI_COMM_WORLD) : PDCobj_create(conts[a[1]], NM(op), p); // a38 collective, a37 the client that creates it
            op->ret   = (int64_t)o;
            objs[s]   = op->ret > 0 ? o : 0;
            if (objs[s]) {
                struct _pdc_id_info *i = PDC_find_id(o);
                op->r[0] = i ? ((struct _pdc_obj_info *)i->obj_ptr)->obj_info_pub->meta_id : 0;
                op->r[1] = i ? ((struct _pdc_obj_info *)i->obj_ptr)->obj_info_pub->metadata_server_id : 0;
            }
            PDCprop_close(p);
            break;
        }
        case OBJ_OPEN: {
            if (a[7]) { // a7: look the object of that time step up (-1: ask all servers for time step 0) without opening it
                pdc_metadata_t *m = NULL;
                uint32_t        sv;
                perr_t          rc = a[7] > 0 ? PDC_Client_query_metadata_name_timestep(NM(op), a[7], &m, &sv) : PDC_Client_query_metadata_name_only(NM(op), &m);
                objs[s] = 0;
                op->ret = rc < 0 || !m ? 0 : 1;
                if (!op->ret)
                    break;
                op->r[0] = m->obj_id;
                op->r[2] = m->ndim;
                for (unsigned k = 0; k < m->ndim && k < 3; k++)
                    op->r[3 + k] = m->dims[k];
                op->r[6]  = m->data_type;
                op->r[7]  = m->time_step;
                op->r[8]  = m->user_id;
                op->r[9]  = m->region_partition;
                op->r[10] = m->consistency;
                char t[6000];
                snprintf(t, sizeof t, "%s|%s|%s", m->obj_name, m->app_name, m->tags);
                sim_result(op, t, strlen(t) + 1);
                free(m);
                break;
            }
            pdcid_t o = a[38] ? PDCobj_open_col(NM(op), pdc) : PDCobj_open(NM(op), pdc);
            op->ret   = (int64_t)o;
            objs[s]   = op->ret > 0 ? o : 0;
            if (!objs[s])
                break;
        }
        // fall through
        case OBJ_INFO: {
            NEED(objs[s]);
            struct _pdc_id_info *i = PDC_find_id(objs[s]);
            if (!i) {
                op->ret = -1;
                break;
            }
            struct pdc_obj_info *b = PDCobj_get_info(objs[s]);
            if (op->kind == OBJ_INFO)
                op->ret = b ? 0 : -1;
            if (!b)
                break;
            op->r[0] = b->meta_id;
            op->r[1] = b->metadata_server_id;
            struct _pdc_obj_prop *p = ((struct _pdc_obj_info *)i->obj_ptr)->obj_pt;
            op->r[2] = p->obj_prop_pub->ndim;
            for (unsigned k = 0; k < p->obj_prop_pub->ndim && k < 3; k++)
                op->r[3 + k] = p->obj_prop_pub->dims[k];
            op->r[6] = p->obj_prop_pub->type;
            op->r[7] = p->time_step;
            op->r[8] = p->user_id;
            op->r[9] = p->obj_prop_pub->region_partition;
            op->r[10] = p->obj_prop_pub->consistency;
            char t[6000];
            pdc_metadata_t *m = ((struct _pdc_obj_info *)i->obj_ptr)->metadata;
            snprintf(t, sizeof t, "%s|%s|%s", b->name ? b->name : "", p->app_name ? p->app_name : "", m && op->kind == OBJ_OPEN ? m->tags : "");
            sim_result(op, t, strlen(t) + 1);
            break;
        }
        case OBJ_CLOSE:
            NEED(objs[s]);
            op->ret = PDCobj_close(objs[s]);
            for (int i = 0; i < NS; i++) // closing waits for the outstanding transfers
                if (xf[i] && xobj[i] == s && xst[i] == 1 && op->ret >= 0) {
                    xst[i] = 2;
                    sim_xdone(op, i, xbuf[i] + xoff[i], xlen[i]);
                }
            objs[s] = 0;
            break;
        case OBJ_DEL:
            NEED(objs[s]);
            op->ret = PDCobj_del(objs[s]);
            break;
        case X_CREATE: { // a: xslot, obj, access, ndim, off[3], size[3], unit, local ndim, local off, (local full dims)
            NEED(objs[a[1]]);
            int     nd = a[3], ld = a[11];
            int64_t n  = 1;
            for (int i = 0; i < nd; i++)
                n *= a[7 + i];
            uint64_t lo  = a[12];
            uint64_t pad = a[13];
            xobj[s] = (int)a[1];
            xst[s]  = 0;
            xpx[s]  = a[14];
            xlen[s] = n * a[10];
            xoff[s] = ld == 1 ? lo * a[10] : 0;
            xbuf[s] = (char *)malloc(xlen[s] + xoff[s] + pad);
            memset(xbuf[s], 0xEE, xlen[s] + xoff[s] + pad);
            if (a[2] == PDC_WRITE)
                sim_fill(op, xbuf[s] + xoff[s], xlen[s]);
            int64_t lof[3] = {0, 0, 0}, lsz[3];
            if (ld == 1) {
                lof[0] = lo;
                lsz[0] = n;
            }
            else
                for (int i = 0; i < nd; i++)
                    lsz[i] = a[7 + i];
            pdcid_t lr = region(ld == 1 ? 1 : nd, lof, lsz), rr = region(nd, a + 4, a + 7);
            xf[s]   = PDCregion_transfer_create(xbuf[s], a[2], objs[a[1]], lr, rr);
            op->ret = (int64_t)xf[s];
            PDCregion_close(lr);
            PDCregion_close(rr);
            break;
        }
        case X_START:
            NEED(xf[s]);
            op->ret = PDCregion_transfer_start(xf[s]);
            xst[s]  = 1;
            if (xpx[s] && op->ret >= 0) {
                xst[s] = 3;
                sim_xdone(op, s, xbuf[s] + xoff[s], xlen[s]);
            }
            break;
        case X_STATUS: {
            NEED(xf[s]);
            // a1: ask at most so many times, a2 ns apart, until it is complete
            pdc_transfer_status_t st = 77;
            op->r[1] = xst[s];
            for (int64_t k = 0; k == 0 || k < a[1]; k++) {
                st       = 77;
                op->ret  = PDCregion_transfer_status(xf[s], &st);
                op->r[0] = st;
                if (st != PDC_TRANSFER_STATUS_PENDING)
                    break;
                if (a[2])
                    sim_nap((uint64_t)a[2]);
            }
            if (st == PDC_TRANSFER_STATUS_COMPLETE && xst[s] == 1) {
                xst[s] = 2;
                sim_xdone(op, s, xbuf[s] + xoff[s], xlen[s]);
            }
            break;
        }
        case X_WAIT:
            NEED(xf[s]);
            op->ret = PDCregion_transfer_wait(xf[s]);
            if (xst[s] == 1 || xst[s] == 3) {
                xst[s] = 2;
                sim_xdone(op, s, xbuf[s] + xoff[s], xlen[s]);
            }
            break;
        case X_CLOSE:
            NEED(xf[s]);
            op->ret = PDCregion_transfer_close(xf[s]);
            if (op->ret >= 0) {
                for (uint64_t i = 0; i < xoff[s]; i++)
                    if ((unsigned char)xbuf[s][i] != 0xEE)
                        op->r[1] = 1; // bytes outside of the local region were changed
                if (xst[s] == 1)
                    sim_xdone(op, s, xbuf[s] + xoff[s], xlen[s]); // closing waited
                free(xbuf[s]);
            }
            xf[s]   = 0;
            xbuf[s] = NULL;
            break;
        case X_START_ALL:
        case X_WAIT_ALL: { // a0 count, a1.. slots
            pdcid_t ids[32];
            int     n = 0, want = op->kind == X_START_ALL ? 0 : 1;
            for (int i = 0; i < a[0]; i++)
                if (xf[a[1 + i]] && (xst[a[1 + i]] == want || (want && xst[a[1 + i]] == 3)))
                    ids[n++] = xf[a[1 + i]];
            NEED(n);
            op->ret = op->kind == X_START_ALL ? PDCregion_transfer_start_all(ids, n) : PDCregion_transfer_wait_all(ids, n);
            for (int i = 0; i < a[0]; i++)
                if (xf[a[1 + i]] && (xst[a[1 + i]] == want || (want && xst[a[1 + i]] == 3))) {
                    xst[a[1 + i]] = want + 1;
                    if (!want && xpx[a[1 + i]] && op->ret >= 0)
                        xst[a[1 + i]] = 3;
                    if (want || xst[a[1 + i]] == 3)
                        sim_xdone(op, a[1 + i], xbuf[a[1 + i]] + xoff[a[1 + i]], xlen[a[1 + i]]);
                }
            break;
        }
        case FLUSH_OBJ:
            NEED(objs[s]);
            op->ret = PDCobj_flush_start(objs[s]);
            break;
        case FLUSH_ALL:
            op->ret = PDCobj_flush_all_start();
            break;
        case CKPT:
            op->ret = PDC_Client_all_server_checkpoint();
            break;
        case CLOSE_SERVERS:
            op->ret = PDC_Client_close_all_server();
            break;
        case TAG_PUT: // a0 slot, a1 is container, a2 type, a3 size
        {
            pdcid_t id = a[1] ? conts[s] : objs[s];
            NEED(id);
            void *v = malloc(op->nin ? op->nin : 1);
            memcpy(v, op->in, op->nin);
            op->ret = a[1] ? PDCcont_put_tag(id, op->s1, v, a[2], op->nin) : PDCobj_put_tag(id, op->s1, v, a[2], op->nin);
            free(v);
            break;
        }
        case TAG_GET: {
            pdcid_t id = a[1] ? conts[s] : objs[s];
            NEED(id);
            void *         v  = NULL;
            pdc_var_type_t t  = -5;
            psize_t        sz = 0;
            op->ret = a[1] ? PDCcont_get_tag(id, op->s1, &v, &t, &sz) : PDCobj_get_tag(id, op->s1, &v, &t, &sz);
            op->r[0] = t;
            op->r[1] = sz;
            op->r[2] = v != NULL;
            if (op->ret >= 0 && v && sz < 100000)
                sim_result(op, v, sz);
            break;
        }
        case TAG_DEL: {
            pdcid_t id = a[1] ? conts[s] : objs[s];
            NEED(id);
            op->ret = a[1] ? PDCcont_del_tag(id, op->s1) : PDCobj_del_tag(id, op->s1);
            break;
        }
        case CONT_ADD:
        case CONT_RM: { // a0 cont, a1 count, a2.. obj slots (a39: consecutive slots from a2)
            NEED(conts[s]);
            pdcid_t ids[256];
            int     n = 0;
            for (int i = 0; i < a[1]; i++) {
                pdcid_t o = objs[a[39] ? a[2] + i : a[2 + i]];
                if (o)
                    ids[n++] = o;
            }
            NEED(n);
            op->ret = op->kind == CONT_ADD ? PDCcont_put_objids(conts[s], n, ids) : PDCcont_del_objids(conts[s], n, ids);
            break;
        }
        case QUERY_TAG: { // s1 name, in value, a0 type
            pdc_kvtag_t k;
            uint64_t *  ids = NULL;
            int         n   = 0;
            char        v[256];
            memset(v, 0, sizeof v);
            memcpy(v, op->in, op->nin);
            k.name  = op->s1;
            k.value = v;
            k.type  = a[0];
            k.size  = op->nin;
            op->ret = a[38] ? PDC_Client_query_kvtag_mpi(&k, &n, &ids, MPI_COMM_WORLD) : PDC_Client_query_kvtag(&k, &n, &ids);
            op->r[0] = n;
            if (op->ret >= 0 && n > 0)
                sim_result(op, ids, 8ull * n);
            break;
        }
        case META_QUERY: { // a0 user, a1 ts from, a2 ts to, a3 ndim, s1 name, s2 app, s3 tags
            pdc_metadata_t **out = NULL;
            int              n   = 0;
            op->ret = a[4] == 2 ? PDC_Client_query_tag(op->s3, &n, &out) : PDC_partial_query(a[4], a[0], op->s2[0] ? op->s2 : NULL, op->s1[0] ? op->s1 : NULL, a[1], a[2], a[3], op->s3[0] ? op->s3 : NULL, &n, &out);
            op->r[0] = n;
            if (n > 0 && n < 1000) {
                uint64_t ids[1000];
                for (int i = 0; i < n; i++)
                    ids[i] = out[i]->obj_id;
                sim_result(op, ids, 8ull * n);
            }
            break;
        }
        case DART_INS:
            op->ret = PDC_Client_insert_obj_ref_into_dart(a[0], op->s1, op->s2, REF_PRIMARY_ID, a[1]);
            break;
        case DART_DEL:
            op->ret = PDC_Client_delete_obj_ref_from_dart(a[0], op->s1, op->s2, REF_PRIMARY_ID, a[1]);
            break;
        case DART_SEARCH: {
            uint64_t *ids = NULL;
            int       n   = 0;
            op->ret  = a[38] ? PDC_Client_search_obj_ref_through_dart_mpi(a[0], op->s1, REF_PRIMARY_ID, &n, &ids, MPI_COMM_WORLD) : PDC_Client_search_obj_ref_through_dart(a[0], op->s1, REF_PRIMARY_ID, &n, &ids);
            op->r[0] = n;
            if (n > 0)
                sim_result(op, ids, 8ull * n);
            break;
        }
        case Q_RUN: { // a0 what (1 nhits, 2 selection, 3 selection+data), a1 obj slot for data, a2 unit, a3 ndim of restriction, a4.. restriction off,size, a10 pause before the data, a39 the restriction is given to the first (1) or last (2) comparison before they are joined ; a[12..] tree
            q_leaf = q_leaves = 0;
            for (int i = 12; i < 39 && a[i]; i++) {
                if (a[i] == 1) {
                    q_leaves++;
                    NEED(objs[a[i + 4]] && (a[0] != 3 || objs[a[1]]));
                    i += 4;
                }
            }
            int             pos = 12;
            struct pdc_region_info *ri = a[3] ? PDCregion_get_info(region(a[3], a + 4, a + 7)) : NULL;
            q_region            = ri;
            pdc_query_t *   q   = q_build(op, &pos);
            pdc_selection_t sel;
            uint64_t        n = 0;
            memset(&sel, 0, sizeof sel);
            if (!q) {
                op->ret = -2;
                break;
            }
            if (ri && !a[39])
                PDCquery_sel_region(q, ri);
            if (a[0] == 1) {
                op->ret  = PDCquery_get_nhits(q, &n);
                op->r[0] = n;
            }
            else {
                op->ret  = PDCquery_get_selection(q, &sel);
                op->r[0] = sel.nhits;
                op->r[1] = sel.ndim;
                if (op->ret >= 0 && (sel.nhits == 0 || sel.coords)) { // coordinates, then data
                    uint64_t nc = sel.nhits * sel.ndim * 8, nd = a[0] == 3 ? sel.nhits * a[2] : 0;
                    char *   d  = malloc(nc + nd + 1);
                    memcpy(d, sel.coords, nc);
                    memset(d + nc, 0xEE, nd);
                    if (a[10])
                        sim_nap((uint64_t)a[10]);
                    if (a[0] == 3)
                        op->r[2] = PDCquery_get_data(objs[a[1]], &sel, d + nc);
                    sim_result(op, d, nc + nd);
                    free(d);
                }
                PDCselection_free(&sel);
            }
            PDCquery_free_all(q);
            break;
        }
        case LOCK:
        case UNLOCK: { // a0 obj, a1 map slot, a2 access, a3 mode; unlock a6: only if the last request was granted
            NEED(objs[s] && mreg[a[1]] && !(op->kind == UNLOCK && a[6] && mlk[a[1]] < 0));
            op->ret = op->kind == LOCK ? PDCreg_obtain_lock(objs[s], mreg[a[1]], a[2], a[3]) : PDCreg_release_lock(objs[s], mreg[a[1]], a[2]);
            if (op->kind == LOCK)
                mlk[a[1]] = op->ret;
            else if (a[2] == PDC_READ)
                sim_result(op, mbuf[a[1]], mlen[a[1]]);
            break;
        }
        case BUF_MAP: { // a0 map slot, a1 obj, a2 type, a3 ndim, a4.. off, a7.. size, a10 unit, a11 only the region
            NEED(objs[a[1]]);
            int     nd = a[3];
            int64_t n  = 1, z[3] = {0, 0, 0};
            for (int i = 0; i < nd; i++)
                n *= a[7 + i];
            mlen[s]    = n * a[10];
            mbuf[s]    = calloc(1, mlen[s]);
            pdcid_t lr = region(nd, z, a + 7);
            mreg[s]    = region(nd, a + 4, a + 7);
            op->ret    = a[11] ? 0 : PDCbuf_obj_map(mbuf[s], a[2], lr, objs[a[1]], mreg[s]);
            break;
        }
        case BUF_UNMAP:
            NEED(mreg[s] && objs[a[1]]);
            op->ret = PDCbuf_obj_unmap(objs[a[1]], mreg[s]);
            mreg[s] = 0;
            break;
        case COMP: // the application changes its mapped buffer
            NEED(mbuf[s]);
            sim_fill(op, mbuf[s], mlen[s]);
            break;
        case PUT_DATA: {
            NEED(conts[a[1]]);
            void *v = malloc(op->nin ? op->nin : 1);
            memcpy(v, op->in, op->nin);
            pdcid_t o = PDCobj_put_data(op->s1, v, op->nin, conts[a[1]]);
            op->ret   = (int64_t)o;
            objs[s]   = op->ret > 0 ? o : 0;
            free(v);
            break;
        }
        case GET_DATA: {
            NEED(objs[s]);
            char *v = malloc(a[1] + 1);
            memset(v, 0xEE, a[1] + 1);
            op->ret = PDCobj_get_data(objs[s], v, a[1]);
            sim_result(op, v, a[1]);
            free(v);
            break;
        }
        case H_MAKE: { // a0 slot, a1 kind, a2.. the slots of what it is made from; s1 name
            pdcid_t h = 0, x = H(a[2]), y = H(a[3]), z = H(a[4]);
            switch (a[1]) {
                case HK_CPROP: h = PDCprop_create(PDC_CONT_CREATE, pdc); break;
                case HK_OPROP: h = PDCprop_create(PDC_OBJ_CREATE, pdc); break;
                case HK_DUP: h = PDCprop_obj_dup(x); break;
                case HK_REG: h = region(a[10], a + 11, a + 14); break;
                case HK_CONT: h = PDCcont_create(NM(op), x); break;
                case HK_CONT_OPEN: h = PDCcont_open(NM(op), pdc); break;
                case HK_OBJ: h = PDCobj_create(x, op->s1, y); break;
                case HK_OBJ_OPEN: h = PDCobj_open(NM(op), pdc); break;
                case HK_XFER:
                    xbuf[s] = (char *)malloc(4096);
                    memset(xbuf[s], 7, 4096);
                    h = PDCregion_transfer_create(xbuf[s], a[5], x, y, z);
                    break;
            }
            if ((int64_t)h > 0)
                hs[s] = h;
            op->ret = (int64_t)h;
            break;
        }
        case H_CLOSE: {
            pdcid_t h = H(s);
            switch (a[1]) {
                case HK_CPROP: case HK_OPROP: case HK_DUP: op->ret = PDCprop_close(h); break;
                case HK_REG: op->ret = PDCregion_close(h); break;
                case HK_CONT: case HK_CONT_OPEN: op->ret = PDCcont_close(h); break;
                case HK_OBJ: case HK_OBJ_OPEN: op->ret = PDCobj_close(h); break;
                case HK_XFER: op->ret = PDCregion_transfer_close(h); break;
            }
            break;
        }
        case H_SET: { // a2 value
            pdcid_t  h    = H(s);
            uint64_t d[3] = {a[2], a[2] + 1, a[2] + 2};
            char     nm[32];
            snprintf(nm, sizeof nm, "n%d", (int)a[2]);
            switch (a[1]) {
                case 0: op->ret = PDCprop_set_cont_lifetime(h, a[2] & 1 ? PDC_PERSIST : PDC_TRANSIENT); break;
                case 1: op->ret = PDCprop_set_obj_time_step(h, a[2]); break;
                case 2: op->ret = PDCprop_set_obj_user_id(h, a[2]); break;
                case 3: op->ret = PDCprop_set_obj_app_name(h, nm); break;
                case 4: op->ret = PDCprop_set_obj_tags(h, nm); break;
                case 5: op->ret = PDCprop_set_obj_dims(h, 1, d); break;
                case 6: op->ret = PDCprop_set_obj_type(h, a[2] & 1 ? PDC_INT : PDC_CHAR); break;
                case 7: op->ret = PDCprop_set_obj_data_loc(h, nm); break;
                case 8: op->ret = PDCcont_persist(h); break;
                case 9: op->ret = PDCprop_set_obj_consistency_semantics(h, (pdc_consistency_t)(a[2] % 5)); break;
                case 10: op->ret = PDCprop_set_obj_transfer_region_type(h, (pdc_region_partition_t)(a[2] % 4)); break;
            }
            break;
        }
        case H_USE: { // a1 what to ask
            pdcid_t h     = H(s);
            char    t[512] = "";
            op->ret        = -1;
            switch (a[1]) {
                case 0: {
                    struct _pdc_cont_prop *p = PDCcont_prop_get_info(h);
                    if (p) { op->ret = 0; op->r[0] = p->cont_life; op->r[1] = p->cont_prop_id; }
                    break;
                }
                case 1: {
                    struct _pdc_obj_prop *p = PDC_obj_prop_get_info(h);
                    if (!p) break;
                    op->ret = 0; op->r[0] = p->time_step; op->r[1] = p->obj_prop_pub->obj_prop_id; op->r[2] = p->user_id;
                    op->r[3] = p->obj_prop_pub->ndim; op->r[4] = p->obj_prop_pub->ndim ? p->obj_prop_pub->dims[0] : 0; op->r[5] = p->obj_prop_pub->type;
                    op->r[6] = p->obj_prop_pub->consistency; op->r[7] = p->obj_prop_pub->region_partition;
                    snprintf(t, sizeof t, "%s|%s|%s", p->app_name ? p->app_name : "", p->tags ? p->tags : "", p->data_loc ? p->data_loc : "");
                    break;
                }
                case 2: {
                    struct pdc_region_info *p = PDCregion_get_info(h);
                    if (!p) break;
                    op->ret = 0; op->r[0] = p->ndim; op->r[1] = p->local_id;
                    for (unsigned k = 0; k < p->ndim && k < 3; k++) { op->r[2 + k] = p->offset[k]; op->r[5 + k] = p->size[k]; }
                    break;
                }
                case 3: {
                    struct _pdc_cont_info *p = PDC_cont_get_info(h);
                    if (!p) break;
                    op->ret = 0; op->r[0] = p->cont_info_pub->meta_id; op->r[1] = p->cont_info_pub->local_id; op->r[2] = p->cont_pt->cont_life;
                    snprintf(t, sizeof t, "%s", p->cont_info_pub->name);
                    break;
                }
                case 4: {
                    struct pdc_obj_info *p = PDCobj_get_info(h);
                    if (!p) break;
                    op->ret = 0; op->r[0] = p->meta_id; op->r[1] = p->local_id; op->r[2] = p->obj_pt->ndim; op->r[3] = p->obj_pt->ndim ? p->obj_pt->dims[0] : 0;
                    snprintf(t, sizeof t, "%s", p->name);
                    break;
                }
                case 5: {
                    uint64_t *d = NULL;
                    int       nd = 0;
                    op->ret      = PDCobj_get_dims(h, &nd, &d);
                    op->r[2] = nd; op->r[3] = op->ret >= 0 && nd ? d[0] : 0;
                    break;
                }
                case 6: { // PDCcont_get_info goes by name
                    struct pdc_cont_info *p = PDCcont_get_info(op->s1);
                    if (!p) break;
                    op->ret = 0; op->r[0] = p->meta_id; op->r[1] = p->local_id;
                    snprintf(t, sizeof t, "%s", p->name);
                    break;
                }
                case 7: op->ret = PDCobj_put_tag(h, "ht", "v", PDC_CHAR, 1); break;
                case 8: op->ret = PDCcont_put_tag(h, "ht", "v", PDC_CHAR, 1); break;
                case 9: { void **b = PDCobj_buf_retrieve(h); op->ret = b ? 0 : -1; break; }
            }
            sim_result(op, t, strlen(t) + 1);
            break;
        }
        case H_XFER: { // a1: 0 start 1 wait 2 status 3 start_all 4 wait_all
            pdcid_t               h  = H(s);
            pdc_transfer_status_t st = 77;
            switch (a[1]) {
                case 0: op->ret = PDCregion_transfer_start(h); break;
                case 1: op->ret = PDCregion_transfer_wait(h); break;
                case 2: op->ret = PDCregion_transfer_status(h, &st); op->r[0] = st; break;
                case 3: op->ret = PDCregion_transfer_start_all(&h, 1); break;
                case 4: op->ret = PDCregion_transfer_wait_all(&h, 1); break;
            }
            break;
        }
        case H_MAP: { // a0 obj, a1 region, a2 local region, a3 1 map 0 unmap
            if (a[3]) {
                static char mb[4096];
                op->ret = PDCbuf_obj_map(mb, PDC_CHAR, H(a[2]), H(s), H(a[1]));
            }
            else
                op->ret = PDCbuf_obj_unmap(H(s), H(a[1]));
            break;
        }
        case H_ITER: { // every open container, or every open object of the container in slot a0
            static char t[8192];
            t[0] = 0;
            int n = 0;
            if (a[1] == 0)
                for (cont_handle *c = PDCcont_iter_start(); !PDCcont_iter_null(c) && n < 200; c = PDCcont_iter_next(c), n++) {
                    struct pdc_cont_info *i = PDCcont_iter_get_info(c);
                    snprintf(t + strlen(t), sizeof t - strlen(t), "%lld ", (long long)i->local_id);
                }
            else
                for (obj_handle *c = PDCobj_iter_start(H(s)); !PDCobj_iter_null(c) && n < 200; c = PDCobj_iter_next(c, H(s)), n++) {
                    struct pdc_obj_info *i = PDCobj_iter_get_info(c);
                    snprintf(t + strlen(t), sizeof t - strlen(t), "%lld ", (long long)i->local_id);
                }
            op->ret = n;
            sim_result(op, t, strlen(t) + 1);
            break;
        }
        case SET_DIMS: {
            NEED(objs[s]);
            uint64_t d[3] = {a[2], a[3], a[4]};
            op->ret = PDCobj_set_dims(objs[s], a[1], d);
            break;
        }
        case STR_TAG:
            NEED(objs[s]);
            op->ret = PDC_Client_add_tag(objs[s], NM(op));
            break;
        case OBJ_DEL_NAME: {
            pdcid_t p = PDCprop_create(PDC_OBJ_CREATE, pdc);
            PDCprop_set_obj_time_step(p, a[7]);
            op->ret = PDC_Client_delete_metadata((char *)NM(op), p);
            PDCprop_close(p);
            break;
        }
        case META_UPD: {
            pdc_metadata_t *m = NULL, *n;
            uint32_t        sv;
            if (PDC_Client_query_metadata_name_timestep(NM(op), a[7], &m, &sv) < 0 || !m) {
                op->ret = 0; // not found
                break;
            }
            op->r[0] = m->obj_id;
            n = malloc(sizeof *n);
            *n = *m;
            strcpy(n->app_name, op->s2);
            strcpy(n->tags, op->s3);
            op->ret = PDC_Client_update_metadata(m, n) < 0 ? -1 : 1;
            free(n);
            free(m);
            break;
        }
        case CONT_PROBE:
            sim_probe(op);
            break;
        default:
            break;
    }
}

int
app_main(int client)
{
    AppOp *op;
    pdc       = PDCinit("pdc");
    cont_prop = PDCprop_create(PDC_CONT_CREATE, pdc);
    while ((op = sim_next_op(client)) != NULL) {
        if (op->status == 0) {
            op->status = 1;
            exec(op);
            if (op->status == 1)
                op->status = 2;
        }
        sim_op_done(op);
    }
    PDCprop_close(cont_prop);
    PDCclose(pdc);
    return 0;
}
