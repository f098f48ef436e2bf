// Read-only look into a server's tables, compiled into the server library. Called by the harness at moments when no
// request is being handled (the API has no call that returns the objects recorded in a container).
#include <stdlib.h>
#include <string.h>
#include "pdc_server.h"
#include "pdc_server_metadata.h"
#include "pdc_client_server_common.h"
#include "pdc_hash-table.h"

extern HashTable *container_hash_table_g;

// returns -1: no such container; otherwise the number of recorded objects (live entries)
int
sim_probe_container(const char *name, uint64_t *id, uint64_t *ids, int max)
{
    pdc_cont_hash_table_entry_t *e = NULL;
    int                          n = 0;
    if (container_hash_table_g == NULL || PDC_Server_find_container_by_name(name, &e) < 0 || e == NULL)
        return -1;
    *id = e->cont_id;
    for (int i = 0; i < e->n_obj; i++)
        if (e->obj_ids[i] != 0) {
            if (n < max)
                ids[n] = e->obj_ids[i];
            n++;
        }
    return n;
}
