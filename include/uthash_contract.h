/*
 * Used in place of uthash.h (a third-party header whose macros expand to the
 * hash table implementation): each macro becomes a call of a function whose
 * contract vf/specs/s_embed.py states.
 */
#ifndef UTHASH_H
#define UTHASH_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
typedef struct UT_hash_handle {
	struct UT_hash_table *tbl;
	void *prev, *next;
	struct UT_hash_handle *hh_prev, *hh_next;
	void *key;
	unsigned keylen, hashv;
} UT_hash_handle;
void *vf_hash_find(void *, const void *, unsigned long);
void *vf_hash_add(void *, const void *, unsigned long, void *);
void *vf_hash_del(void *, void *);
#define HASH_FIND(hh, head, keyptr, keylen, out) ((out) = vf_hash_find((head), (keyptr), (keylen)))
#define HASH_FIND_PTR(head, findptr, out) HASH_FIND(hh, head, findptr, sizeof(void *), out)
#define HASH_ADD_KEYPTR(hh, head, keyptr, keylen, add) ((head) = vf_hash_add((head), (keyptr), (keylen), (add)))
#define HASH_ADD(hh, head, field, keylen, add) HASH_ADD_KEYPTR(hh, head, &((add)->field), keylen, add)
#define HASH_ADD_PTR(head, field, add) HASH_ADD(hh, head, field, sizeof(void *), add)
#define HASH_DELETE(hh, head, delptr) ((head) = vf_hash_del((head), (delptr)))
#define HASH_DEL(head, delptr) HASH_DELETE(hh, head, delptr)
#endif
