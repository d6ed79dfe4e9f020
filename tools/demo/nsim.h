/* Small NAND model for demonstrations: any geometry, bad blocks, injected
 * failures, a log of operations and a power cut after a number of them. */
#ifndef NSIM_H
#define NSIM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include "dhara/nand.h"
#include "dhara/map.h"
#include "dhara/journal.h"
#include "dhara/error.h"

static struct dhara_nand NS;
static uint8_t *ns_data;
static uint8_t *ns_prog;        /* per page: programmed since erase */
static uint8_t *ns_bad;         /* per block: 1 = bad */
static unsigned *ns_next;       /* per block: next page to program */
static unsigned *ns_erases;
static long ns_ops, ns_cut = -1; /* power cut before operation ns_cut */
static jmp_buf ns_jmp;
static int ns_quiet;
static const char *ns_breach;    /* first breach of NAND discipline */
/* hooks: return nonzero to fail the operation (bad block / ECC) */
static int (*ns_fail_prog)(dhara_page_t p);
static int (*ns_fail_erase)(dhara_block_t b);
static int (*ns_fail_copy)(dhara_page_t s, dhara_page_t d);
static int (*ns_fail_read)(dhara_page_t p, size_t off, size_t len);
static void (*ns_on_erase)(dhara_block_t b);
static void (*ns_on_prog)(dhara_page_t p, const uint8_t *data);
static long ns_n_prog, ns_n_erase, ns_n_copy, ns_n_read, ns_n_mark;

static size_t ns_psz(void) { return (size_t)1 << NS.log2_page_size; }
static dhara_page_t ns_pages(void) { return NS.num_blocks << NS.log2_ppb; }
static uint8_t *ns_page(dhara_page_t p) { return ns_data + p * ns_psz(); }
static void breach(const char *m)
{
	if (!ns_breach) ns_breach = m;
	if (!ns_quiet) fprintf(stderr, "nand: %s\n", m);
}
static void ns_init(int lps, int lppb, int nb)
{
	NS.log2_page_size = lps; NS.log2_ppb = lppb; NS.num_blocks = nb;
	free(ns_data); free(ns_prog); free(ns_bad); free(ns_next); free(ns_erases);
	ns_data = malloc(ns_pages() * ns_psz());
	memset(ns_data, 0xff, ns_pages() * ns_psz());
	ns_prog = calloc(ns_pages(), 1);
	ns_bad = calloc(nb, 1);
	ns_next = calloc(nb, sizeof *ns_next);
	ns_erases = calloc(nb, sizeof *ns_erases);
	ns_ops = 0; ns_cut = -1; ns_breach = NULL;
	ns_n_prog = ns_n_erase = ns_n_copy = ns_n_read = ns_n_mark = 0;
	ns_fail_prog = NULL; ns_fail_erase = NULL; ns_fail_copy = NULL; ns_fail_read = NULL;
	ns_on_erase = NULL; ns_on_prog = NULL;
}
static void ns_tick(void) { if (ns_cut >= 0 && ns_ops >= ns_cut) longjmp(ns_jmp, 1); ns_ops++; }
int dhara_nand_is_bad(const struct dhara_nand *n, dhara_block_t b)
{
	if (b >= n->num_blocks) { breach("is_bad outside chip"); return 1; }
	return ns_bad[b];
}
void dhara_nand_mark_bad(const struct dhara_nand *n, dhara_block_t b)
{
	if (b >= n->num_blocks) { breach("mark_bad outside chip"); return; }
	ns_n_mark++; ns_bad[b] = 1;
}
int dhara_nand_erase(const struct dhara_nand *n, dhara_block_t b, dhara_error_t *err)
{
	if (b >= n->num_blocks) { breach("erase outside chip"); return -1; }
	if (ns_bad[b]) breach("erase of a bad block");
	ns_tick(); ns_n_erase++;
	if (ns_on_erase) ns_on_erase(b);
	ns_next[b] = 0;
	if (ns_fail_erase && ns_fail_erase(b)) { dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1; }
	ns_erases[b]++;
	memset(ns_page(b << n->log2_ppb), 0xff, ns_psz() << n->log2_ppb);
	memset(ns_prog + (b << n->log2_ppb), 0, 1u << n->log2_ppb);
	return 0;
}
static void ns_prog_check(const struct dhara_nand *n, dhara_page_t p)
{
	dhara_block_t b = p >> n->log2_ppb;
	unsigned o = p & ((1u << n->log2_ppb) - 1);
	if (ns_bad[b]) breach("program of a bad block");
	if (ns_prog[p]) breach("program of a page that is not erased");
	if (o < ns_next[b]) breach("program out of order");
	ns_next[b] = o + 1;
	ns_prog[p] = 1;
}
int dhara_nand_prog(const struct dhara_nand *n, dhara_page_t p, const uint8_t *data, dhara_error_t *err)
{
	if (p >= ns_pages()) { breach("program outside chip"); return -1; }
	ns_tick(); ns_n_prog++;
	if (ns_on_prog) ns_on_prog(p, data);
	ns_prog_check(n, p);
	if (ns_fail_prog && ns_fail_prog(p)) {
		memset(ns_page(p), 0x5a, ns_psz());
		dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1;
	}
	memcpy(ns_page(p), data, ns_psz());
	return 0;
}
int dhara_nand_is_free(const struct dhara_nand *n, dhara_page_t p)
{
	(void)n;
	if (p >= ns_pages()) { breach("is_free outside chip"); return 0; }
	return !ns_prog[p];
}
int dhara_nand_read(const struct dhara_nand *n, dhara_page_t p, size_t off, size_t len, uint8_t *data, dhara_error_t *err)
{
	(void)n; ns_n_read++;
	if (p >= ns_pages() || off + len > ns_psz()) { breach("read outside chip"); dhara_set_error(err, DHARA_E_ECC); return -1; }
	if (ns_fail_read && ns_fail_read(p, off, len)) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	memcpy(data, ns_page(p) + off, len);
	return 0;
}
int dhara_nand_copy(const struct dhara_nand *n, dhara_page_t s, dhara_page_t d, dhara_error_t *err)
{
	if (s >= ns_pages() || d >= ns_pages()) { breach("copy outside chip"); return -1; }
	ns_tick(); ns_n_copy++;
	if (ns_fail_read && ns_fail_read(s, 0, ns_psz())) { dhara_set_error(err, DHARA_E_ECC); return -1; }
	ns_prog_check(n, d);
	if (ns_fail_copy && ns_fail_copy(s, d)) {
		memset(ns_page(d), 0x5a, ns_psz());
		dhara_set_error(err, DHARA_E_BAD_BLOCK); return -1;
	}
	memcpy(ns_page(d), ns_page(s), ns_psz());
	return 0;
}
#endif
