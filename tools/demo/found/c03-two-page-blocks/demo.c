#include "nsim.h"
#include <time.h>
/* 2-page blocks: blocks go bad while the journal is nearly full; the block
 * holding the last synced tail must never be erased. */
static struct dhara_journal J; static uint8_t pb[512];
static int hit;
static int failb;
static unsigned rs=1; static unsigned rnd(void){rs=rs*1103515245u+12345;return rs>>16&0x7fff;}
static void on_erase(dhara_block_t b){ if (J.root!=DHARA_PAGE_NONE && J.tail_sync!=J.head && (J.tail_sync>>NS.log2_ppb)==b) {hit=1; } }
static int fe(dhara_block_t b){(void)b; return rnd()%100<(unsigned)failb;}
int main(int argc,char**argv){
 (void)argc;(void)argv; long n=0;
 for(int seed=1;seed<4000;seed++){ rs=seed; ns_init(9,1,8+rnd()%8); ns_on_erase=on_erase; ns_fail_erase=fe; failb=rnd()%20; ns_quiet=1;
  for(unsigned b=0;b<NS.num_blocks;b++) ns_bad[b]=rnd()%100<20;
  dhara_journal_init(&J,&NS,pb); dhara_journal_resume(&J,NULL);
  for(int i=0;i<200&&!hit;i++){ uint8_t m[132]={0},d[512]={0}; dhara_error_t e=0;
   if(rnd()%8==0) dhara_journal_dequeue(&J); dhara_page_t sz=dhara_journal_size(&J); if (dhara_journal_enqueue(&J,d,m,&e)==0) {if(dhara_journal_size(&J)<sz){hit=1;printf("size %u to %u\n",sz,dhara_journal_size(&J));}} else{ if(e!=DHARA_E_JOURNAL_FULL){break;} for(int k=0;k<3;k++)dhara_journal_dequeue(&J);}  n++;
   if (rnd()%8==0) {} }
  if(hit){printf("seed %d: synced tail's block erased\n",seed);return 1;} }
 printf("ok %ld\n",n);return 0;}
