#include "nsim.h"
/* One user page per group: resuming with the head at the end of a block must not skip the next block. */
static struct dhara_journal J, K; static uint8_t pb[512], pb2[512];
int main(void){
 ns_init(8,3,8); ns_quiet=1;
 dhara_journal_init(&J,&NS,pb); dhara_journal_resume(&J,NULL);
 dhara_error_t e=0; uint8_t d[512]={0}, m[132]={0}; int n=0;
 while(dhara_journal_enqueue(&J,d,m,&e)==0) n++;
 printf("%d pages, %s head %u tail %u\n",n,dhara_strerror(e),J.head,J.tail);
 while(J.tail>>3==((J.head>>3)+1)%8) dhara_journal_dequeue(&J);
 if(dhara_journal_enqueue(&J,d,m,&e)<0) {printf("unexpected\n"); return 2;}
 printf("head %u tail %u root %u size %u\n",J.head,J.tail,J.root,dhara_journal_size(&J));
 dhara_journal_init(&K,&NS,pb2); if(dhara_journal_resume(&K,&e)<0) return 3;
 printf("head %u tail %u root %u size %u\n",K.head,K.tail,K.root,dhara_journal_size(&K));
 return K.tail!=J.tail || K.head!=J.head;}
