/* formats NUL-terminated texts from stdin with the formatter under test; for each: exit code, length and text of the result, then of formatting the result again */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "fmt/fmt.h"
static char*fm(const char*s,int*rc,size_t*n){ char*b=NULL; FILE*f=open_memstream(&b,n); *rc=gray_fmt_source(s,"x.gray",f); fclose(f); return b; }
int main(void){ char*l=NULL; size_t cap=0; ssize_t k; while((k=getdelim(&l,&cap,0,stdin))>0){ int r1,r2; size_t n1,n2; char*a=fm(l,&r1,&n1); char*b=fm(a,&r2,&n2);
  printf("%d %zu %d %zu\n",r1,n1,r2,n2); fwrite(a,1,n1,stdout); fwrite(b,1,n2,stdout); free(a); free(b); } free(l); return 0; }
