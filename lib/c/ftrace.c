/* Runs commands of this check's own under ptrace and stops them at every system call that touches a path below PREFIX.
 *   ftrace -p PREFIX -o LOG [-r] [-n] [-k N[:BYTES]] [-e N:ERRNO]... [-s N:BYTES] [-S SCHED] -- prog args [-- prog2 args ...]
 * -k kills everything before event N (with BYTES: after a write of N's first BYTES bytes); -e makes event N fail; -s shortens
 * the transfer of event N; -r counts reads, opens for reading and lookups too; -n counts transfers on sockets and pipes.
 * With several programs, one runs at a time between events: SCHED is the list of programs to run at successive events where
 * more than one can run ("0.1.1"); after its end the running program continues while it can.  The log has one line per event. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <limits.h>
#include <fcntl.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <sys/user.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#define MAXT 4096
typedef struct { pid_t tid; int prog; int in; int parked; int ev; long ret; int setret; int fresh; } T;
static T ts[MAXT]; static int nt;
static const char *prefix; static FILE *lg; static int reads, nets; static long kn=-1, kb=-1, en[16], ee[16], sn=-1, sb; static long events; static int nen;
static int root_status[16]; static pid_t root_pid[16]; static int nprog; static int sched[4096], nsched, spos; static int cur=-1;
static T *get(pid_t t){ for(int i=0;i<nt;i++) if(ts[i].tid==t) return &ts[i]; return NULL; }
static T *add(pid_t t,int prog){ T*x=get(t); if(!x){ x=&ts[nt++]; memset(x,0,sizeof *x); x->tid=t; } x->prog=prog; return x; }
static void del(pid_t t){ for(int i=0;i<nt;i++) if(ts[i].tid==t){ ts[i]=ts[--nt]; return; } }
static void killall_(void){ for(int i=0;i<nt;i++) kill(ts[i].tid,SIGKILL); for(int i=0;i<nprog;i++) if(root_pid[i]) kill(-root_pid[i],SIGKILL); }
static void peekstr(pid_t t,unsigned long a,char*b,int n){ struct iovec l={b,n-1},r={(void*)a,n-1}; b[0]=0; ssize_t k;
  for(;;){ k=process_vm_readv(t,&l,1,&r,1,0); if(k>0||l.iov_len<=1) break; l.iov_len=r.iov_len=4096-(a&4095)<l.iov_len?4096-(a&4095):l.iov_len/2; }
  if(k<0) k=0; b[k]=0; b[n-1]=0; }
static int under(pid_t t,int dirfd,unsigned long a,char*out){ char s[PATH_MAX],l[64],d[PATH_MAX]; peekstr(t,a,s,sizeof s);
  if(s[0]!='/'){ if(dirfd==AT_FDCWD) snprintf(l,64,"/proc/%d/cwd",t); else snprintf(l,64,"/proc/%d/fd/%d",t,dirfd);
    ssize_t k=readlink(l,d,sizeof d-1); if(k<0) k=0; d[k]=0; snprintf(out,PATH_MAX,"%.2000s/%.2000s",d,s); } else snprintf(out,PATH_MAX,"%s",s);
  return !strncmp(out,prefix,strlen(prefix)); }
static int fdunder(pid_t t,int fd,char*out){ char l[64]; snprintf(l,64,"/proc/%d/fd/%d",t,fd); ssize_t k=readlink(l,out,PATH_MAX-1); if(k<0){ out[0]=0; return 0; } out[k]=0;
  if(nets&&fd>2&&(!strncmp(out,"socket:",7))) return 1; if(nets>1&&!strncmp(out,"pipe:",5)) return 1;
  return !strncmp(out,prefix,strlen(prefix)); }
/* 1 if the call at entry is an event; fills a description; *xfer set when the call moves r.rdx bytes */
static int classify(pid_t t,struct user_regs_struct*r,char*d,int*xfer){ char p[PATH_MAX],q[PATH_MAX]; long n=r->orig_rax; *xfer=0;
#define P1(name,dfd,arg) if(under(t,dfd,arg,p)){ snprintf(d,PATH_MAX,"%s %s",name,p); return 1; } return 0
#define P2(name,d1,a1,d2,a2) { int u1=under(t,d1,a1,p),u2=under(t,d2,a2,q); if(u1||u2){ snprintf(d,2*PATH_MAX,"%s %s -> %s",name,p,q); return 1; } return 0; }
  switch(n){
  case SYS_open: if(!reads&&!(r->rsi&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))) return 0; if(under(t,AT_FDCWD,r->rdi,p)){ snprintf(d,PATH_MAX,"open%s%s %s",r->rsi&(O_WRONLY|O_RDWR)?"w":"r",r->rsi&O_TRUNC?"t":"",p); return 1; } return 0;
  case SYS_openat: if(!reads&&!(r->rdx&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC))) return 0; if(under(t,(int)r->rdi,r->rsi,p)){ snprintf(d,PATH_MAX,"open%s%s %s",r->rdx&(O_WRONLY|O_RDWR)?"w":"r",r->rdx&O_TRUNC?"t":"",p); return 1; } return 0;
  case SYS_creat: P1("openwt",AT_FDCWD,r->rdi);
  case SYS_write: case SYS_pwrite64: case SYS_sendto: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"write %llu %s",(unsigned long long)r->rdx,p); *xfer=1; return 1; } return 0;
  case SYS_writev: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"writev %llu %s",(unsigned long long)r->rdx,p); return 1; } return 0;
  case SYS_sendfile: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"sendfile %llu %s",(unsigned long long)r->r10,p); *xfer=2; return 1; } return 0;
  case SYS_copy_file_range: if(fdunder(t,r->rdx,p)){ snprintf(d,PATH_MAX,"copyrange %llu %s",(unsigned long long)r->r8,p); *xfer=3; return 1; } return 0;
  case SYS_read: case SYS_pread64: case SYS_recvfrom: if(!reads) return 0; if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"read %llu %s",(unsigned long long)r->rdx,p); *xfer=1; return 1; } return 0;
  case SYS_getdents64: if(!reads) return 0; if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"getdents %s",p); return 1; } return 0;
  case SYS_close: { char l[64]; if(!fdunder(t,r->rdi,p)) return 0; snprintf(l,64,"/proc/%d/fdinfo/%d",t,(int)r->rdi); FILE*f=fopen(l,"r"); unsigned fl=0; char b[128]; while(f&&fgets(b,128,f)) if(!strncmp(b,"flags:",6)) fl=strtoul(b+6,0,8); if(f) fclose(f);
     if(strncmp(p,prefix,strlen(prefix))) return 0; if(!(fl&(O_WRONLY|O_RDWR))) return 0; snprintf(d,PATH_MAX,"close %s",p); return 1; }
  case SYS_fsync: case SYS_fdatasync: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"fsync %s",p); return 1; } return 0;
  case SYS_ftruncate: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"ftruncate %s",p); return 1; } return 0;
  case SYS_fchmod: if(fdunder(t,r->rdi,p)){ snprintf(d,PATH_MAX,"chmod %s",p); return 1; } return 0;
  case SYS_truncate: P1("truncate",AT_FDCWD,r->rdi);
  case SYS_chmod: P1("chmod",AT_FDCWD,r->rdi); case SYS_fchmodat: case 452: P1("chmod",(int)r->rdi,r->rsi);
  case SYS_mkdir: P1("mkdir",AT_FDCWD,r->rdi); case SYS_mkdirat: P1("mkdir",(int)r->rdi,r->rsi);
  case SYS_rmdir: P1("rmdir",AT_FDCWD,r->rdi); case SYS_unlink: P1("unlink",AT_FDCWD,r->rdi); case SYS_unlinkat: P1(r->rdx?"rmdir":"unlink",(int)r->rdi,r->rsi);
  case SYS_rename: P2("rename",AT_FDCWD,r->rdi,AT_FDCWD,r->rsi); case SYS_renameat: case SYS_renameat2: P2("rename",(int)r->rdi,r->rsi,(int)r->rdx,r->r10);
  case SYS_link: P2("link",AT_FDCWD,r->rdi,AT_FDCWD,r->rsi); case SYS_linkat: P2("link",(int)r->rdi,r->rsi,(int)r->rdx,r->r10);
  case SYS_symlink: P1("symlink",AT_FDCWD,r->rsi); case SYS_symlinkat: P1("symlink",(int)r->rsi,r->rdx);
  case SYS_stat: case SYS_lstat: case SYS_access: if(!reads) return 0; P1("stat",AT_FDCWD,r->rdi);
  case SYS_newfstatat: case SYS_faccessat: case SYS_faccessat2: if(!reads) return 0; { char s[8]; peekstr(t,r->rsi,s,8); if(!s[0]) return 0; } P1("stat",(int)r->rdi,r->rsi);
  case SYS_execve: P1("exec",AT_FDCWD,r->rdi);
  }
  return 0; }
static void resume(T*x,int sig){ ptrace(PTRACE_SYSCALL,x->tid,0,sig); }
static void schedule(void){ /* run one program until its next event */
  if(nprog==1){ for(int i=0;i<nt;i++) if(ts[i].parked){ ts[i].parked=0; resume(&ts[i],0); } return; }
  for(;;){
    int can[16]={0},n=0,busy=0; for(int i=0;i<nt;i++){ if(ts[i].parked){ if(!can[ts[i].prog]) n++; can[ts[i].prog]=1; } }
    for(int i=0;i<nt;i++) if(ts[i].prog==cur&&!ts[i].parked) busy=1;
    if(!n) return;
    if(busy&&cur>=0&&!can[cur]) return; /* the current program is between events */
    int pick=-1;
    if(n>1){ if(spos<nsched) pick=sched[spos++]; if(pick<0||pick>15||!can[pick]) pick=-1; if(lg) fprintf(lg,"@ %d\n",n); }
    if(pick<0){ if(cur>=0&&can[cur]) pick=cur; else for(int i=0;i<16;i++) if(can[i]){ pick=i; break; } }
    cur=pick; for(int i=0;i<nt;i++) if(ts[i].parked&&ts[i].prog==pick){ ts[i].parked=0; resume(&ts[i],0); break; }
    return; } }
int main(int c,char**v){ int i=1; const char*lf=NULL,*so=NULL;
  for(;i<c&&strcmp(v[i],"--");i++){ if(!strcmp(v[i],"-p")) prefix=v[++i]; else if(!strcmp(v[i],"-o")) lf=v[++i]; else if(!strcmp(v[i],"-r")) reads=1; else if(!strcmp(v[i],"-n")) nets++; else if(!strcmp(v[i],"-O")) so=v[++i];
    else if(!strcmp(v[i],"-k")) sscanf(v[++i],"%ld:%ld",&kn,&kb); else if(!strcmp(v[i],"-e")) { sscanf(v[++i],"%ld:%ld",&en[nen],&ee[nen]); nen++; } else if(!strcmp(v[i],"-s")) sscanf(v[++i],"%ld:%ld",&sn,&sb);
    else if(!strcmp(v[i],"-S")){ char*p=v[++i]; while(*p){ sched[nsched++]=strtol(p,&p,10); if(*p) p++; } } }
  lg=lf?fopen(lf,"w"):NULL; if(!prefix) prefix="/nonexistent";
  while(i<c&&!strcmp(v[i],"--")){ char**a=v+i+1; int j=i+1; while(j<c&&strcmp(v[j],"--")) j++; char*sv=v[j]; if(j<c) v[j]=NULL;
    pid_t p=fork(); if(!p){ setpgid(0,0); if(so){ char f[PATH_MAX]; snprintf(f,sizeof f,"%s.%d.out",so,nprog); int fd=open(f,O_WRONLY|O_CREAT|O_TRUNC,0666); dup2(fd,1); snprintf(f,sizeof f,"%s.%d.err",so,nprog); fd=open(f,O_WRONLY|O_CREAT|O_TRUNC,0666); dup2(fd,2); }
      ptrace(PTRACE_TRACEME,0,0,0); raise(SIGSTOP); execvp(a[0],a); _exit(127); }
    if(j<c) v[j]=sv; root_pid[nprog]=p; add(p,nprog); nprog++; i=j; }
  for(int k=0;k<nprog;k++){ int s; waitpid(root_pid[k],&s,__WALL); if(ptrace(PTRACE_SETOPTIONS,root_pid[k],0,PTRACE_O_TRACESYSGOOD|PTRACE_O_TRACECLONE|PTRACE_O_TRACEFORK|PTRACE_O_TRACEVFORK|PTRACE_O_TRACEEXEC|PTRACE_O_EXITKILL)) return 125; }
  for(int k=0;k<nprog;k++) resume(get(root_pid[k]),0);
  time_t lim=time(0)+(getenv("FT_LIMIT")?atoi(getenv("FT_LIMIT")):60); int idle=0;
  while(nt){ int s; pid_t t=waitpid(-1,&s,__WALL|WNOHANG);
    if(t==0){ /* nothing to report: everything runs, or all others wait for the parked */
      if(time(0)>lim){ killall_(); if(lg) fprintf(lg,"TIMEOUT\n"); fflush(lg); lim+=1000; }
      struct timespec z={0,20000}; nanosleep(&z,0); if(++idle>2000&&nprog>1){ cur=-1; schedule(); idle=0; } continue; }
    idle=0; if(t<0){ if(errno==ECHILD) break; continue; }
    T*x=get(t);
    if(WIFEXITED(s)||WIFSIGNALED(s)){ for(int k=0;k<nprog;k++) if(root_pid[k]==t) root_status[k]=WIFEXITED(s)?WEXITSTATUS(s):128+WTERMSIG(s); int pr=x?x->prog:-1; del(t); int left=0; for(int k=0;k<nt;k++) if(ts[k].prog==pr) left=1; if(!left&&pr==cur) cur=-1; schedule(); continue; }
    if(!x){ x=add(t,0); x->fresh=1; resume(x,0); continue; }
    int sig=WSTOPSIG(s);
    if(s>>8==(SIGTRAP|(PTRACE_EVENT_CLONE<<8))||s>>8==(SIGTRAP|(PTRACE_EVENT_FORK<<8))||s>>8==(SIGTRAP|(PTRACE_EVENT_VFORK<<8))){ unsigned long m; ptrace(PTRACE_GETEVENTMSG,t,0,&m); T*y=get(m); if(!y){ add(m,x->prog); } else y->prog=x->prog; x=get(t); resume(x,0); continue; }
    if(s>>8==(SIGTRAP|(PTRACE_EVENT_EXEC<<8))){ resume(x,0); continue; }
    if(sig==(SIGTRAP|0x80)){ struct user_regs_struct r; if(ptrace(PTRACE_GETREGS,t,0,&r)){ continue; }
      if(!x->in){ x->in=1; x->ev=0; char d[2*PATH_MAX+64]; int xf; 
        if(classify(t,&r,d,&xf)){ long n=events++; if(lg){ for(char*p=d;*p;p++) if(*p=='\n') *p='?'; fprintf(lg,"%ld %d %s\n",n,x->prog,d); fflush(lg); }
          if(n==kn){ if(kb<0||!xf){ killall_(); continue; } x->ev=2; unsigned long long*len=xf==1?&r.rdx:xf==2?&r.r10:&r.r8; *len=kb; ptrace(PTRACE_SETREGS,t,0,&r); }
          if(n==sn&&xf){ unsigned long long*len=xf==1?&r.rdx:xf==2?&r.r10:&r.r8; if((long)*len>sb) *len=sb; ptrace(PTRACE_SETREGS,t,0,&r); }
          for(int k=0;k<nen;k++) if(n==en[k]){ r.orig_rax=-1; ptrace(PTRACE_SETREGS,t,0,&r); x->setret=1; x->ret=-ee[k]; }
          if(nprog>1){ x->parked=1; if(cur==-1||cur==x->prog){ /* decide only when every program is parked or gone, or by idling */
              int run=0; for(int k=0;k<nt;k++) if(!ts[k].parked){ int other=0; for(int m=0;m<nt;m++) if(ts[m].prog==ts[k].prog&&ts[m].parked) other=1; if(!other) run=1; }
              if(!run||cur==x->prog) schedule(); } continue; } }
      } else { x->in=0; if(x->setret){ r.rax=x->ret; ptrace(PTRACE_SETREGS,t,0,&r); x->setret=0; } if(x->ev==2){ killall_(); continue; } }
      resume(x,0); continue; }
    if(sig==SIGSTOP||sig==SIGTRAP){ resume(x,0); continue; }
    resume(x,sig); }
  if(lg){ for(int k=0;k<nprog;k++) fprintf(lg,"exit %d %d\n",k,root_status[k]); fclose(lg); }
  return nprog==1?root_status[0]:0; }
