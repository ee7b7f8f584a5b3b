/* default process primitives for drivers that do not intercept them */
#include <sys/types.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
pid_t vh_real_fork(void) { return fork(); }
pid_t vh_real_waitpid(pid_t p, int *s, int o) { return waitpid(p, s, o); }
int vh_real_kill(pid_t p, int s) { return kill(p, s); }
