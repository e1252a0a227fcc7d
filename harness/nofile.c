/* Preloaded into the command-line client: the ledger library insists on raising
   the limit of open files to a million, which a sandbox need not allow.  A
   scratch ledger of a few files does not need it. */
#include <sys/resource.h>
int getrlimit(__rlimit_resource_t r, struct rlimit *l)
{
    l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? 1000000 : RLIM_INFINITY;
    return 0;
}
int setrlimit(__rlimit_resource_t r, const struct rlimit *l)
{
    (void)r;
    (void)l;
    return 0;
}
int getrlimit64(__rlimit_resource_t r, struct rlimit64 *l)
{
    l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? 1000000 : RLIM64_INFINITY;
    return 0;
}
int setrlimit64(__rlimit_resource_t r, const struct rlimit64 *l)
{
    (void)r;
    (void)l;
    return 0;
}
