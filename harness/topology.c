/* Topology queries (C29): any two processes, any domain, any valid local id.  VP_SUB: ARMCI runs on a part of the MPI processes. */
#ifndef VP_NPROC
#define VP_NPROC 4
#endif
#define VP_ARENA 8
#include "vp_armci.h"
static int seen[VP_NPROC];
void harness(void)
{
  int n = VP_NPROC;
  vp_start();
  armci_domain_t D = ARMCI_DOMAIN_SMP;
  int cnt = armci_domain_count(D), me = VP_ME;
  VP_ASSERT(cnt >= 1 && cnt <= n, "there is at least one domain and at most one per process");
  /* each process belongs to exactly one existing domain, and can be found there */
  int p = vp_range(0, n - 1), q = vp_range(0, n - 1);
  int dp = armci_domain_id(D, p), dq = armci_domain_id(D, q);
  VP_ASSERT(dp >= 0 && dp < cnt, "a process belongs to an existing domain");
  int np = armci_domain_nprocs(D, dp);
  VP_ASSERT(np >= 1 && np <= n, "a domain has at least one member");
  int found = 0;
  for (int l = 0; l < n; l++) if (l < np && armci_domain_glob_proc_id(D, dp, l) == p) found++;
  VP_ASSERT(found == 1, "a process appears exactly once in its domain");
  /* members of any domain are processes of that domain */
  int d = vp_range(0, n - 1); VP_ASSUME(d < cnt);
  int nd = armci_domain_nprocs(D, d), l = vp_range(0, n - 1); VP_ASSUME(l < nd);
  int m = armci_domain_glob_proc_id(D, d, l);
  VP_ASSERT(m >= 0 && m < n, "a domain member is a process");
  VP_ASSERT(armci_domain_id(D, m) == d, "a domain member belongs to that domain");
  /* counts add up */
  int tot = 0;
  for (int i = 0; i < n; i++) if (i < cnt) tot += armci_domain_nprocs(D, i);
  VP_ASSERT(tot == n, "member counts add up to the number of processes");
  /* the caller's view */
  VP_ASSERT(armci_domain_my_id(D) == armci_domain_id(D, me), "my domain is the domain of my rank");
  VP_ASSERT(armci_domain_nprocs(D, -1) == armci_domain_nprocs(D, armci_domain_my_id(D)), "-1 names my domain");
  VP_ASSERT(!!armci_domain_same_id(D, p) == (dp == armci_domain_my_id(D)), "same_id agrees with the domain ids");
  VP_ASSERT(!!ARMCI_Same_node(p) == !!armci_domain_same_id(D, p), "Same_node agrees with the domains");
  VP_ASSERT(p != q || dp == dq, "a process has one domain");
  VP_REACHED("queries");
}
