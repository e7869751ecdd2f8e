/* Harness-side helpers for driving the ARMCI API. */
#ifndef VP_ARMCI_H
#define VP_ARMCI_H
#include "vp_rt.h"
#include "mpi_model.h"
#include <armci.h>
#include <armcix.h>

/* environment: pairs given by the harness, constant or symbolic */
#ifndef VP_OWN_GETENV
#ifndef VP_ENV
#define VP_ENV
#endif
static int vp_env_is(const char *a, const char *b) { return vp_strcmp(a, b) == 0; }
char *vp_getenv(const char *name)
{
#define E(n, v) if (vp_env_is(name, n)) return (char *) (v);
  VP_ENV
#undef E
  (void) name; (void) vp_env_is;
  return NULL;
}
#endif
#ifndef VP_OWN_CONTRIB
void vp_hook_contrib(int w, const void *mine, void *out, int n)
{ (void) w; vp_copy_typed(out, mine, n); }
#endif
#ifndef VP_OWN_ONABORT
void vp_on_abort(void) { }
#endif

#ifdef VP_XOR
#define VP_ADD(a, b) ((a) ^ (b))
#else
#define VP_ADD(a, b) ((a) + (b))
#endif
#define VP_RC(x, msg) do { int vp_rc_ = (x); VP_ASSERT(vp_rc_ == 0, msg " reports success"); } while (0)

static void vp_start(void) { vp_init_env(); VP_RC(PARMCI_Init(), "Init"); }
/* collective allocation k of the plan on the world group */
static void vp_alloc_world(int k, void **ptrs)
{
  vp_cur = k; vp_plan_taken = false;
  VP_RC(PARMCI_Malloc(ptrs, vp_plan[k].size[VP_ME]), "Malloc");
  vp_cur = -1;
}
static void vp_alloc_group(int k, void **ptrs, ARMCI_Group *g)
{
  vp_cur = k; vp_plan_taken = false;
  VP_RC(ARMCI_Malloc_group(ptrs, vp_plan[k].size[VP_ME], g), "Malloc_group");
  vp_cur = -1;
}
/* fill all of memory with symbolic bytes and remember it */
unsigned char vp_ref[VP_MEMSZ];
#define VP_R(p, o) vp_ref[(long) (p) * VP_ARENA + (o)]
static void vp_fill_mem(void)
{
  for (int i = 0; i < VP_MEMSZ; i++) { unsigned char b = vp_nd_u8(); vp_mem[i] = b; vp_ref[i] = b; }
}
/* every byte of every process's memory equals the reference (one symbolic byte stands for all) */
static void vp_check_mem(void)
{
  int i = vp_range(0, VP_MEMSZ - 1);
  VP_ASSERT(vp_mem[i] == vp_ref[i], "memory of every process is exactly as specified");
}
#endif
