/* A C (and C++) caller of the library, written against the generated header.
 * Reads one operation per line on standard input and writes one result line for each. */
#include <math.h>
#include <stdio.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#include "aga8.h"
}
#else
#include "aga8.h"
#endif

static void num(const char *name, double v) {
  uint64_t b;
  memcpy(&b, &v, sizeof b);
  if (isnan(v)) b = 1;
  printf(" %s=%016llx", name, (unsigned long long)b);
}

static const char *cname(enum CompositionError e) {
  switch (e) {
    case CompositionError_Ok: return "Ok";
    case CompositionError_Empty: return "Empty";
    case CompositionError_BadSum: return "BadSum";
  }
  return "?";
}
static const char *dname(enum DensityError e) {
  switch (e) {
    case DensityError_Ok: return "Ok";
    case DensityError_IterationFail: return "IterationFail";
    case DensityError_PressureTooLow: return "PressureTooLow";
  }
  return "?";
}

static enum CompositionError cstart(int k) {
  return k == 0 ? CompositionError_Ok : k == 1 ? CompositionError_Empty : CompositionError_BadSum;
}
static enum DensityError dstart(int k) {
  return k == 0 ? DensityError_Ok : k == 1 ? DensityError_IterationFail : DensityError_PressureTooLow;
}

static void show(struct Properties q) {
  num("d", q.d);
  num("mm", q.mm);
  num("z", q.z);
  num("dp_dd", q.dp_dd);
  num("d2p_dd2", q.d2p_dd2);
  num("dp_dt", q.dp_dt);
  num("u", q.u);
  num("h", q.h);
  num("s", q.s);
  num("cv", q.cv);
  num("cp", q.cp);
  num("w", q.w);
  num("g", q.g);
  num("jt", q.jt);
  num("kappa", q.kappa);
}

#define SERVE(NAME, TYPE, PRE)                                                         \
  static int NAME(void) {                                                              \
    struct TYPE *h = PRE##new();                                                       \
    char op[8];                                                                        \
    PRE##free(NULL);                                                                   \
    while (scanf("%7s", op) == 1) {                                                    \
      double a = 0.0;                                                                  \
      int k = 0;                                                                       \
      switch (op[0]) {                                                                 \
        case 'X': {                                                                    \
          struct Composition c;                                                        \
          enum CompositionError e;                                                     \
          if (scanf("%d", &k) != 1 || !composition(&c)) return 3;                      \
          e = cstart(k);                                                               \
          PRE##set_composition(h, &c, &e);                                             \
          printf(" %s", cname(e));                                                     \
          break;                                                                       \
        }                                                                              \
        case 'p': if (scanf("%lf", &a) != 1) return 3; PRE##set_pressure(h, a); break; \
        case 't': if (scanf("%lf", &a) != 1) return 3; PRE##set_temperature(h, a); break; \
        case 'd': if (scanf("%lf", &a) != 1) return 3; PRE##set_density(h, a); break;  \
        case 'C': num("pressure", PRE##calculate_pressure(h)); break;                  \
        case 'M': num("molar_mass", PRE##calculate_molar_mass(h)); break;              \
        case 'Q': PRE##calculate_properties(h); break;                                 \
        case 'R': {                                                                    \
          enum DensityError e;                                                         \
          if (scanf("%d", &k) != 1) return 3;                                          \
          e = dstart(k);                                                               \
          PRE##calculate_density(h, &e);                                               \
          printf(" %s", dname(e));                                                     \
          break;                                                                       \
        }                                                                              \
        case 'F': PRE##free(h); h = PRE##new(); break;                                 \
        default: return 3;                                                             \
      }                                                                                \
      num("P", PRE##get_pressure(h));                                                  \
      num("T", PRE##get_temperature(h));                                               \
      num("D", PRE##get_density(h));                                                   \
      show(PRE##get_properties(h));                                                    \
      printf("\n");                                                                    \
    }                                                                                  \
    PRE##free(h);                                                                      \
    return 0;                                                                          \
  }

static int composition(struct Composition *c) {
  double v[21];
  int i;
  for (i = 0; i < 21; i++)
    if (scanf("%lf", &v[i]) != 1) return 0;
  c->methane = v[0];
  c->nitrogen = v[1];
  c->carbon_dioxide = v[2];
  c->ethane = v[3];
  c->propane = v[4];
  c->isobutane = v[5];
  c->n_butane = v[6];
  c->isopentane = v[7];
  c->n_pentane = v[8];
  c->hexane = v[9];
  c->heptane = v[10];
  c->octane = v[11];
  c->nonane = v[12];
  c->decane = v[13];
  c->hydrogen = v[14];
  c->oxygen = v[15];
  c->carbon_monoxide = v[16];
  c->water = v[17];
  c->hydrogen_sulfide = v[18];
  c->helium = v[19];
  c->argon = v[20];
  return 1;
}

SERVE(serve_detail, Detail, aga8_)
SERVE(serve_gerg, Gerg2008, gerg_)

int main(int argc, char **argv) {
  if (argc != 2) return 3;
  return argv[1][0] == 'D' ? serve_detail() : serve_gerg();
}
