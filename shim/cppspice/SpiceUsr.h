/** Stand-in for CSPICE: declarations only; the harness implements them. */
#ifndef VERIF_SHIM_SPICE_HPP
#define VERIF_SHIM_SPICE_HPP
typedef int SpiceInt;
typedef char SpiceChar;
typedef int SpiceBoolean;
typedef double SpiceDouble;
extern "C" {
void ktotal_c(const char *kind, SpiceInt *count);
void kdata_c(SpiceInt which, const char *kind, SpiceInt fileln, SpiceInt filtln,
             SpiceInt srclen, SpiceChar *file, SpiceChar *filtyp,
             SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found);
void furnsh_c(const char *file);
void bodvrd_c(const char *body, const char *item, SpiceInt maxn, SpiceInt *dim,
              SpiceDouble *values);
SpiceDouble unitim_c(SpiceDouble epoch, const char *insys, const char *outsys);
void spkezp_c(SpiceInt targ, SpiceDouble et, const char *ref,
              const char *abcorr, SpiceInt obs, SpiceDouble *ptarg,
              SpiceDouble *lt);
void spkezr_c(const char *targ, SpiceDouble et, const char *ref,
              const char *abcorr, const char *obs, SpiceDouble *starg,
              SpiceDouble *lt);
}
#endif
