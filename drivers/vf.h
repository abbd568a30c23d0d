// Intrinsics of the analysis.  They are never defined: the analyses in
// /verif/vf give them their abstract meaning.
#ifndef VF_H
#define VF_H
extern "C" {
int vf_nondet(int N) noexcept;            // any of 0..N-1
void *vf_token(const char *) noexcept;    // an arbitrary value
long vf_any(const char *) noexcept;       // an arbitrary word
bool vf_bool(const char *) noexcept;      // an arbitrary bool
void vf_check(bool, const char *) noexcept; // must hold
void vf_event(const char *, ...) noexcept;  // marks a step of the driver
void vf_halt() noexcept;
}
#endif
