// Other threads as an adversary: every access of the code under test to the armed object goes through the ks_
// functions (engine/instr.cpp), which let the environment overwrite the object with any value between any two
// accesses, up to a budget, except while the agreed mutex is held.  Weak compare-exchange may fail spuriously.
#pragma once
#include "sym.h"
extern "C" {
void ks_arm(void *p, size_t n, void (*env)(void *), bool (*same)(const void *, const void *), int budget, int spurious, int merge);
void ks_disarm();                 // ends the observation
int ks_nwrites(); const void *ks_before(int i); const void *ks_after(int i); int ks_write_order(int i);
int ks_nreads(); const void *ks_read_value(int i);
int ks_nfails(); int ks_fail_order(int i);
void *ks_last_mutex(); void ks_agree(void *m); int ks_nlocks(); void *ks_held(); int ks_unprotected(); int ks_lock_error();
}
